//! Contracts of the iterator operations on *every* well-formed iterator state: any number of points, any
//! position, any split history.  `try_from` establishes the invariant (`s_init_*`), every operation keeps it,
//! so the bounded runs of read.rs are instances of these.
use crate::support::*;
use crate::points::*;
use ros_pointcloud2::iterator::PointCloudIterator;

type It<const N: usize, C> = PointCloudIterator<N, C>;

fn same<const N: usize>(a: &[usize; N], b: &[usize; N]) -> bool {
    let mut ok = true;
    for i in 0..N {
        ok = ok && a[i] == b[i];
    }
    ok
}

/// Any well-formed state over a buffer of any length; `data` keeps the pointer for the specification.
fn any_state<const N: usize, C: PointConvertible<N>>(
    step: usize,
    offsets: [usize; N],
    types: [FieldDatatype; N],
    max: usize,
) -> (It<N, C>, &'static [u8]) {
    let data = sym_bytes(max);
    let view: &'static [u8] = unsafe { core::slice::from_raw_parts(data.as_ptr(), data.len()) };
    let mut pdata: Vec<(String, FieldDatatype)> = Vec::with_capacity(N);
    for i in 0..N {
        kani::assume(offsets[i] <= step && offsets[i] + types[i].size() <= step);
        pdata.push((String::new(), types[i]));
    }
    let it = It::<N, C>::verif_new(data, step, kani::any(), kani::any(), kani::any(), kani::any(), offsets, pdata, any_endian());
    kani::assume(it.verif_state().well_formed());
    (it, view)
}

macro_rules! next_contract {
    ($h:ident, $t:ident, $n:literal, $step:expr, [$($d:ident),*], |$p:ident, $v:ident, $at:ident, $big:ident, $o:ident| $e:expr) => {
        proof! {
        #[kani::unwind(9)]
        fn $h() {
            let $o: [usize; $n] = kani::any();
            let step: usize = $step;
            let (mut it, $v) = any_state::<$n, $t>(step, $o, [$(FieldDatatype::$d),*], 1 << 40);
            let s = it.verif_state();
            let $big = s.endian == Endian::Big;
            let $at = s.first() * step;
            match it.next() {
                Some($p) => {
                    assert!(s.iteration < s.iteration_back, "a point only while points remain");
                    assert!($e, "the first remaining point");
                    let n = it.verif_state();
                    assert!(n.well_formed(), "invariant kept");
                    assert!(n.first() == s.first() + 1 && n.last() == s.last(), "one point consumed at the front");
                    assert!(n.step == s.step && n.len == s.len && n.at == s.at && n.endian == s.endian && same(&it.verif_offsets(), &$o), "nothing else changed");
                    kani::cover!($at > 1 << 33, "far inside of a huge cloud");
                    kani::cover!(s.start > 0, "inside of a split");
                }
                None => {
                    assert!(s.iteration == s.iteration_back, "None only at the end");
                    assert!(it.verif_state() == s, "nothing changed at the end");
                    kani::cover!(true, "exhausted");
                }
            }
            core::mem::forget(it);
        }
        }
    };
}
next_contract!(s_next_u8, A8, 1, 3, [U8], |p, v, at, big, o| p.a == v[at + o[0]]);
next_contract!(s_next_u16, A16, 1, 5, [U16], |p, v, at, big, o| p.a == n2(v, at + o[0], big));
next_contract!(s_next_u32, A32, 1, 6, [U32], |p, v, at, big, o| p.a == n4(v, at + o[0], big));
next_contract!(s_next_f64, AF64, 1, 24, [F64], |p, v, at, big, o| p.a.to_bits() == n8(v, at + o[0], big));
next_contract!(s_next_three, U3, 3, 32, [F32, U16, U16], |p, v, at, big, o| p.a.to_bits() == n4(v, at + o[0], big) && p.b == n2(v, at + o[1], big) && p.c == n2(v, at + o[2], big));

// the predefined types (their conversion is the real one)
next_contract!(s_next_xyz, WXyz, 3, 32, [F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big));
next_contract!(s_next_xyzi, WXyzi, 4, 32, [F32, F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(p.0.intensity, v, at + o[3], big));
next_contract!(s_next_xyzl, WXyzl, 4, 32, [F32, F32, F32, U32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && p.0.label == n4(v, at + o[3], big));
next_contract!(s_next_xyzrgb, WXyzrgb, 4, 32, [F32, F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(f32::from(p.0.rgb), v, at + o[3], big));
next_contract!(s_next_xyzrgba, WXyzrgba, 5, 32, [F32, F32, F32, F32, U8], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(f32::from(p.0.rgb), v, at + o[3], big) && p.0.a == v[at + o[4]]);
next_contract!(s_next_xyzrgbl, WXyzrgbl, 5, 32, [F32, F32, F32, F32, U32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(f32::from(p.0.rgb), v, at + o[3], big) && p.0.label == n4(v, at + o[4], big));
next_contract!(s_next_xyznormal, WXyznormal, 6, 32, [F32, F32, F32, F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(p.0.normal_x, v, at + o[3], big) && is(p.0.normal_y, v, at + o[4], big) && is(p.0.normal_z, v, at + o[5], big));
next_contract!(s_next_xyzrgbnormal, WXyzrgbnormal, 7, 32, [F32, F32, F32, F32, F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(f32::from(p.0.rgb), v, at + o[3], big) && is(p.0.normal_x, v, at + o[4], big) && is(p.0.normal_y, v, at + o[5], big) && is(p.0.normal_z, v, at + o[6], big));
next_contract!(s_next_xyzinormal, WXyzinormal, 7, 32, [F32, F32, F32, F32, F32, F32, F32], |p, v, at, big, o| is(p.0.x, v, at + o[0], big) && is(p.0.y, v, at + o[1], big) && is(p.0.z, v, at + o[2], big) && is(p.0.intensity, v, at + o[3], big) && is(p.0.normal_x, v, at + o[4], big) && is(p.0.normal_y, v, at + o[5], big) && is(p.0.normal_z, v, at + o[6], big));
fn is(f: f32, v: &[u8], at: usize, big: bool) -> bool {
    f.to_bits() == n4(v, at, big)
}

// any point step: the one non-linear fact the argument needs is the lemma `point_in_buffer` (proved for all
// integers by Verus in lemmas.rs), assumed here for the values at hand
macro_rules! next_any_step {
    ($h:ident, $t:ident, $d:ident, |$p:ident, $v:ident, $at:ident, $big:ident| $e:expr) => {
        proof! {
        #[kani::unwind(5)]
        fn $h() {
            let o: usize = kani::any();
            let step32: u32 = kani::any();
            let step = step32 as usize;
            let data = sym_bytes(1 << 40);
            let $v: &'static [u8] = unsafe { core::slice::from_raw_parts(data.as_ptr(), data.len()) };
            kani::assume(o <= step && o + FieldDatatype::$d.size() <= step);
            let mut it = It::<1, $t>::verif_new(data, step, kani::any(), kani::any(), kani::any(), kani::any(), [o], vec![(String::new(), FieldDatatype::$d)], any_endian());
            let s = it.verif_state();
            kani::assume(s.iteration <= s.iteration_back && s.start <= s.end && s.iteration_back <= s.end - s.start && s.end <= 1 << 40);
            let base = match (s.start + s.iteration).checked_mul(step) {
                Some(b) => b,
                None => return,
            };
            kani::assume(base <= $v.len() && (s.iteration == s.iteration_back || step <= $v.len() - base));
            let $big = s.endian == Endian::Big;
            match it.next() {
                Some($p) => {
                    assert!(s.iteration < s.iteration_back, "a point only while points remain");
                    let $at = base + o;
                    assert!($e, "the first remaining point");
                    let n = it.verif_state();
                    assert!(n.first() == s.first() + 1 && n.last() == s.last() && n.start == s.start && n.end == s.end, "one point consumed at the front");
                    assert!(n.step == s.step && n.len == s.len && n.at == s.at && n.endian == s.endian && it.verif_offsets()[0] == o, "nothing else changed");
                    kani::cover!(step > 1 << 30, "huge points");
                }
                None => {
                    assert!(s.iteration == s.iteration_back, "None only at the end");
                    assert!(it.verif_state() == s, "nothing changed at the end");
                }
            }
            core::mem::forget(it);
        }
        }
    };
}
next_any_step!(s_next_any_step_u8, A8, U8, |p, v, at, big| p.a == v[at]);
next_any_step!(s_next_any_step_f32, AF32, F32, |p, v, at, big| p.a.to_bits() == n4(v, at, big));
next_any_step!(s_next_any_step_f64, AF64, F64, |p, v, at, big| p.a.to_bits() == n8(v, at, big));

proof! {
#[kani::unwind(5)]
fn s_size_hint() {
    let (it, _v) = any_state::<1, A8>(3, [0], [FieldDatatype::U8], 1 << 40);
    let s = it.verif_state();
    assert!(it.size_hint() == (s.remaining(), Some(s.remaining())), "the remaining points");
    assert!(it.verif_state() == s, "nothing changed");
    core::mem::forget(it);
}
}

// a message of any length becomes the whole cloud
proof! {
#[kani::unwind(5)]
fn s_init() {
    let data = sym_bytes(1 << 40);
    let (len, at) = (data.len(), data.as_ptr() as usize);
    let (w, o): (u32, u32) = (kani::any(), kani::any());
    let e = any_endian();
    let m = msg(vec![fld("a", U16, o)], e, 5, w, 1, data);
    match It::<1, A16>::try_from(m) {
        Ok(it) => {
            let s = it.verif_state();
            assert!(s.well_formed(), "invariant established");
            assert!(s.first() == 0 && s.last() == w as usize && s.end * 5 == len, "the whole cloud");
            assert!(s.len == len && s.at == at && s.step == 5 && s.endian == e, "buffer, step and byte order of the message");
            assert!(it.verif_offsets()[0] == o as usize && it.verif_datatype(0) == FieldDatatype::U16 && o as usize + 2 <= 5, "field of the message");
            kani::cover!(w > 1 << 30, "huge cloud");
            core::mem::forget(it);
        }
        Err(e) => core::mem::forget(e),
    }
}
}

// the same for several fields, at any offsets
macro_rules! init_contract {
    ($h:ident, $t:ident, $n:literal, $step:literal, $u:literal, [$($name:literal $code:ident $size:literal),*]) => {
        proof! {
        #[kani::unwind($u)]
        fn $h() {
            let data = sym_bytes(1 << 40);
            let (len, at) = (data.len(), data.as_ptr() as usize);
            let w: u32 = kani::any();
            let o: [u32; $n] = kani::any();
            let e = any_endian();
            let codes: [u8; $n] = [$($code),*];
            let sizes: [u64; $n] = [$($size),*];
            let names: [&str; $n] = [$($name),*];
            let mut fields = Vec::with_capacity($n);
            let mut inside = true;
            for i in 0..$n {
                fields.push(fld(names[i], codes[i], o[i]));
                inside = inside && o[i] as u64 + sizes[i] <= $step;
            }
            let good = inside && len as u64 == w as u64 * $step;
            let m = msg(fields, e, $step, w, 1, data);
            match It::<$n, $t>::try_from(m) {
                Ok(it) => {
                    assert!(good, "accepted only when well-formed");
                    let s = it.verif_state();
                    assert!(s.well_formed(), "invariant established");
                    assert!(s.first() == 0 && s.last() == w as usize && s.end * $step == len, "the whole cloud");
                    assert!(s.len == len && s.at == at && s.step == $step && s.endian == e, "buffer, step and byte order of the message");
                    for i in 0..$n {
                        assert!(it.verif_offsets()[i] == o[i] as usize, "offset of the field");
                        let d: u8 = it.verif_datatype(i).into();
                        assert!(d == codes[i], "datatype of the field");
                    }
                    kani::cover!(w > 1 << 30, "huge cloud");
                    core::mem::forget(it);
                }
                Err(e) => {
                    assert!(!good, "well-formed is accepted");
                    core::mem::forget(e);
                }
            }
        }
        }
    };
}
init_contract!(s_init_two, P2, 2, 16, 5, ["a" F32 4, "b" U8 1]);
init_contract!(s_init_three, U3, 3, 16, 5, ["a" F32 4, "b" U16 2, "c" U16 2]);
init_contract!(s_init_xyz, WXyz, 3, 32, 5, ["x" F32 4, "y" F32 4, "z" F32 4]);
init_contract!(s_init_xyzi, WXyzi, 4, 32, 10, ["x" F32 4, "y" F32 4, "z" F32 4, "intensity" F32 4]);
init_contract!(s_init_xyzl, WXyzl, 4, 32, 7, ["x" F32 4, "y" F32 4, "z" F32 4, "label" U32 4]);
init_contract!(s_init_xyzrgb, WXyzrgb, 4, 32, 7, ["x" F32 4, "y" F32 4, "z" F32 4, "rgb" F32 4]);
init_contract!(s_init_xyzrgba, WXyzrgba, 5, 32, 7, ["x" F32 4, "y" F32 4, "z" F32 4, "rgb" F32 4, "a" U8 1]);
init_contract!(s_init_xyzrgbl, WXyzrgbl, 5, 32, 7, ["x" F32 4, "y" F32 4, "z" F32 4, "rgb" F32 4, "label" U32 4]);
init_contract!(s_init_xyznormal, WXyznormal, 6, 32, 10, ["x" F32 4, "y" F32 4, "z" F32 4, "normal_x" F32 4, "normal_y" F32 4, "normal_z" F32 4]);
init_contract!(s_init_xyzrgbnormal, WXyzrgbnormal, 7, 32, 10, ["x" F32 4, "y" F32 4, "z" F32 4, "rgb" F32 4, "normal_x" F32 4, "normal_y" F32 4, "normal_z" F32 4]);
init_contract!(s_init_xyzinormal, WXyzinormal, 7, 32, 11, ["x" F32 4, "y" F32 4, "z" F32 4, "intensity" F32 4, "normal_x" F32 4, "normal_y" F32 4, "normal_z" F32 4]);

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(5)]
#[kani::should_panic]
fn s_split_out_of_range() {
    let (it, _v) = any_state::<1, A8>(3, [0], [FieldDatatype::U8], 12);
    let k: usize = kani::any();
    kani::assume(k > it.verif_state().remaining());
    core::mem::forget(it.split_at(k));
}
proof! {
#[kani::unwind(14)]
fn s_split() {
    let (it, _v) = any_state::<1, A8>(3, [1], [FieldDatatype::U8], 12);
    let s = it.verif_state();
    let k: usize = kani::any();
    kani::assume(k <= s.remaining());
    let (l, r) = it.split_at(k);
    let (a, b) = (l.verif_state(), r.verif_state());
    assert!(a.well_formed() && b.well_formed(), "invariant in both halves");
    assert!(a.first() == s.first() && a.last() == s.first() + k, "left half");
    assert!(b.first() == s.first() + k && b.last() == s.last(), "right half");
    assert!(a.step == 3 && b.step == 3 && a.len == s.len && b.len == s.len && a.endian == s.endian && b.endian == s.endian, "same cloud");
    assert!(l.verif_offsets()[0] == 1 && r.verif_offsets()[0] == 1, "same fields");
    assert!(l.verif_datatype(0) == FieldDatatype::U8 && r.verif_datatype(0) == FieldDatatype::U8, "same datatypes");
    core::mem::forget((l, r));
}
}
