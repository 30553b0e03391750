//! Reading messages: iterator construction, field binding, values, rejection, iterator protocol.
use crate::support::*;
use ros_pointcloud2::iterator::PointCloudIterator;

type It<const N: usize, C> = PointCloudIterator<N, C>;

// ---------------------------------------------------------------- C02: values

macro_rules! read_scalar {
    ($h:ident, $t:ident, $code:expr, $n:literal, $rd:ident, $bits:expr) => {
        proof! {
        #[kani::unwind(5)]
        fn $h() {
            const STEP: usize = $n + 2;
            let d: [u8; 2 * STEP] = kani::any();
            let o: u32 = kani::any();
            let e = any_endian();
            kani::assume(o as usize + $n <= STEP);
            let m = msg(vec![fld("a", $code, o)], e, STEP as u32, 2, 1, d.to_vec());
            let mut it = must!(It::<1, $t>::try_from(m), "a well-formed message is readable");
            let big = e == Endian::Big;
            match it.next() {
                Some(p) => assert!(($bits)(p.a) == $rd(&d, o as usize, big), "first point has the encoded value"),
                None => assert!(false, "first point exists"),
            }
            match it.next() {
                Some(p) => assert!(($bits)(p.a) == $rd(&d, STEP + o as usize, big), "second point has the encoded value"),
                None => assert!(false, "second point exists"),
            }
            assert!(it.next().is_none(), "no point after the last one");
            kani::cover!(big, "big endian reached");
            kani::cover!(!big, "little endian reached");
            core::mem::forget(it);
        }
        }
    };
}
read_scalar!(c02_read_u8, A8, U8, 1, n1, |x: u8| x);
read_scalar!(c02_read_i8, AI8, I8, 1, n1, |x: i8| x as u8);
read_scalar!(c02_read_u16, A16, U16, 2, n2, |x: u16| x);
read_scalar!(c02_read_i16, AI16, I16, 2, n2, |x: i16| x as u16);
read_scalar!(c02_read_u32, A32, U32, 4, n4, |x: u32| x);
read_scalar!(c02_read_i32, AI32, I32, 4, n4, |x: i32| x as u32);
read_scalar!(c02_read_f32, AF32, F32, 4, n4, |x: f32| x.to_bits());
read_scalar!(c02_read_f64, AF64, F64, 8, n8, |x: f64| x.to_bits());

// Two fields at any two offsets of the point, organized cloud, both endiannesses.
proof! {
#[kani::unwind(5)]
fn c02_read_two_fields() {
    let d: [u8; 16] = kani::any();
    let (oa, ob): (u32, u32) = (kani::any(), kani::any());
    let e = any_endian();
    kani::assume(oa <= 4 && ob <= 7);
    let m = msg(vec![fld("a", F32, oa), fld("b", U8, ob)], e, 8, 1, 2, d.to_vec());
    let mut it = must!(It::<2, P2>::try_from(m), "a well-formed message is readable");
    let big = e == Endian::Big;
    for k in 0..2usize {
        match it.next() {
            Some(p) => {
                assert!(p.a.to_bits() == n4(&d, 8 * k + oa as usize, big), "field a of every point");
                assert!(p.b == d[8 * k + ob as usize], "field b of every point");
            }
            None => assert!(false, "every point is yielded"),
        }
    }
    assert!(it.next().is_none(), "no point after the last one");
    kani::cover!(oa > ob, "reordered offsets reached");
    core::mem::forget(it);
}
}

// ---------------------------------------------------------------- C04: acceptance and rejection
// (the same obligations carry C01: every harness also discharges all pointer, bounds, overflow and
//  panic checks Kani generates on the code it executes)

/// Two requested fields; geometry from the caller, offsets over all of u32.
fn accept_two_fields(s: u32, w: u32, h: u32) {
    let d: [u8; 16] = kani::any();
    let (oa, ob): (u32, u32) = (kani::any(), kani::any());
    // the declared element counts have no influence: the first element is the value
    let (mut fb, mut fa) = (fld("b", U8, ob), fld("a", F32, oa));
    fb.count = kani::any();
    fa.count = kani::any();
    let m = msg(vec![fb, fa], Endian::Little, s, w, h, d.to_vec());
    let fits = oa as u64 + 4 <= s as u64 && (ob as u64) < s as u64;
    let len_ok = w as u128 * h as u128 * s as u128 == 16;
    match It::<2, P2>::try_from(m) {
        Ok(mut it) => {
            assert!(len_ok, "accepted: data length is width * height * point_step");
            assert!(fits, "accepted: every field lies inside of the point");
            match it.next() {
                Some(p) => {
                    assert!(p.a.to_bits() == n4(&d, oa as usize, false), "value of a");
                    assert!(p.b == d[ob as usize], "value of b");
                }
                None => assert!(false, "an accepted message has a point"),
            }
            kani::cover!(true, "accepted reached");
            core::mem::forget(it);
        }
        Err(e) => {
            assert!(!(len_ok && fits), "a well-formed message is accepted");
            assert!(matches!(e, MsgConversionError::DataLengthMismatch), "malformed: DataLengthMismatch");
            kani::cover!(len_ok, "rejected for a field outside of the point");
            kani::cover!(!len_ok, "rejected for the data length");
            core::mem::forget(e);
        }
    }
}
proof! {
#[kani::unwind(5)]
fn c04_accept_any_dims() {
    accept_two_fields(8, kani::any(), kani::any());
}
}
proof! {
#[kani::unwind(5)]
fn c04_accept_any_step_width() {
    accept_two_fields(kani::any(), kani::any(), 1);
}
}
proof! {
#[kani::unwind(5)]
fn c04_accept_any_step_height() {
    accept_two_fields(kani::any(), 2, kani::any());
}
}

// Every combination of step/width/height whose product overflows 64 bit is rejected.
proof! {
#[kani::unwind(5)]
fn c04_reject_overflowing_product() {
    let s: u32 = kani::any();
    kani::assume(s >= 1 << 30);
    let m = msg(vec![fld("a", F32, kani::any())], any_endian(), s, u32::MAX, 1 << 31, vec![0u8; 4]);
    match It::<1, AF32>::try_from(m) {
        Ok(it) => {
            core::mem::forget(it);
            assert!(false, "a product that is not the data length is rejected");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::DataLengthMismatch), "DataLengthMismatch");
            core::mem::forget(e);
        }
    }
}
}

// The buffer length may be anything (no bound but 2^40): accepted exactly when it is width * step.
proof! {
#[kani::unwind(5)]
fn c04_accept_any_length() {
    let data = sym_bytes(1 << 40);
    let len = data.len();
    let w: u32 = kani::any();
    let o: u32 = kani::any();
    let m = msg(vec![fld("a", U16, o)], any_endian(), 5, w, 1, data);
    match It::<1, A16>::try_from(m) {
        Ok(it) => {
            assert!(len == 5 * w as usize && o <= 3, "accepted only when well-formed");
            let (lo, hi) = it.size_hint();
            assert!(lo == w as usize && hi == Some(w as usize), "as many points as the dimensions say");
            kani::cover!(w > 1 << 20, "huge cloud reached");
            core::mem::forget(it);
        }
        Err(e) => {
            assert!(!(len == 5 * w as usize && o <= 3), "well-formed is accepted");
            core::mem::forget(e);
        }
    }
}
}

// Datatype codes: 1..=8 are accepted, all others are UnsupportedFieldType.
proof! {
#[kani::unwind(5)]
fn c04_datatype_codes() {
    let t: u8 = kani::any();
    kani::assume(t == 0 || t > 8);
    let m = msg(vec![fld("a", t, 0)], Endian::Little, 8, 1, 1, vec![0u8; 8]);
    match It::<1, AF32>::try_from(m) {
        Ok(it) => {
            core::mem::forget(it);
            assert!(false, "unknown datatype codes are rejected");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::UnsupportedFieldType(_)), "UnsupportedFieldType");
            core::mem::forget(e);
        }
    }
}
}

// A requested field that the message does not have: FieldsNotFound with exactly the missing names.
macro_rules! missing_field {
    ($h:ident, $present:literal, $missing:literal) => {
        proof! {
        #[kani::unwind(5)]
        fn $h() {
            let m = msg(vec![fld($present, U8, 0)], any_endian(), 1, 1, 1, vec![0u8; 1]);
            match It::<2, B2>::try_from(m) {
                Ok(it) => {
                    core::mem::forget(it);
                    assert!(false, "missing fields are rejected");
                }
                Err(MsgConversionError::FieldsNotFound(names)) => {
                    assert!(names.len() == 1, "only the missing field is listed");
                    assert!(names[0].len() == 1 && names[0].as_bytes()[0] == $missing, "the missing field is listed");
                    kani::cover!(true, "rejected");
                    core::mem::forget(names);
                }
                Err(e) => {
                    core::mem::forget(e);
                    assert!(false, "FieldsNotFound");
                }
            }
        }
        }
    };
}
missing_field!(c04_missing_first, "b", b'a');
missing_field!(c04_missing_second, "a", b'b');
proof! {
#[kani::unwind(5)]
fn c04_missing_all() {
    let m = msg(vec![fld("x", U8, 0)], any_endian(), 1, 1, 1, vec![0u8; 1]);
    match It::<2, B2>::try_from(m) {
        Ok(it) => {
            core::mem::forget(it);
            assert!(false, "missing fields are rejected");
        }
        Err(MsgConversionError::FieldsNotFound(names)) => {
            assert!(names.len() == 2, "all missing fields are listed");
            assert!(names[0].as_bytes()[0] == b'a' && names[1].as_bytes()[0] == b'b', "by name");
            core::mem::forget(names);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(false, "FieldsNotFound");
        }
    }
}
}

// ---------------------------------------------------------------- C01: no panic, no out-of-bounds read

// Any offset, count, step, width and flags, for every datatype code: build the iterator, consume all of it.
macro_rules! iterate_anything {
    ($h:ident, $code:expr, $len:literal) => {
        proof! {
        #[kani::unwind(6)]
        fn $h() {
            let d: [u8; $len] = kani::any();
            let (s, w): (u32, u32) = (kani::any(), kani::any());
            kani::assume(w <= 4 || s == 0 || w > $len);
            let mut fa = fld("a", $code, kani::any());
            fa.count = kani::any();
            let m = msg(vec![fa], any_endian(), s, w, 1, d.to_vec());
            match It::<1, A8>::try_from(m) {
                Ok(mut it) => {
                    let mut n = 0;
                    while let Some(_p) = it.next() {
                        n += 1;
                    }
                    assert!(n <= 4, "no more points than bytes");
                    kani::cover!(n == 1, "one point read");
                    core::mem::forget(it);
                }
                Err(e) => {
                    kani::cover!(true, "rejected");
                    core::mem::forget(e)
                }
            }
        }
        }
    };
}
iterate_anything!(c01_iterate_i8, I8, 4);
iterate_anything!(c01_iterate_u8, U8, 4);
iterate_anything!(c01_iterate_i16, I16, 4);
iterate_anything!(c01_iterate_u16, U16, 4);
iterate_anything!(c01_iterate_i32, I32, 8);
iterate_anything!(c01_iterate_u32, U32, 8);
iterate_anything!(c01_iterate_f32, F32, 8);
iterate_anything!(c01_iterate_f64, F64, 16);
macro_rules! iterate_unknown {
    ($h:ident, $code:expr) => {
        proof! {
        #[kani::unwind(6)]
        fn $h() {
            let (s, w, h): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
            let m = msg(vec![fld("a", $code, kani::any())], any_endian(), s, w, h, vec![0u8; 4]);
            match It::<1, A8>::try_from(m) {
                Ok(it) => {
                    core::mem::forget(it);
                    assert!(false, "unknown datatypes are rejected");
                }
                Err(e) => {
                    kani::cover!(true, "rejected");
                    core::mem::forget(e)
                }
            }
        }
        }
    };
}
iterate_unknown!(c01_iterate_unknown_0, 0);
iterate_unknown!(c01_iterate_unknown_9, 9);
// A field whose declared datatype is wider than the requested type, at any offset of the last point.
proof! {
#[kani::unwind(5)]
fn c01_wider_datatype_in_message() {
    let d: [u8; 12] = kani::any();
    let o: u32 = kani::any();
    let m = msg(vec![fld("a", F64, o)], any_endian(), kani::any(), kani::any(), 1, d.to_vec());
    match It::<1, A8>::try_from(m) {
        Ok(mut it) => {
            let p = it.next();
            assert!(p.is_some(), "a point");
            kani::cover!(o == 4, "last possible offset");
            core::mem::forget(it);
        }
        Err(e) => core::mem::forget(e),
    }
}
}
proof! {
#[kani::unwind(6)]
fn c01_iterate_empty_data() {
    let (s, w, h): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    kani::assume(s == 0 || w == 0 || h == 0);
    let m = msg(vec![fld("a", U16, kani::any())], any_endian(), s, w, h, Vec::new());
    match It::<1, A8>::try_from(m) {
        Ok(mut it) => {
            assert!(it.next().is_none(), "no data, no points");
            kani::cover!(true, "empty cloud accepted");
            core::mem::forget(it);
        }
        Err(e) => core::mem::forget(e),
    }
}
}

// ---------------------------------------------------------------- C08: binding by name

// Extra message fields before, between and after; requested fields in the opposite order of the type.
proof! {
#[kani::unwind(6)]
fn c08_extra_fields_any_order() {
    let d: [u8; 8] = kani::any();
    let o: [u32; 4] = kani::any();
    kani::assume(o[1] <= 7 && o[3] <= 4);
    let m = msg(
        vec![fld("x", kani::any(), o[0]), fld("b", U8, o[1]), fld("y", F64, o[2]), fld("a", F32, o[3])],
        Endian::Little, 8, 1, 1, d.to_vec(),
    );
    let mut it = must!(It::<2, P2>::try_from(m), "fields are found by name");
    match it.next() {
        Some(p) => {
            assert!(p.a.to_bits() == n4(&d, o[3] as usize, false), "a is read from the field named a");
            assert!(p.b == d[o[1] as usize], "b is read from the field named b");
        }
        None => assert!(false, "one point"),
    }
    core::mem::forget(it);
}
}
proof! {
#[kani::unwind(6)]
fn c08_same_order_extra_between() {
    let d: [u8; 8] = kani::any();
    let o: [u32; 3] = kani::any();
    kani::assume(o[0] <= 4 && o[2] <= 7);
    let m = msg(
        vec![fld("a", F32, o[0]), fld("x", kani::any(), o[1]), fld("b", U8, o[2])],
        Endian::Big, 8, 1, 1, d.to_vec(),
    );
    let mut it = must!(It::<2, P2>::try_from(m), "fields are found by name");
    match it.next() {
        Some(p) => {
            assert!(p.a.to_bits() == n4(&d, o[0] as usize, true), "a is read from the field named a");
            assert!(p.b == d[o[2] as usize], "b is read from the field named b");
        }
        None => assert!(false, "one point"),
    }
    core::mem::forget(it);
}
}

// Names that only resemble the requested one: another case, a longer, a shorter, an empty one, with spaces.
point_type!(Long / 1 { intensity: u8 } [0 intensity] L_LONG = [lf("intensity", "u8", 1)]; 1);
macro_rules! similar_name {
    ($h:ident, $t:ident, $f:ident, $name:literal, $other:literal) => {
        proof! {
        #[kani::unwind(12)]
        fn $h() {
            let d: [u8; 4] = kani::any();
            let (o, q): (u32, u32) = (kani::any(), kani::any());
            kani::assume(o < 4);
            let m = msg(vec![fld($other, U8, q), fld($name, U8, o)], any_endian(), 4, 1, 1, d.to_vec());
            let mut it = must!(It::<1, $t>::try_from(m), "the field is found by its name");
            match it.next() {
                Some(p) => assert!(p.$f == d[o as usize], "the value of the field with exactly this name"),
                None => assert!(false, "one point"),
            }
            core::mem::forget(it);
            let m = msg(vec![fld($other, U8, 0)], any_endian(), 4, 1, 1, d.to_vec());
            match It::<1, $t>::try_from(m) {
                Ok(it) => {
                    core::mem::forget(it);
                    assert!(false, "a field with another name does not stand in");
                }
                Err(e) => {
                    assert!(matches!(e, MsgConversionError::FieldsNotFound(_)), "FieldsNotFound");
                    core::mem::forget(e);
                }
            }
        }
        }
    };
}
similar_name!(c08_name_case, A8, a, "a", "A");
similar_name!(c08_name_longer, A8, a, "a", "ab");
similar_name!(c08_name_suffix, A8, a, "a", "ba");
similar_name!(c08_name_empty, A8, a, "a", "");
similar_name!(c08_name_space, A8, a, "a", "a ");
similar_name!(c08_name_last_letter, Long, intensity, "intensity", "intensitx");
similar_name!(c08_name_prefix, Long, intensity, "intensity", "intensit");
similar_name!(c08_name_long_case, Long, intensity, "intensity", "Intensity");

// Other fields with any name at all, of any length: only the requested name counts.
macro_rules! any_name {
    ($other:ident, $t:ident, $f:ident, $name:literal) => {
        proof! {
        #[kani::unwind(12)]
        fn $other() {
            let d: [u8; 4] = kani::any();
            let (o, q): (u32, u32) = (kani::any(), kani::any());
            kani::assume(o < 4);
            let other = sym_text(1 << 40);
            kani::assume(!is_text(&other, $name));
            kani::cover!(other.len() > $name.len(), "a longer name");
            let f = PointFieldMsg { name: other, offset: q, datatype: kani::any(), count: kani::any() };
            let m = msg(vec![f, fld($name, U8, o)], Endian::Little, 4, 1, 1, d.to_vec());
            let mut it = must!(It::<1, $t>::try_from(m), "the field is found by its name");
            match it.next() {
                Some(p) => assert!(p.$f == d[o as usize], "the value of the field with exactly this name"),
                None => assert!(false, "one point"),
            }
            core::mem::forget(it);
        }
        }
    };
}
macro_rules! any_missing_name {
    ($only:ident, $t:ident, $name:literal) => {
        proof! {
        #[kani::unwind(12)]
        fn $only() {
            let name = sym_text(1 << 40);
            kani::assume(!is_text(&name, $name));
            let f = PointFieldMsg { name, offset: 0, datatype: U8, count: 1 };
            let m = msg(vec![f], any_endian(), 4, 1, 1, vec![0; 4]);
            match It::<1, $t>::try_from(m) {
                Ok(it) => {
                    core::mem::forget(it);
                    assert!(false, "a field with another name does not stand in");
                }
                Err(MsgConversionError::FieldsNotFound(missing)) => {
                    assert!(missing.len() == 1 && is_text(&missing[0], $name), "the missing field is named");
                    kani::cover!(true, "missing");
                    core::mem::forget(missing);
                }
                Err(e) => {
                    core::mem::forget(e);
                    assert!(false, "FieldsNotFound");
                }
            }
        }
        }
    };
}
any_name!(c08_any_other_name, A8, a, "a");
any_name!(c08_any_other_name_long, Long, intensity, "intensity");
any_missing_name!(c04_any_name, Long, "intensity");

// ---------------------------------------------------------------- C09: iterator protocol

proof! {
#[kani::unwind(6)]
fn c09_yields_exactly_the_points() {
    let d: [u8; 3] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, 3, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    for k in 0..3usize {
        let (lo, hi) = it.size_hint();
        assert!(lo == 3 - k && hi == Some(3 - k), "size hint is the number of remaining points");
        match it.next() {
            Some(p) => assert!(p.a == d[k], "points come in order"),
            None => assert!(false, "every point is yielded"),
        }
    }
    for _ in 0..3 {
        let (lo, hi) = it.size_hint();
        assert!(lo == 0 && hi == Some(0), "exhausted size hint");
        assert!(it.next().is_none(), "exhausted stays exhausted");
    }
    core::mem::forget(it);
}
}

// Any number of points: the hint starts at the number of points and drops by one with every point.
proof! {
#[kani::unwind(5)]
fn c09_size_hint_any_width() {
    let data = sym_bytes(1 << 40);
    let len = data.len();
    let w: u32 = kani::any();
    kani::assume(w >= 1 && len == 3 * w as usize);
    let first = data[1];
    let m = msg(vec![fld("a", U8, 1)], any_endian(), 3, w, 1, data);
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    assert!(it.size_hint() == (w as usize, Some(w as usize)), "hint at the start");
    match it.next() {
        Some(p) => assert!(p.a == first, "the first point"),
        None => assert!(false, "at least one point"),
    }
    assert!(it.size_hint() == (w as usize - 1, Some(w as usize - 1)), "hint after one point");
    let more = it.next().is_some();
    assert!(more == (w >= 2), "a second point exactly when there are two");
    core::mem::forget(it);
}
}

// The provided methods of the protocol agree with taking the points one by one.
proof! {
#[kani::unwind(6)]
fn c09_nth_and_skip() {
    let d: [u8; 3] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, 3, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    let c: usize = kani::any();
    kani::assume(c <= 1);
    for _ in 0..c {
        let _ = it.next();
    }
    let k: usize = kani::any();
    kani::assume(k <= 3);
    match it.nth(k) {
        Some(p) => assert!(c + k < 3 && p.a == d[c + k], "the k-th of the remaining points"),
        None => assert!(c + k >= 3, "None only behind the last point"),
    }
    let left = 3usize.saturating_sub(c + k + 1);
    assert!(it.size_hint() == (left, Some(left)), "the points after it remain");
    match it.next() {
        Some(p) => assert!(left > 0 && p.a == d[c + k + 1], "the next point after it"),
        None => assert!(left == 0, "no point left"),
    }
    kani::cover!(k == 3, "behind the end");
    core::mem::forget(it);
}
}
proof! {
#[kani::unwind(6)]
fn c09_fold_count_last() {
    let d: [u8; 3] = kani::any();
    let c: usize = kani::any();
    kani::assume(c <= 3);
    let make = || msg(vec![fld("a", U8, 0)], Endian::Little, 1, 3, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(make()), "well-formed");
    for _ in 0..c {
        let _ = it.next();
    }
    assert!(it.count() == 3 - c, "as many as remain");
    let mut it = must!(It::<1, A8>::try_from(make()), "well-formed");
    for _ in 0..c {
        let _ = it.next();
    }
    match it.last() {
        Some(p) => assert!(c < 3 && p.a == d[2], "the last point"),
        None => assert!(c == 3, "None only at the end"),
    }
    let mut it = must!(It::<1, A8>::try_from(make()), "well-formed");
    for _ in 0..c {
        let _ = it.next();
    }
    let at = it.fold(c, |at, p| {
        assert!(at < 3 && p.a == d[at], "every remaining point in order");
        at + 1
    });
    assert!(at == 3, "all of them");
}
}

// ---------------------------------------------------------------- C10: split

/// Splitting `w` points after consuming `c` of them at any `k`: the halves are the remaining points.
fn split_case<const W: usize>(c: usize) {
    let d: [u8; W] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, W as u32, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    for _ in 0..c {
        let _ = it.next();
    }
    let k: usize = kani::any();
    kani::assume(k <= W - c);
    let (mut l, mut r) = it.split_at(k);
    assert!(l.size_hint() == (k, Some(k)), "left half has k points");
    assert!(r.size_hint() == (W - c - k, Some(W - c - k)), "right half has the others");
    let mut at = c;
    while let Some(p) = l.next() {
        assert!(at < W && p.a == d[at], "left half yields the points before the split");
        at += 1;
    }
    assert!(at == c + k, "left half yields k points");
    while let Some(p) = r.next() {
        assert!(at < W && p.a == d[at], "right half yields the points after the split");
        at += 1;
    }
    assert!(at == W, "nothing lost, nothing repeated");
    kani::cover!(k == 0, "split at the start");
    kani::cover!(k == W - c, "split at the end");
    core::mem::forget((l, r));
}
proof! {
#[kani::unwind(6)]
fn c10_split_fresh() {
    split_case::<3>(0);
}
}
proof! {
#[kani::unwind(6)]
fn c10_split_after_consuming() {
    split_case::<3>(1);
}
}
proof! {
#[kani::unwind(6)]
fn c10_split_empty() {
    split_case::<0>(0);
}
}
// Splitting a half again.
proof! {
#[kani::unwind(6)]
fn c10_split_twice() {
    let d: [u8; 4] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, 4, 1, d.to_vec());
    let it = must!(It::<1, A8>::try_from(m), "well-formed");
    let j: usize = kani::any();
    kani::assume(j <= 3);
    let (l, r) = it.split_at(1);
    let (mut rl, mut rr) = r.split_at(j);
    let mut at = 1;
    while let Some(p) = rl.next() {
        assert!(at < 4 && p.a == d[at], "middle part in order");
        at += 1;
    }
    assert!(at == 1 + j, "middle part has j points");
    while let Some(p) = rr.next() {
        assert!(at < 4 && p.a == d[at], "last part in order");
        at += 1;
    }
    assert!(at == 4, "nothing lost");
    core::mem::forget((l, rl, rr));
}
}
