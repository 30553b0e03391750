//! `try_into_vec`: the direct-copy paths and the fallback agree with point-by-point reading.
use crate::support::*;

/// The layout translation enters through its contract (`k_known_*`) when the hooks of the crate compile;
/// otherwise its body is executed and only `str::to_lowercase` is assumed.
macro_rules! into_vec_proof {
    ($h:ident, $shape:ident, $u:literal, $b:block) => {
        proof! {
        #[kani::unwind($u)]
        #[cfg_attr(not(rpcl2_verif), kani::stub(str::to_lowercase, lowercase_stub))]
        #[cfg_attr(rpcl2_verif, kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract))]
        fn $h() $b
        }
    };
}

// layout and message identical: one copy
into_vec_proof!(c03_vec_equal, u3, 5, {
    let d: [u8; 16] = kani::any();
    let m = msg(vec![fld("a", F32, 0), fld("b", U16, 4), fld("c", U16, 6)], Endian::Little, 8, 2, 1, d.to_vec());
    let v: Vec<U3> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    for k in 0..2usize {
        assert!(v[k].a.to_bits() == n4(&d, 8 * k, false), "field a");
        assert!(v[k].b == n2(&d, 8 * k + 4, false), "field b");
        assert!(v[k].c == n2(&d, 8 * k + 6, false), "field c");
    }
    core::mem::forget(v);
});
// padding at the end of the point
into_vec_proof!(c03_vec_equal_padded, p2, 5, {
    let d: [u8; 16] = kani::any();
    let m = msg(vec![fld("a", F32, 0), fld("b", U8, 4)], Endian::Little, 8, 1, 2, d.to_vec());
    let v: Vec<P2> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    for k in 0..2usize {
        assert!(v[k].a.to_bits() == n4(&d, 8 * k, false), "field a");
        assert!(v[k].b == d[8 * k + 4], "field b");
    }
    core::mem::forget(v);
});
// padding between fields
into_vec_proof!(c03_vec_equal_inner_padding, m2, 5, {
    let d: [u8; 8] = kani::any();
    let m = msg(vec![fld("a", U8, 0), fld("b", U16, 2)], Endian::Little, 4, 2, 1, d.to_vec());
    let v: Vec<M2> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    for k in 0..2usize {
        assert!(v[k].a == d[4 * k], "field a");
        assert!(v[k].b == n2(&d, 4 * k + 2, false), "field b");
    }
    core::mem::forget(v);
});
// the message has further fields behind the requested ones
into_vec_proof!(c03_vec_prefix, a16, 5, {
    let d: [u8; 12] = kani::any();
    let m = msg(vec![fld("a", U16, 0), fld("x", F32, 2)], Endian::Little, 6, 2, 1, d.to_vec());
    let v: Vec<A16> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    assert!(v[0].a == n2(&d, 0, false) && v[1].a == n2(&d, 6, false), "field a");
    core::mem::forget(v);
});
// any offset of the field
into_vec_proof!(c03_vec_any_offset, a32, 5, {
    let d: [u8; 12] = kani::any();
    let o: u32 = kani::any();
    kani::assume(o <= 2);
    let m = msg(vec![fld("a", U32, o)], Endian::Little, 6, 2, 1, d.to_vec());
    let v: Vec<A32> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    for k in 0..2usize {
        assert!(v[k].a == n4(&d, 6 * k + o as usize, false), "field a");
    }
    kani::cover!(o == 0, "direct copy reached");
    kani::cover!(o == 1, "fallback reached");
    core::mem::forget(v);
});
// fields in the other order
into_vec_proof!(c03_vec_swapped, b2, 5, {
    let d: [u8; 2] = kani::any();
    let m = msg(vec![fld("b", U8, 0), fld("a", U8, 1)], Endian::Little, 2, 1, 1, d.to_vec());
    let v: Vec<B2> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 1 && v[0].a == d[1] && v[0].b == d[0], "bound by name");
    core::mem::forget(v);
});
// names in order, offsets exchanged
into_vec_proof!(c03_vec_exchanged_offsets, b2, 5, {
    let d: [u8; 2] = kani::any();
    let m = msg(vec![fld("a", U8, 1), fld("b", U8, 0)], Endian::Little, 2, 1, 1, d.to_vec());
    let v: Vec<B2> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 1 && v[0].a == d[1] && v[0].b == d[0], "read at the offsets of the message");
    core::mem::forget(v);
});
// the other byte order is read point by point
into_vec_proof!(c03_vec_big_endian, a32, 5, {
    let d: [u8; 8] = kani::any();
    let m = msg(vec![fld("a", U32, 0)], Endian::Big, 4, 2, 1, d.to_vec());
    let v: Vec<A32> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2 && v[0].a == n4(&d, 0, true) && v[1].a == n4(&d, 4, true), "big endian values");
    core::mem::forget(v);
});
// another datatype than the requested one
macro_rules! other_datatype {
    ($h:ident, $code:expr) => {
        into_vec_proof!($h, a8, 5, {
            let d: [u8; 4] = kani::any();
            let m = msg(vec![fld("a", $code, 0)], Endian::Little, 4, 1, 1, d.to_vec());
            let v: Vec<A8> = must!(m.try_into_vec(), "well-formed");
            assert!(v.len() == 1 && v[0].a == d[0], "same value as the iterator reads");
            core::mem::forget(v);
        });
    };
}
other_datatype!(c03_vec_other_i8, I8);
other_datatype!(c03_vec_other_u16, U16);
other_datatype!(c03_vec_other_u32, U32);
other_datatype!(c03_vec_other_f32, F32);
// points that are further apart than the type is wide, at any distance
into_vec_proof!(c03_vec_overlap_any_step, a8, 5, {
    let data = sym_bytes(3 << 32);
    let len = data.len();
    let s: u32 = kani::any();
    kani::assume(s >= 2 && len == 3 * s as usize);
    let last = data[2 * s as usize];
    let m = msg(vec![fld("a", U8, 0)], Endian::Little, s, 3, 1, data);
    let v: Vec<A8> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 3, "all points");
    assert!(v[2].a == last, "every point at its place");
    kani::cover!(s > 1 << 31, "points behind the first 4 GiB");
    core::mem::forget(v);
});
// the same far apart: byte positions beyond 32 bits
into_vec_proof!(c03_vec_overlap_huge_step, a8, 5, {
    const S: u32 = (1 << 31) + 4;
    let data = sym_bytes(3 * S as usize);
    kani::assume(data.len() == 3 * S as usize);
    let (first, last) = (data[0], data[2 * S as usize]);
    let m = msg(vec![fld("a", U8, 0)], Endian::Little, S, 3, 1, data);
    let v: Vec<A8> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 3, "all points");
    assert!(v[0].a == first && v[2].a == last, "every point at its place");
    core::mem::forget(v);
});
// a type that is wider in memory than its layout describes is never copied from memory
#[derive(Clone, Copy, Default)]
#[repr(C, align(16))]
pub struct Wide {
    pub a: u32,
    pub b: f32,
}
impl From<RPCL2Point<2>> for Wide {
    fn from(p: RPCL2Point<2>) -> Self {
        Wide { a: p[0].get(), b: p[1].get() }
    }
}
impl From<Wide> for RPCL2Point<2> {
    fn from(p: Wide) -> Self {
        [p.a.into(), p.b.into()].into()
    }
}
unsafe impl PointConvertible<2> for Wide {
    fn layout() -> LayoutDescription {
        known_layout(&L_Q2)
    }
}
into_vec_proof!(c03_vec_undescribed_memory, q2, 5, {
    let d: [u8; 16] = kani::any();
    let m = msg(vec![fld("a", U32, 0), fld("b", F32, 4)], Endian::Little, 8, 2, 1, d.to_vec());
    let v: Vec<Wide> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 2, "all points");
    for k in 0..2usize {
        assert!(v[k].a == n4(&d, 8 * k, false) && v[k].b.to_bits() == n4(&d, 8 * k + 4, false), "every field");
    }
    core::mem::forget(v);
});
// empty clouds
into_vec_proof!(c03_vec_empty, a32, 5, {
    let (w, h): (u32, u32) = (kani::any(), kani::any());
    kani::assume(w == 0 || h == 0);
    let m = msg(vec![fld("a", U32, 0)], any_endian(), 4, w, h, Vec::new());
    let v: Vec<A32> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 0, "no points");
    core::mem::forget(v);
});

// rejection and memory safety with arbitrary geometry
fn into_vec_any(s: u32, w: u32, h: u32) {
    let d: [u8; 8] = kani::any();
    let o: u32 = kani::any();
    let m = msg(vec![fld("a", U32, o)], Endian::Little, s, w, h, d.to_vec());
    let good = w as u128 * h as u128 * s as u128 == 8 && o as u64 + 4 <= s as u64;
    match m.try_into_vec::<1, A32>() {
        Ok(v) => {
            assert!(good, "accepted only when well-formed");
            assert!(v.len() as u128 == w as u128 * h as u128, "as many points as the dimensions say");
            assert!(v[0].a == n4(&d, o as usize, false), "first point");
            kani::cover!(v.len() == 2, "two points");
            core::mem::forget(v);
        }
        Err(e) => {
            assert!(!good, "well-formed is accepted");
            assert!(matches!(e, MsgConversionError::DataLengthMismatch), "DataLengthMismatch");
            core::mem::forget(e);
        }
    }
}
into_vec_proof!(c04_vec_any_dims, a32, 5, { into_vec_any(4, kani::any(), kani::any()) });
into_vec_proof!(c04_vec_any_step_width, a32, 5, { into_vec_any(kani::any(), kani::any(), 1) });
// any offset, for every datatype code: rejected exactly when the code is unknown or the field leaves the step
macro_rules! vec_field {
    ($h:ident, $code:expr, $size:expr) => {
        into_vec_proof!($h, a16, 6, {
            let o: u32 = kani::any();
            let d: [u8; 8] = kani::any();
            let m = msg(vec![fld("a", $code, o)], any_endian(), 8, 1, 1, d.to_vec());
            let size: u64 = $size;
            let good = size > 0 && o as u64 + size <= 8;
            match m.try_into_vec::<1, A16>() {
                Ok(v) => {
                    assert!(good, "an unknown datatype or a field outside of the step is rejected");
                    assert!(v.len() == 1, "the points of the message");
                    core::mem::forget(v);
                }
                Err(e) => {
                    assert!(!good, "well-formed is accepted");
                    core::mem::forget(e);
                }
            }
        });
    };
}
vec_field!(c04_vec_field_u16, U16, 2);
vec_field!(c04_vec_field_unknown_9, 9u8, 0);
// the same for single offsets: where the direct copy would take place and at the borders
macro_rules! vec_field_at {
    ($h:ident, $code:expr, $size:expr, $step:expr, $o:expr) => {
        into_vec_proof!($h, a16, 6, {
            const GOOD: bool = $size > 0u64 && $o as u64 + $size <= $step as u64;
            let d: [u8; $step] = kani::any();
            let m = msg(vec![fld("a", $code, $o)], Endian::Little, $step, 1, 1, d.to_vec());
            match m.try_into_vec::<1, A16>() {
                Ok(v) => {
                    assert!(GOOD, "an unknown datatype or a field outside of the step is rejected");
                    assert!(v.len() == 1, "the points of the message");
                    core::mem::forget(v);
                }
                Err(e) => {
                    assert!(!GOOD, "well-formed is accepted");
                    core::mem::forget(e);
                }
            }
        });
    };
}
vec_field_at!(c04_vec_unknown_0, 0u8, 0u64, 2, 0u32);
vec_field_at!(c04_vec_unknown_9, 9u8, 0u64, 2, 0u32);
vec_field_at!(c04_vec_unknown_255, 255u8, 0u64, 2, 0u32);
vec_field_at!(c04_vec_unknown_wide_step, 9u8, 0u64, 8, 0u32);
vec_field_at!(c04_vec_same_type_last, U16, 2u64, 8, 6u32);
vec_field_at!(c04_vec_same_type_outside, U16, 2u64, 8, 7u32);
vec_field_at!(c04_vec_same_type_far_outside, U16, 2u64, 8, u32::MAX);
vec_field_at!(c04_vec_step_too_small, U16, 2u64, 1, 0u32);
vec_field_at!(c04_vec_wider_outside, F32, 4u64, 2, 0u32);
vec_field_at!(c04_vec_wider_inside, F32, 4u64, 4, 0u32);
vec_field_at!(c04_vec_narrower, U8, 1u64, 1, 0u32);
// direct copy of a cloud with any number of points and a buffer of any length
into_vec_proof!(c01_vec_copy_any_length, a16, 5, {
    let data = sym_bytes(1 << 40);
    let len = data.len();
    let k: usize = kani::any();
    kani::assume(k < (1 << 39) && 2 * k + 1 < len);
    let expect = n2(&data, 2 * k, false);
    let w: u32 = kani::any();
    let m = msg(vec![fld("a", U16, 0)], Endian::Little, 2, w, 1, data);
    match m.try_into_vec::<1, A16>() {
        Ok(v) => {
            assert!(len == 2 * w as usize, "accepted only when well-formed");
            assert!(v.len() == w as usize, "as many points as the dimensions say");
            assert!(v[k].a == expect, "every point");
            core::mem::forget(v);
        }
        Err(e) => {
            assert!(len != 2 * w as usize, "well-formed is accepted");
            core::mem::forget(e);
        }
    }
});
into_vec_proof!(c04_vec_missing_field, a8, 5, {
    let m = msg(vec![fld("b", U8, 0)], any_endian(), 1, 1, 1, vec![0u8; 1]);
    match m.try_into_vec::<1, A8>() {
        Ok(v) => {
            core::mem::forget(v);
            assert!(false, "a missing field is rejected");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::FieldsNotFound(_)), "FieldsNotFound");
            core::mem::forget(e);
        }
    }
});
// a message with less fields than requested never becomes a vector
into_vec_proof!(c04_vec_prefix_only, b2, 5, {
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, 1, 1, vec![0u8; 1]);
    match m.try_into_vec::<2, B2>() {
        Ok(v) => {
            core::mem::forget(v);
            assert!(false, "a missing field is rejected");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::FieldsNotFound(_) | MsgConversionError::ExhaustedSource), "an error about the fields");
            core::mem::forget(e);
        }
    }
});
// names are compared exactly, also for the direct copy
into_vec_proof!(c08_vec_name_case, a8, 5, {
    let m = msg(vec![fld("A", U8, 0)], any_endian(), 1, 1, 1, vec![0u8; 1]);
    match m.try_into_vec::<1, A8>() {
        Ok(v) => {
            core::mem::forget(v);
            assert!(false, "a field with another name does not stand in");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::FieldsNotFound(_)), "FieldsNotFound");
            core::mem::forget(e);
        }
    }
});
into_vec_proof!(c08_vec_name_longer, a8, 5, {
    let d: [u8; 2] = kani::any();
    let m = msg(vec![fld("ab", U8, 0), fld("a", U8, 1)], Endian::Little, 2, 1, 1, d.to_vec());
    let v: Vec<A8> = must!(m.try_into_vec(), "well-formed");
    assert!(v.len() == 1 && v[0].a == d[1], "the field with exactly this name");
    core::mem::forget(v);
});
