//! Writing messages: `try_from_iter`, `try_from_vec`.
use crate::support::*;

fn name_is(f: &PointFieldMsg, c: u8) -> bool {
    f.name.len() == 1 && f.name.as_bytes()[0] == c
}

// ---------------------------------------------------------------- C05: try_from_iter

macro_rules! write_scalar {
    ($h:ident, $t:ident, $code:expr, $n:literal, $v:ident, $rd:ident, $bits:expr) => {
        proof! {
        #[kani::unwind(9)]
        fn $h() {
            let p: [$t; 2] = [$t { a: kani::any() }, $t { a: kani::any() }];
            let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
            assert!(m.fields.len() == 1, "one field");
            assert!(name_is(&m.fields[0], b'a'), "field name");
            assert!(m.fields[0].offset == 0 && m.fields[0].count == 1, "field offset and count");
            assert!(m.fields[0].datatype == $code, "field datatype");
            assert!(m.point_step == $n && m.row_step == 2 * $n, "steps");
            assert!(m.dimensions.width == 2 && m.dimensions.height == 1, "dimensions");
            assert!(m.endian == Endian::Little, "byte order");
            assert!(m.data.len() == 2 * $n, "data length");
            assert!($rd(&m.data, 0, false) == ($bits)(p[0].a), "first point");
            assert!($rd(&m.data, $n, false) == ($bits)(p[1].a), "second point");
            core::mem::forget(m);
        }
        }
    };
}
write_scalar!(c05_write_u8, A8, U8, 1, u8, n1, |x: u8| x);
write_scalar!(c05_write_i8, AI8, I8, 1, u8, n1, |x: i8| x as u8);
write_scalar!(c05_write_u16, A16, U16, 2, u16, n2, |x: u16| x);
write_scalar!(c05_write_i16, AI16, I16, 2, u16, n2, |x: i16| x as u16);
write_scalar!(c05_write_u32, A32, U32, 4, u32, n4, |x: u32| x);
write_scalar!(c05_write_i32, AI32, I32, 4, u32, n4, |x: i32| x as u32);
write_scalar!(c05_write_f32, AF32, F32, 4, u32, n4, |x: f32| x.to_bits());
write_scalar!(c05_write_f64, AF64, F64, 8, u64, n8, |x: f64| x.to_bits());

proof! {
#[kani::unwind(9)]
fn c05_write_three_fields() {
    let p: [U3; 2] = [
        U3 { a: kani::any(), b: kani::any(), c: kani::any() },
        U3 { a: kani::any(), b: kani::any(), c: kani::any() },
    ];
    let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
    assert!(m.fields.len() == 3, "three fields");
    assert!(name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b') && name_is(&m.fields[2], b'c'), "names in order");
    assert!(m.fields[0].offset == 0 && m.fields[1].offset == 4 && m.fields[2].offset == 6, "packed offsets");
    assert!(m.fields[0].datatype == F32 && m.fields[1].datatype == U16 && m.fields[2].datatype == U16, "datatypes");
    assert!(m.fields[0].count == 1 && m.fields[1].count == 1 && m.fields[2].count == 1, "counts");
    assert!(m.point_step == 8 && m.row_step == 16, "steps");
    assert!(m.dimensions.width == 2 && m.dimensions.height == 1, "dimensions");
    assert!(m.endian == Endian::Little, "byte order");
    assert!(m.data.len() == 16, "data length");
    for k in 0..2usize {
        assert!(n4(&m.data, 8 * k, false) == p[k].a.to_bits(), "field a");
        assert!(n2(&m.data, 8 * k + 4, false) == p[k].b, "field b");
        assert!(n2(&m.data, 8 * k + 6, false) == p[k].c, "field c");
    }
    core::mem::forget(m);
}
}
// In-memory padding is not written: offsets and step are packed.
proof! {
#[kani::unwind(9)]
fn c05_write_padded_type() {
    let p = [M2 { a: kani::any(), b: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
    assert!(m.fields.len() == 2, "two fields");
    assert!(m.fields[0].offset == 0 && m.fields[1].offset == 1, "packed offsets");
    assert!(m.point_step == 3 && m.row_step == 3, "steps");
    assert!(m.dimensions.width == 1 && m.dimensions.height == 1, "dimensions");
    assert!(m.data.len() == 3 && m.data[0] == p[0].a && n2(&m.data, 1, false) == p[0].b, "data");
    core::mem::forget(m);
}
}
proof! {
#[kani::unwind(9)]
fn c05_write_empty() {
    let p: [Q2; 0] = [];
    let m = must!(PointCloud2Msg::try_from_iter(p), "an empty cloud can be written");
    assert!(m.dimensions.width == 0 && m.dimensions.height == 0, "no points");
    assert!(m.data.len() == 0 && m.row_step == 0 && m.point_step == 8, "no data");
    assert!(m.fields.len() == 2 && name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b'), "fields are described");
    core::mem::forget(m);
}
}

// ---------------------------------------------------------------- C06: try_from_vec

macro_rules! from_vec_proof {
    ($h:ident, $shape:ident, $u:literal, $b:block) => {
        proof! {
        #[kani::unwind($u)]
        #[cfg_attr(not(rpcl2_verif), kani::stub(str::to_lowercase, lowercase_stub))]
        #[cfg_attr(rpcl2_verif, kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract))]
        #[kani::stub(std::vec::Vec::resize, resize_stub)]
        fn $h() $b
        }
    };
}
from_vec_proof!(c06_vec_one_field, a32, 5, {
    let p: [A32; 2] = [A32 { a: kani::any() }, A32 { a: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
    assert!(m.fields.len() == 1 && name_is(&m.fields[0], b'a'), "field name");
    assert!(m.fields[0].offset == 0 && m.fields[0].count == 1 && m.fields[0].datatype == U32, "field");
    assert!(m.point_step == 4 && m.row_step == 8, "steps");
    assert!(m.dimensions.width == 2 && m.dimensions.height == 1, "dimensions");
    assert!(m.endian == Endian::Little, "byte order");
    assert!(m.data.len() == 8, "data length");
    assert!(n4(&m.data, 0, false) == p[0].a && n4(&m.data, 4, false) == p[1].a, "data");
    core::mem::forget(m);
});
from_vec_proof!(c06_vec_two_fields, q2, 5, {
    let p: [Q2; 2] = [Q2 { a: kani::any(), b: kani::any() }, Q2 { a: kani::any(), b: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
    assert!(m.fields.len() == 2 && name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b'), "names");
    assert!(m.fields[0].offset == 0 && m.fields[1].offset == 4, "offsets");
    assert!(m.fields[0].datatype == U32 && m.fields[1].datatype == F32, "datatypes");
    assert!(m.fields[0].count == 1 && m.fields[1].count == 1, "counts");
    assert!(m.point_step == 8 && m.row_step == 16, "steps");
    assert!(m.dimensions.width == 2 && m.dimensions.height == 1, "dimensions");
    assert!(m.data.len() == 16, "data length");
    for k in 0..2usize {
        assert!(n4(&m.data, 8 * k, false) == p[k].a, "field a");
        assert!(n4(&m.data, 8 * k + 4, false) == p[k].b.to_bits(), "field b");
    }
    core::mem::forget(m);
});
from_vec_proof!(c06_vec_inner_padding, m2, 5, {
    let p: [M2; 1] = [M2 { a: kani::any(), b: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
    assert!(m.fields.len() == 2 && name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b'), "names");
    assert!(m.fields[0].offset == 0 && m.fields[1].offset == 2, "offsets are the offsets in memory");
    assert!(m.point_step == 4 && m.row_step == 4 && m.data.len() == 4, "steps");
    assert!(m.data[0] == p[0].a && n2(&m.data, 2, false) == p[0].b, "data");
    core::mem::forget(m);
});
from_vec_proof!(c06_vec_trailing_padding, p2, 5, {
    let p: [P2; 1] = [P2 { a: kani::any(), b: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
    assert!(m.fields.len() == 2 && name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b'), "names");
    assert!(m.fields[0].offset == 0 && m.fields[1].offset == 4, "offsets are the offsets in memory");
    assert!(m.point_step == 8 && m.row_step == 8 && m.data.len() == 8, "steps");
    assert!(n4(&m.data, 0, false) == p[0].a.to_bits() && m.data[4] == p[0].b, "data");
    core::mem::forget(m);
});
// a type that is wider in memory than its layout describes: only the described fields are written
from_vec_proof!(c06_vec_undescribed_memory, q2, 9, {
    use crate::vec::Wide;
    let p: [Wide; 2] = [Wide { a: kani::any(), b: kani::any() }, Wide { a: kani::any(), b: kani::any() }];
    let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
    assert!(m.fields.len() == 2 && name_is(&m.fields[0], b'a') && name_is(&m.fields[1], b'b'), "names");
    let (oa, ob, s) = (m.fields[0].offset as usize, m.fields[1].offset as usize, m.point_step as usize);
    assert!(m.fields[0].datatype == U32 && m.fields[1].datatype == F32 && m.fields[0].count == 1 && m.fields[1].count == 1, "datatypes");
    assert!(m.dimensions.width == 2 && m.dimensions.height == 1 && m.data.len() == 2 * s && m.row_step as usize == 2 * s, "geometry");
    assert!(oa + 4 <= s && ob + 4 <= s, "fields inside of the point");
    for k in 0..2usize {
        assert!(n4(&m.data, k * s + oa, false) == p[k].a && n4(&m.data, k * s + ob, false) == p[k].b.to_bits(), "every field");
    }
    core::mem::forget(m);
});
from_vec_proof!(c06_vec_empty, a32, 5, {
    let m = must!(PointCloud2Msg::try_from_vec::<1, A32>(Vec::new()), "an empty cloud can be written");
    assert!(m.dimensions.width == 0 && m.dimensions.height == 0, "no points");
    assert!(m.data.len() == 0 && m.row_step == 0 && m.point_step == 4, "no data");
    assert!(m.fields.len() == 1 && name_is(&m.fields[0], b'a'), "fields are described");
    core::mem::forget(m);
});

// any number of points: the message holds all of them, or the sizes do not fit and that is an error
macro_rules! from_vec_any_length {
    ($h:ident, $t:ident, $shape:ident, $step:literal, |$p:ident, $d:ident, $at:ident| $same:expr) => {
        from_vec_proof!($h, $shape, 9, {
            let v: Vec<$t> = sym_vec(1 << 34);
            let len = v.len();
            let k: usize = kani::any();
            kani::assume(k < len);
            let $p = v[k];
            match PointCloud2Msg::try_from_vec(v) {
                Ok(m) => {
                    assert!(len as u64 * $step <= u32::MAX as u64, "sizes that do not fit are not truncated");
                    assert!(m.dimensions.width as usize == len && m.dimensions.height == 1, "as many points as given");
                    assert!(m.point_step == $step && m.row_step as usize == len * $step, "steps");
                    assert!(m.data.len() == len * $step, "data length");
                    assert!(m.endian == Endian::Little, "byte order");
                    let ($d, $at) = (&m.data, k * $step);
                    assert!($same, "every point");
                    kani::cover!(k > 1 << 26, "huge cloud");
                    core::mem::forget(m);
                }
                Err(e) => {
                    assert!(len as u64 * $step > u32::MAX as u64, "sizes that fit are accepted");
                    assert!(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
                    kani::cover!(true, "too large");
                    core::mem::forget(e);
                }
            }
        });
    };
}
from_vec_any_length!(c06_vec_any_length_a32, A32, a32, 4, |p, d, at| n4(d, at, false) == p.a);
from_vec_any_length!(c06_vec_any_length_q2, Q2, q2, 8, |p, d, at| n4(d, at, false) == p.a && n4(d, at + 4, false) == p.b.to_bits());
from_vec_any_length!(c06_vec_any_length_p2, P2, p2, 8, |p, d, at| n4(d, at, false) == p.a.to_bits() && d[at + 4] == p.b);
from_vec_any_length!(c06_vec_any_length_m2, M2, m2, 4, |p, d, at| d[at] == p.a && n2(d, at + 2, false) == p.b);
from_vec_any_length!(c06_vec_any_length_af64, AF64, af64, 8, |p, d, at| n8(d, at, false) == p.a.to_bits());

// ---------------------------------------------------------------- C14: sizes that do not fit

from_vec_proof!(c14_vec_too_large, a32, 5, {
    // more bytes than a u32 row step can describe; every number of points from there up to 2^40
    let len: usize = kani::any();
    kani::assume(len > (u32::MAX / 4) as usize && len <= 1 << 40);
    #[cfg(not(kani))]
    kani::assume(len < 1 << 31);
    let v: Vec<A32> = unsafe {
        let p = std::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(len * 4, 4)) as *mut A32;
        kani::assume(!p.is_null());
        Vec::from_raw_parts(p, len, len)
    };
    match PointCloud2Msg::try_from_vec(v) {
        Ok(m) => {
            core::mem::forget(m);
            assert!(false, "sizes that do not fit are not truncated");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
            core::mem::forget(e);
        }
    }
});
