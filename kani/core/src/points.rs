//! Predefined point types: declared layout, field order, and bit-exact round trips.
use crate::support::*;

pub static T_XYZ: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lp(4)];
pub static T_XYZI: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("intensity", "f32", 4)];
pub static T_XYZL: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("label", "u32", 4)];
pub static T_XYZRGB: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("rgb", "RGB", 4)];
pub static T_XYZRGBA: [LayoutField; 6] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("rgb", "RGB", 4), lf("a", "u8", 1), lp(15)];
pub static T_XYZRGBL: [LayoutField; 6] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("rgb", "RGB", 4), lf("label", "u32", 4), lp(12)];
pub static T_XYZRGBNORMAL: [LayoutField; 8] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("rgb", "RGB", 4), lf("normal_x", "f32", 4), lf("normal_y", "f32", 4), lf("normal_z", "f32", 4), lp(4)];
pub static T_XYZINORMAL: [LayoutField; 8] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("intensity", "f32", 4), lf("normal_x", "f32", 4), lf("normal_y", "f32", 4), lf("normal_z", "f32", 4), lp(4)];
pub static T_XYZNORMAL: [LayoutField; 7] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lf("normal_x", "f32", 4), lf("normal_y", "f32", 4), lf("normal_z", "f32", 4), lp(8)];


// ------------------------------------------------------------ C15: the declared layout is the real one

/// The entries of `layout()` are exactly the table, and the table is exactly the memory of the type:
/// the k-th field starts where the struct field starts and the entries end with the type.
macro_rules! layout_proof {
    ($h:ident, $t:ident, $n:literal, $tab:ident, [$($f:ident),*]) => {
        proof! {
        #[kani::unwind(12)]
        fn $h() {
            assert!(layout_is(<$t as PointConvertible<$n>>::layout(), &$tab), "declared names, types, sizes and padding");
            let offs = [$(core::mem::offset_of!($t, $f)),*];
            let mut at = 0usize;
            let mut k = 0usize;
            for e in $tab.iter() {
                match e {
                    LayoutField::Field { size, .. } => {
                        assert!(offs[k] == at, "declared offset is the offset in memory");
                        k += 1;
                        at += *size;
                    }
                    LayoutField::Padding { size } => at += *size,
                }
            }
            assert!(k == $n, "as many fields as the type converts");
            assert!(at == core::mem::size_of::<$t>(), "the layout covers the whole type");
        }
        }
    };
}
layout_proof!(c15_layout_xyz, PointXYZ, 3, T_XYZ, [x, y, z]);
layout_proof!(c15_layout_xyzi, PointXYZI, 4, T_XYZI, [x, y, z, intensity]);
layout_proof!(c15_layout_xyzl, PointXYZL, 4, T_XYZL, [x, y, z, label]);
layout_proof!(c15_layout_xyzrgb, PointXYZRGB, 4, T_XYZRGB, [x, y, z, rgb]);
layout_proof!(c15_layout_xyzrgba, PointXYZRGBA, 5, T_XYZRGBA, [x, y, z, rgb, a]);
layout_proof!(c15_layout_xyzrgbl, PointXYZRGBL, 5, T_XYZRGBL, [x, y, z, rgb, label]);
layout_proof!(c15_layout_xyzrgbnormal, PointXYZRGBNormal, 7, T_XYZRGBNORMAL, [x, y, z, rgb, normal_x, normal_y, normal_z]);
layout_proof!(c15_layout_xyzinormal, PointXYZINormal, 7, T_XYZINORMAL, [x, y, z, intensity, normal_x, normal_y, normal_z]);
layout_proof!(c15_layout_xyznormal, PointXYZNormal, 6, T_XYZNORMAL, [x, y, z, normal_x, normal_y, normal_z]);

// ------------------------------------------------------------ C07: values survive

macro_rules! bits {
    ($p:expr, $f:ident f32) => { $p.$f.to_bits() };
    ($p:expr, $f:ident rgb) => { $p.$f.raw().to_bits() };
    ($p:expr, $f:ident u8) => { $p.$f };
    ($p:expr, $f:ident u32) => { $p.$f };
}
macro_rules! any_of {
    (f32) => { f32::from_bits(kani::any()) };
    (rgb) => { RGB::new_from_packed(kani::any()) };
    (u8) => { kani::any() };
    (u32) => { kani::any() };
}
/// Conversion to and from the field representation is the identity for every value of every field, and the
/// k-th entry of the representation is the k-th declared field.
macro_rules! convert_proof {
    ($h:ident, $t:ident, $n:literal, { $($i:literal $f:ident $k:ident $ft:ident),* }) => {
        proof! {
        #[kani::unwind(10)]
        fn $h() {
            let p = $t { $($f: any_of!($k)),* };
            let q: $t = { let r: RPCL2Point<$n> = p.into(); r.into() };
            $( assert!(bits!(q, $f $k) == bits!(p, $f $k), "field survives the conversion bit by bit"); )*
            let r: RPCL2Point<$n> = p.into();
            $( {
                let v: $ft = r[$i].get();
                assert!(v.to_le_bytes() == bits!(p, $f $k).to_le_bytes(), "fields are converted in declared order");
            } )*
        }
        }
    };
}
convert_proof!(c07_convert_xyz, PointXYZ, 3, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32 });
convert_proof!(c07_convert_xyzi, PointXYZI, 4, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 intensity f32 f32 });
convert_proof!(c07_convert_xyzl, PointXYZL, 4, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 label u32 u32 });
convert_proof!(c07_convert_xyzrgb, PointXYZRGB, 4, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 rgb rgb f32 });
convert_proof!(c07_convert_xyzrgba, PointXYZRGBA, 5, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 rgb rgb f32, 4 a u8 u8 });
convert_proof!(c07_convert_xyzrgbl, PointXYZRGBL, 5, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 rgb rgb f32, 4 label u32 u32 });
convert_proof!(c07_convert_xyzrgbnormal, PointXYZRGBNormal, 7, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 rgb rgb f32, 4 normal_x f32 f32, 5 normal_y f32 f32, 6 normal_z f32 f32 });
convert_proof!(c07_convert_xyzinormal, PointXYZINormal, 7, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 intensity f32 f32, 4 normal_x f32 f32, 5 normal_y f32 f32, 6 normal_z f32 f32 });
convert_proof!(c07_convert_xyznormal, PointXYZNormal, 6, { 0 x f32 f32, 1 y f32 f32, 2 z f32 f32, 3 normal_x f32 f32, 4 normal_y f32 f32, 5 normal_z f32 f32 });

/// A predefined type whose `layout()` is replaced by its contract (the table proved by `c15_layout_*`); the
/// conversions are the real ones.
macro_rules! with_layout_contract {
    ($w:ident, $t:ident, $n:literal, $tab:ident) => {
        #[derive(Clone, Copy, Default)]
        #[repr(transparent)]
        pub struct $w(pub $t);
        impl From<RPCL2Point<$n>> for $w {
            fn from(p: RPCL2Point<$n>) -> Self { $w(p.into()) }
        }
        impl From<$w> for RPCL2Point<$n> {
            fn from(p: $w) -> Self { p.0.into() }
        }
        unsafe impl PointConvertible<$n> for $w {
            fn layout() -> LayoutDescription { known_layout(&$tab) }
        }
    };
}
with_layout_contract!(WXyz, PointXYZ, 3, T_XYZ);
with_layout_contract!(WXyzi, PointXYZI, 4, T_XYZI);
with_layout_contract!(WXyzl, PointXYZL, 4, T_XYZL);
with_layout_contract!(WXyzrgb, PointXYZRGB, 4, T_XYZRGB);
with_layout_contract!(WXyzrgba, PointXYZRGBA, 5, T_XYZRGBA);
with_layout_contract!(WXyzrgbl, PointXYZRGBL, 5, T_XYZRGBL);
with_layout_contract!(WXyzrgbnormal, PointXYZRGBNormal, 7, T_XYZRGBNORMAL);
with_layout_contract!(WXyzinormal, PointXYZINormal, 7, T_XYZINORMAL);
with_layout_contract!(WXyznormal, PointXYZNormal, 6, T_XYZNORMAL);

/// Through a message: written point by point and read back by the iterator; `layout()` enters through its
/// contract (`c15_layout_*`).
macro_rules! roundtrip_iter {
    ($h:ident, $t:ident, $n:literal, $w:ident, $u:literal, { $($f:ident $k:ident),* }) => {
        proof! {
        #[kani::unwind($u)]
        fn $h() {
            let p = [$w($t { $($f: any_of!($k)),* }), $w($t { $($f: any_of!($k)),* })];
            let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
            let mut it = must!(ros_pointcloud2::iterator::PointCloudIterator::<$n, $w>::try_from(m), "the message can be read");
            for k in 0..2usize {
                match it.next() {
                    Some(q) => { $( assert!(bits!(q.0, $f $k) == bits!(p[k].0, $f $k), "field survives the round trip"); )* }
                    None => assert!(false, "every point is read back"),
                }
            }
            assert!(it.next().is_none(), "no additional points");
            core::mem::forget(it);
        }
        }
    };
}
roundtrip_iter!(c07_iter_xyz, PointXYZ, 3, WXyz, 11, { x f32, y f32, z f32 });
roundtrip_iter!(c07_iter_xyzi, PointXYZI, 4, WXyzi, 11, { x f32, y f32, z f32, intensity f32 });
roundtrip_iter!(c07_iter_xyzl, PointXYZL, 4, WXyzl, 11, { x f32, y f32, z f32, label u32 });
roundtrip_iter!(c07_iter_xyzrgb, PointXYZRGB, 4, WXyzrgb, 11, { x f32, y f32, z f32, rgb rgb });
roundtrip_iter!(c07_iter_xyzrgba, PointXYZRGBA, 5, WXyzrgba, 11, { x f32, y f32, z f32, rgb rgb, a u8 });
roundtrip_iter!(c07_iter_xyzrgbl, PointXYZRGBL, 5, WXyzrgbl, 11, { x f32, y f32, z f32, rgb rgb, label u32 });
roundtrip_iter!(c07_iter_xyznormal, PointXYZNormal, 6, WXyznormal, 11, { x f32, y f32, z f32, normal_x f32, normal_y f32, normal_z f32 });
roundtrip_iter!(c07_iter_xyzinormal, PointXYZINormal, 7, WXyzinormal, 11, { x f32, y f32, z f32, intensity f32, normal_x f32, normal_y f32, normal_z f32 });
roundtrip_iter!(c07_iter_xyzrgbnormal, PointXYZRGBNormal, 7, WXyzrgbnormal, 11, { x f32, y f32, z f32, rgb rgb, normal_x f32, normal_y f32, normal_z f32 });

/// Through a message: written and read as a Vec (direct copies); `layout()` and its translation enter through
/// their contracts (`c15_layout_*`, `k_known_*`).
#[cfg(any(not(kani), rpcl2_verif))]
macro_rules! roundtrip_vec {
    ($h:ident, $t:ident, $n:literal, $w:ident, $shape:ident, $u:literal, { $($f:ident $k:ident),* }) => {
        proof! {
        #[kani::unwind($u)]
        #[kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract)]
        #[kani::stub(std::vec::Vec::resize, resize_stub)]
        fn $h() {
            let p = [$w($t { $($f: any_of!($k)),* }), $w($t { $($f: any_of!($k)),* })];
            let m = must!(PointCloud2Msg::try_from_vec(p.to_vec()), "points can be written");
            let v: Vec<$w> = must!(m.try_into_vec(), "the message can be read");
            assert!(v.len() == 2, "every point is read back");
            for k in 0..2usize {
                $( assert!(bits!(v[k].0, $f $k) == bits!(p[k].0, $f $k), "field survives the round trip"); )*
            }
            core::mem::forget(v);
        }
        }
    };
}
#[cfg(any(not(kani), rpcl2_verif))]
mod hooked {
    use super::*;
    roundtrip_vec!(c07_vec_xyz, PointXYZ, 3, WXyz, xyz, 11, { x f32, y f32, z f32 });
    roundtrip_vec!(c07_vec_xyzi, PointXYZI, 4, WXyzi, xyzi, 11, { x f32, y f32, z f32, intensity f32 });
    roundtrip_vec!(c07_vec_xyzrgba, PointXYZRGBA, 5, WXyzrgba, xyzrgba, 11, { x f32, y f32, z f32, rgb rgb, a u8 });
    roundtrip_vec!(c07_vec_xyzrgbnormal, PointXYZRGBNormal, 7, WXyzrgbnormal, xyzinormal, 11, { x f32, y f32, z f32, rgb rgb, normal_x f32, normal_y f32, normal_z f32 });
    roundtrip_vec!(c07_vec_xyzl, PointXYZL, 4, WXyzl, xyzl, 11, { x f32, y f32, z f32, label u32 });
    roundtrip_vec!(c07_vec_xyzrgb, PointXYZRGB, 4, WXyzrgb, xyzi, 11, { x f32, y f32, z f32, rgb rgb });
    roundtrip_vec!(c07_vec_xyzrgbl, PointXYZRGBL, 5, WXyzrgbl, xyzrgbl, 11, { x f32, y f32, z f32, rgb rgb, label u32 });
    roundtrip_vec!(c07_vec_xyznormal, PointXYZNormal, 6, WXyznormal, xyznormal, 11, { x f32, y f32, z f32, normal_x f32, normal_y f32, normal_z f32 });
    roundtrip_vec!(c07_vec_xyzinormal, PointXYZINormal, 7, WXyzinormal, xyzinormal, 11, { x f32, y f32, z f32, intensity f32, normal_x f32, normal_y f32, normal_z f32 });
}

// The same for any number of points, as the two halves of the round trip: what `try_from_vec` puts into the
// buffer for the point `i`, and what `try_into_vec` makes of the bytes of the point `i`.
#[cfg(any(not(kani), rpcl2_verif))]
macro_rules! vec_any_length {
    ($w_h:ident, $r_h:ident, $t:ident, $n:literal, $w:ident, $shape:ident, $size:literal, { $($f:ident $k:ident $name:literal $off:literal $code:ident $rd:ident),* }) => {
        proof! {
        #[kani::unwind(17)]
        #[kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract)]
        #[kani::stub(std::vec::Vec::resize, resize_stub)]
        fn $w_h() {
            let v: Vec<$w> = sym_vec(u32::MAX as usize / $size);
            let len = v.len();
            let i: usize = kani::any();
            kani::assume(i < len);
            let p = v[i];
            let m = must!(PointCloud2Msg::try_from_vec(v), "points can be written");
            assert!(m.dimensions.width as usize == len && m.dimensions.height == 1 && m.point_step == $size && m.row_step as usize == len * $size && m.data.len() == len * $size, "geometry");
            assert!(m.endian == Endian::Little && m.fields.len() == $n, "description");
            let mut f = 0usize;
            $(
                assert!(m.fields[f].offset == $off && m.fields[f].datatype == $code && m.fields[f].count == 1, "field description");
                assert!(m.fields[f].name.len() == $name.len() && m.fields[f].name.as_bytes()[0] == $name[0] && m.fields[f].name.as_bytes()[$name.len() - 1] == $name[$name.len() - 1], "field name");
                assert!($rd(&m.data, i * $size + $off, false) == bits!(p.0, $f $k), "field of every point is in the buffer");
                f += 1;
            )*
            assert!(f == $n, "all fields");
            core::mem::forget(m);
        }
        }
        proof! {
        #[kani::unwind(17)]
        #[kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract)]
        fn $r_h() {
            let data = sym_bytes($size << 32);
            let len = data.len();
            let w: u32 = kani::any();
            kani::assume(len == $size * w as usize);
            let i: usize = kani::any();
            kani::assume(i < w as usize);
            let expect = ($($rd(&data, i * $size + $off, false)),*);
            let m = msg(vec![$(fld(unsafe { core::str::from_utf8_unchecked($name) }, $code, $off)),*], Endian::Little, $size, w, 1, data);
            let v: Vec<$w> = must!(m.try_into_vec(), "the message can be read");
            assert!(v.len() == w as usize, "every point is read");
            let q = v[i].0;
            assert!(($(bits!(q, $f $k)),*) == expect, "every field of every point has the value in the buffer");
            core::mem::forget(v);
        }
        }
    };
}
#[cfg(any(not(kani), rpcl2_verif))]
mod any_length {
    use super::*;
    vec_any_length!(c07_write_any_xyz, c07_read_any_xyz, PointXYZ, 3, WXyz, xyz, 16, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4 });
    vec_any_length!(c07_write_any_xyzi, c07_read_any_xyzi, PointXYZI, 4, WXyzi, xyzi, 16, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, intensity f32 b"intensity" 12 F32 n4 });
    vec_any_length!(c07_write_any_xyzl, c07_read_any_xyzl, PointXYZL, 4, WXyzl, xyzl, 16, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, label u32 b"label" 12 U32 n4 });
    vec_any_length!(c07_write_any_xyzrgb, c07_read_any_xyzrgb, PointXYZRGB, 4, WXyzrgb, xyzi, 16, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, rgb rgb b"rgb" 12 F32 n4 });
    vec_any_length!(c07_write_any_xyzrgba, c07_read_any_xyzrgba, PointXYZRGBA, 5, WXyzrgba, xyzrgba, 32, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, rgb rgb b"rgb" 12 F32 n4, a u8 b"a" 16 U8 n1 });
    vec_any_length!(c07_write_any_xyzrgbl, c07_read_any_xyzrgbl, PointXYZRGBL, 5, WXyzrgbl, xyzrgbl, 32, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, rgb rgb b"rgb" 12 F32 n4, label u32 b"label" 16 U32 n4 });
    vec_any_length!(c07_write_any_xyznormal, c07_read_any_xyznormal, PointXYZNormal, 6, WXyznormal, xyznormal, 32, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, normal_x f32 b"normal_x" 12 F32 n4, normal_y f32 b"normal_y" 16 F32 n4, normal_z f32 b"normal_z" 20 F32 n4 });
    vec_any_length!(c07_write_any_xyzinormal, c07_read_any_xyzinormal, PointXYZINormal, 7, WXyzinormal, xyzinormal, 32, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, intensity f32 b"intensity" 12 F32 n4, normal_x f32 b"normal_x" 16 F32 n4, normal_y f32 b"normal_y" 20 F32 n4, normal_z f32 b"normal_z" 24 F32 n4 });
    vec_any_length!(c07_write_any_xyzrgbnormal, c07_read_any_xyzrgbnormal, PointXYZRGBNormal, 7, WXyzrgbnormal, xyzinormal, 32, { x f32 b"x" 0 F32 n4, y f32 b"y" 4 F32 n4, z f32 b"z" 8 F32 n4, rgb rgb b"rgb" 12 F32 n4, normal_x f32 b"normal_x" 16 F32 n4, normal_y f32 b"normal_y" 20 F32 n4, normal_z f32 b"normal_z" 24 F32 n4 });
}

// A declared layout is the list of its entries; the tables used by the harness types are such lists.
proof! {
#[kani::unwind(8)]
fn c15_layout_new() {
    let (m, n) = (kani::any::<usize>(), kani::any::<usize>());
    let l = LayoutDescription::new(&[LayoutField::new("a", "u8", 1), LayoutField::padding(1), LayoutField::new("b", "u16", 2)]);
    assert!(layout_is(l, &L_M2), "entries in order");
    assert!(layout_is(known_layout(&L_M2), &L_M2), "the harness tables are layout descriptions");
    let e = layout_entries(LayoutDescription::new(&[LayoutField::new("key", "f64", n), LayoutField::padding(m)]));
    assert!(e.len() == 2, "as many entries");
    assert!(matches!(&e[0], LayoutField::Field { name, ty, size } if **name == *"key" && **ty == *"f64" && *size == n), "field entry");
    assert!(matches!(&e[1], LayoutField::Padding { size } if *size == m), "padding entry");
    core::mem::forget(e);
    core::mem::forget(layout_entries(LayoutDescription::new(&[])));
}
}
