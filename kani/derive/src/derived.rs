//! What the derive macro generates, for struct shapes that cover every field type, every kind of padding,
//! renamed fields and other attributes.
use crate::support::*;

/// Already packed, one field renamed, documentation and unrelated attributes around it.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C, align(4))]
pub struct Renamed {
    /// documented
    pub x: f32,
    #[allow(dead_code)]
    pub y: f32,
    #[rpcl2(rename("zz"))]
    /// renamed and documented
    #[allow(dead_code)]
    pub z: f32,
    /// documented and renamed
    #[allow(dead_code)]
    #[rpcl2(rename("i"))]
    pub intensity: f32,
}
static T_RENAMED: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("zz", "f32", 4), lf("i", "f32", 4)];

/// The first field renamed only.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct First {
    #[rpcl2(rename("b"))]
    pub a: u32,
    pub c: u32,
}
static T_FIRST: [LayoutField; 2] = [lf("b", "u32", 4), lf("c", "u32", 4)];

/// Padding in front of every wider field.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Gaps {
    pub a: u8,
    pub b: u16,
    pub c: u8,
    pub d: f64,
}
static T_GAPS: [LayoutField; 6] = [lf("a", "u8", 1), lp(1), lf("b", "u16", 2), lf("c", "u8", 1), lp(3), lf("d", "f64", 8)];

/// Padding behind the last field from the alignment of the type.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C, align(16))]
pub struct Aligned {
    pub x: f32,
    pub y: f32,
    pub z: f32,
}
static T_ALIGNED: [LayoutField; 4] = [lf("x", "f32", 4), lf("y", "f32", 4), lf("z", "f32", 4), lp(4)];

/// Padding behind the last field from the alignment of a field.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Tail {
    pub a: u32,
    pub b: u8,
}
static T_TAIL: [LayoutField; 3] = [lf("a", "u32", 4), lf("b", "u8", 1), lp(3)];

/// Every supported type.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct All {
    pub a: f64,
    pub b: f32,
    pub c: i32,
    pub d: u32,
    pub e: i16,
    pub f: u16,
    pub g: i8,
    pub h: u8,
}
static T_ALL: [LayoutField; 9] = [
    lf("a", "f64", 8), lf("b", "f32", 4), lf("c", "i32", 4), lf("d", "u32", 4), lf("e", "i16", 2), lf("f", "u16", 2), lf("g", "i8", 1), lf("h", "u8", 1), lp(6),
];

/// Fields may be reordered by the compiler.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
pub struct Unordered {
    pub a: u8,
    pub b: u32,
    pub c: u16,
}

// ---------------------------------------------------------------- C19 layout, C20 names

macro_rules! layout_of {
    ($h:ident, $t:ident, $n:literal, $tab:ident, [$($f:ident),*]) => {
        proof! {
        #[kani::unwind(12)]
        fn $h() {
            assert!(layout_is(<$t as PointConvertible<$n>>::layout(), &$tab), "names, types, sizes and padding of the struct");
            let offs = [$(core::mem::offset_of!($t, $f)),*];
            let mut at = 0usize;
            let mut k = 0usize;
            for e in $tab.iter() {
                match e {
                    LayoutField::Field { size, .. } => {
                        assert!(offs[k] == at, "declared offset is the offset in memory");
                        k += 1;
                        at += *size;
                    }
                    LayoutField::Padding { size } => at += *size,
                }
            }
            assert!(k == $n && at == core::mem::size_of::<$t>(), "the layout covers the whole type");
        }
        }
    };
}
layout_of!(c20_layout_renamed, Renamed, 4, T_RENAMED, [x, y, z, intensity]);
layout_of!(c20_layout_first_renamed, First, 2, T_FIRST, [a, c]);
layout_of!(c19_layout_gaps, Gaps, 4, T_GAPS, [a, b, c, d]);
layout_of!(c19_layout_aligned, Aligned, 3, T_ALIGNED, [x, y, z]);
layout_of!(c19_layout_tail, Tail, 2, T_TAIL, [a, b]);
layout_of!(c19_layout_all, All, 8, T_ALL, [a, b, c, d, e, f, g, h]);

// the layout of a type that does not keep its order: never taken for the memory of the type unless it is
proof! {
#[kani::unwind(12)]
fn c19_layout_unordered() {
    let l = layout_entries(<Unordered as PointConvertible<3>>::layout());
    let offs = [core::mem::offset_of!(Unordered, a), core::mem::offset_of!(Unordered, b), core::mem::offset_of!(Unordered, c)];
    let mut at = 0usize;
    let mut k = 0usize;
    let mut truthful = true;
    for e in l.iter() {
        match e {
            LayoutField::Field { size, .. } => {
                truthful = truthful && k < 3 && offs[k] == at;
                k += 1;
                at += *size;
            }
            LayoutField::Padding { size } => at += *size,
        }
    }
    assert!(k == 3, "all fields");
    assert!(truthful == (at == core::mem::size_of::<Unordered>()), "the sizes add up exactly when the order is the one in memory");
    core::mem::forget(l);
}
}

// ---------------------------------------------------------------- C19 conversions

macro_rules! conversion_of {
    ($h:ident, $t:ident, $n:literal, { $($i:literal $f:ident $ft:ty),* }) => {
        proof! {
        #[kani::unwind(10)]
        fn $h() {
            let p = $t { $($f: kani::any()),* };
            let r: RPCL2Point<$n> = p.into();
            $( {
                let v: $ft = r[$i].get();
                assert!(v.to_ne_bytes() == p.$f.to_ne_bytes(), "fields in declared order");
            } )*
            let q: $t = r.into();
            $( assert!(q.$f.to_ne_bytes() == p.$f.to_ne_bytes(), "every field survives"); )*
        }
        }
    };
}
conversion_of!(c20_convert_renamed, Renamed, 4, { 0 x f32, 1 y f32, 2 z f32, 3 intensity f32 });
conversion_of!(c19_convert_gaps, Gaps, 4, { 0 a u8, 1 b u16, 2 c u8, 3 d f64 });
conversion_of!(c19_convert_all, All, 8, { 0 a f64, 1 b f32, 2 c i32, 3 d u32, 4 e i16, 5 f u16, 6 g i8, 7 h u8 });
conversion_of!(c19_convert_unordered, Unordered, 3, { 0 a u8, 1 b u32, 2 c u16 });

// ---------------------------------------------------------------- C19 messages

/// A derived type whose `layout()` is replaced by its contract (`c19_layout_*`); the conversions are the derived ones.
macro_rules! with_layout_contract {
    ($w:ident, $t:ident, $n:literal, $tab:ident) => {
        #[derive(Clone, Copy, Default)]
        #[repr(transparent)]
        pub struct $w(pub $t);
        impl From<RPCL2Point<$n>> for $w {
            fn from(p: RPCL2Point<$n>) -> Self { $w(p.into()) }
        }
        impl From<$w> for RPCL2Point<$n> {
            fn from(p: $w) -> Self { p.0.into() }
        }
        unsafe impl PointConvertible<$n> for $w {
            fn layout() -> LayoutDescription { known_layout(&$tab) }
        }
    };
}
with_layout_contract!(WRenamed, Renamed, 4, T_RENAMED);
with_layout_contract!(WGaps, Gaps, 4, T_GAPS);
with_layout_contract!(WTail, Tail, 2, T_TAIL);
with_layout_contract!(WAll, All, 8, T_ALL);

macro_rules! roundtrip_of {
    ($h:ident, $t:ident, $w:ident, $n:literal, $u:literal, { $($f:ident),* }) => {
        proof! {
        #[kani::unwind($u)]
        fn $h() {
            let p = [$w($t { $($f: kani::any()),* })];
            let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
            let mut it = must!(ros_pointcloud2::iterator::PointCloudIterator::<$n, $w>::try_from(m), "the message can be read");
            match it.next() {
                Some(q) => { $( assert!(q.0.$f.to_ne_bytes() == p[0].0.$f.to_ne_bytes(), "every field survives the message"); )* }
                None => assert!(false, "the point is read back"),
            }
            assert!(it.next().is_none(), "no additional points");
            core::mem::forget(it);
        }
        }
    };
}
roundtrip_of!(c19_iter_gaps, Gaps, WGaps, 4, 10, { a, b, c, d });
roundtrip_of!(c19_iter_tail, Tail, WTail, 2, 10, { a, b });
roundtrip_of!(c19_iter_all, All, WAll, 8, 11, { a, b, c, d, e, f, g, h });
roundtrip_of!(c20_iter_renamed, Renamed, WRenamed, 4, 10, { x, y, z, intensity });

// the names in the message are the declared ones
proof! {
#[kani::unwind(10)]
fn c20_message_names() {
    let p = [WRenamed(Renamed { x: kani::any(), y: kani::any(), z: kani::any(), intensity: kani::any() })];
    let m = must!(PointCloud2Msg::try_from_iter(p), "points can be written");
    assert!(m.fields.len() == 4, "all fields");
    let n = |i: usize| m.fields[i].name.as_bytes();
    assert!(n(0).len() == 1 && n(0)[0] == b'x', "documented field keeps its name");
    assert!(n(1).len() == 1 && n(1)[0] == b'y', "field with other attributes keeps its name");
    assert!(n(2).len() == 2 && n(2)[0] == b'z' && n(2)[1] == b'z', "renamed field");
    assert!(n(3).len() == 1 && n(3)[0] == b'i', "renamed and documented field");
    core::mem::forget(m);
}
}

// ---------------------------------------------------------------- more names

/// New names with capitals, spaces, punctuation and letters outside of ASCII.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Odd {
    #[rpcl2(rename("Intensity"))]
    pub intensity: f32,
    #[rpcl2(rename("a b"))]
    pub a: u32,
    #[rpcl2(rename("-x_0."))]
    pub x: f32,
    #[rpcl2(rename("größe"))]
    pub size: u32,
}
static T_ODD: [LayoutField; 4] = [lf("Intensity", "f32", 4), lf("a b", "u32", 4), lf("-x_0.", "f32", 4), lf("größe", "u32", 4)];

/// The names of two fields exchanged.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Exchanged {
    #[rpcl2(rename("b"))]
    pub a: u32,
    #[doc = "x"]
    #[rpcl2(rename("a"))]
    pub b: u32,
    pub f32: u32,
}
static T_EXCHANGED: [LayoutField; 3] = [lf("b", "u32", 4), lf("a", "u32", 4), lf("f32", "u32", 4)];

layout_of!(c20_layout_odd_names, Odd, 4, T_ODD, [intensity, a, x, size]);
layout_of!(c20_layout_exchanged, Exchanged, 3, T_EXCHANGED, [a, b, f32]);
conversion_of!(c20_convert_exchanged, Exchanged, 3, { 0 a u32, 1 b u32, 2 f32 u32 });

with_layout_contract!(WExchanged, Exchanged, 3, T_EXCHANGED);
proof! {
#[kani::unwind(10)]
fn c20_iter_exchanged() {
    // a message in another order, written by somebody else
    let v: [u32; 3] = kani::any();
    let mut data = vec![0u8; 12];
    data[0..4].copy_from_slice(&v[0].to_le_bytes());
    data[4..8].copy_from_slice(&v[1].to_le_bytes());
    data[8..12].copy_from_slice(&v[2].to_le_bytes());
    let m = msg(vec![fld("f32", U32, 0), fld("a", U32, 4), fld("b", U32, 8)], Endian::Little, 12, 1, 1, data);
    let mut it = must!(ros_pointcloud2::iterator::PointCloudIterator::<3, WExchanged>::try_from(m), "the message can be read");
    match it.next() {
        Some(q) => assert!(q.0.a == v[2] && q.0.b == v[1] && q.0.f32 == v[0], "found under the new name"),
        None => assert!(false, "the point is read"),
    }
    core::mem::forget(it);
}
}
// the old name of a renamed field is not a name of the type
proof! {
#[kani::unwind(10)]
fn c20_old_name_is_unknown() {
    let m = msg(vec![fld("x", F32, 0), fld("y", F32, 4), fld("z", F32, 8), fld("i", F32, 12)], Endian::Little, 16, 0, 0, Vec::new());
    match ros_pointcloud2::iterator::PointCloudIterator::<4, WRenamed>::try_from(m) {
        Ok(it) => {
            core::mem::forget(it);
            assert!(false, "the renamed field is missing");
        }
        Err(MsgConversionError::FieldsNotFound(names)) => {
            assert!(names.len() == 1 && names[0].len() == 2 && names[0].as_bytes()[0] == b'z' && names[0].as_bytes()[1] == b'z', "the new name is missing");
            core::mem::forget(names);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(false, "the field is missing");
        }
    }
}
}

// ---------------------------------------------------------------- more memory layouts

/// No padding although the fields need it.
#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, packed)]
pub struct Packed {
    pub a: u8,
    pub b: f64,
    pub c: u16,
}
static T_PACKED: [LayoutField; 3] = [lf("a", "u8", 1), lf("b", "f64", 8), lf("c", "u16", 2)];

/// Padding between the fields and much behind them.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C, align(32))]
pub struct Over {
    pub a: f64,
    pub b: i16,
    pub c: i32,
}
static T_OVER: [LayoutField; 5] = [lf("a", "f64", 8), lf("b", "i16", 2), lp(2), lf("c", "i32", 4), lp(16)];

/// One field.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Single {
    pub a: i8,
}
static T_SINGLE: [LayoutField; 1] = [lf("a", "i8", 1)];

/// Not public, private fields, fields in falling and rising size.
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
struct Hidden {
    a: u16,
    pub(crate) b: u8,
    c: u32,
    d: i8,
    e: i16,
}
static T_HIDDEN: [LayoutField; 7] = [lf("a", "u16", 2), lf("b", "u8", 1), lp(1), lf("c", "u32", 4), lf("d", "i8", 1), lp(1), lf("e", "i16", 2)];

layout_of!(c19_layout_packed, Packed, 3, T_PACKED, [a, b, c]);
layout_of!(c19_layout_over_aligned, Over, 3, T_OVER, [a, b, c]);
layout_of!(c19_layout_single, Single, 1, T_SINGLE, [a]);
layout_of!(c19_layout_hidden, Hidden, 5, T_HIDDEN, [a, b, c, d, e]);
conversion_of!(c19_convert_over_aligned, Over, 3, { 0 a f64, 1 b i16, 2 c i32 });
conversion_of!(c19_convert_hidden, Hidden, 5, { 0 a u16, 1 b u8, 2 c u32, 3 d i8, 4 e i16 });
proof! {
#[kani::unwind(10)]
fn c19_convert_packed() {
    let p = Packed { a: kani::any(), b: kani::any(), c: kani::any() };
    let r: RPCL2Point<3> = p.into();
    let (a, b, c) = (p.a, p.b, p.c);
    let (ra, rb, rc): (u8, f64, u16) = (r[0].get(), r[1].get(), r[2].get());
    assert!(ra == a && rb.to_bits() == b.to_bits() && rc == c, "fields in declared order");
    let q: Packed = r.into();
    let (qa, qb, qc) = (q.a, q.b, q.c);
    assert!(qa == a && qb.to_bits() == b.to_bits() && qc == c, "every field survives");
}
}

// ---------------------------------------------------------------- C19 vectors

/// The shapes whose layout translation has a contract (`p2`, `m2`, `q2` in /repo/rpcl2/src/verif.rs).
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct VTail {
    pub a: f32,
    pub b: u8,
}
static T_VTAIL: [LayoutField; 3] = [lf("a", "f32", 4), lf("b", "u8", 1), lp(3)];
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct VGap {
    pub a: u8,
    pub b: u16,
}
static T_VGAP: [LayoutField; 3] = [lf("a", "u8", 1), lp(1), lf("b", "u16", 2)];
#[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
#[repr(C)]
pub struct VTwo {
    pub a: u32,
    #[rpcl2(rename("zz"))]
    pub b: f32,
}
static T_VTWO: [LayoutField; 2] = [lf("a", "u32", 4), lf("zz", "f32", 4)];
layout_of!(c19_layout_vtail, VTail, 2, T_VTAIL, [a, b]);
layout_of!(c19_layout_vgap, VGap, 2, T_VGAP, [a, b]);
layout_of!(c20_layout_vtwo, VTwo, 2, T_VTWO, [a, b]);
with_layout_contract!(WVTail, VTail, 2, T_VTAIL);
with_layout_contract!(WVGap, VGap, 2, T_VGAP);
with_layout_contract!(WVTwo, VTwo, 2, T_VTWO);

/// Where the fields are in a message made from a vector, and that they come back.
macro_rules! vec_of {
    ($h:ident, $shape:ident, $t:ident, $w:ident, $n:literal, $u:literal, { $($i:literal $f:ident),* }) => {
        proof! {
        #[kani::unwind($u)]
        #[cfg_attr(not(rpcl2_verif), kani::stub(str::to_lowercase, lowercase_stub))]
        #[cfg_attr(rpcl2_verif, kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::$shape::contract))]
        #[kani::stub(std::vec::Vec::resize, resize_stub)]
        fn $h() {
            let p = $t { $($f: kani::any()),* };
            let m = must!(PointCloud2Msg::try_from_vec(vec![$w(p)]), "points can be written");
            assert!(m.fields.len() == $n && m.data.len() == m.point_step as usize && m.dimensions.width == 1 && m.dimensions.height == 1, "one point");
            $( {
                let o = m.fields[$i].offset as usize;
                let v = p.$f;
                let b = v.to_le_bytes();
                for k in 0..b.len() {
                    assert!(m.data[o + k] == b[k], "the field at its declared place");
                }
            } )*
            let v: Vec<$w> = must!(m.try_into_vec(), "and read back");
            assert!(v.len() == 1, "one point");
            let q = v[0].0;
            $( {
                let (x, y) = (p.$f, q.$f);
                assert!(x.to_ne_bytes() == y.to_ne_bytes(), "every field survives the message");
            } )*
            core::mem::forget(v);
        }
        }
    };
}
vec_of!(c19_vec_tail, p2, VTail, WVTail, 2, 10, { 0 a, 1 b });
vec_of!(c19_vec_gap, m2, VGap, WVGap, 2, 10, { 0 a, 1 b });
vec_of!(c20_vec_renamed, q2, VTwo, WVTwo, 2, 10, { 0 a, 1 b });
