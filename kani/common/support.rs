// Shared harness support: small point types with exactly known layouts, message constructors and the
// specification functions the postconditions are written against.
//
// The only thing below that touches a private detail of the crate is `known_layout`: it builds the
// `LayoutDescription` of a harness type from a static table (a newtype over `Vec<LayoutField>`), because
// CBMC keeps constants of a memcpy'd static but not of enum values moved through locals.  That this is the
// same value `LayoutDescription::new` builds is itself an obligation (`points::c15_layout_new`).
#![allow(dead_code, unused_macros, unused_imports)]

#[cfg(not(kani))]
pub(crate) use crate::kani;
pub use ros_pointcloud2::prelude::*;
pub use ros_pointcloud2::*;
pub use ros_pointcloud2::ros::{HeaderMsg, TimeMsg};
pub use std::borrow::Cow;

pub type Msg = PointCloud2Msg;

pub const fn lf(name: &'static str, ty: &'static str, size: usize) -> LayoutField {
    LayoutField::Field {
        name: Cow::Borrowed(name),
        ty: Cow::Borrowed(ty),
        size,
    }
}
pub const fn lp(size: usize) -> LayoutField {
    LayoutField::Padding { size }
}

pub fn known_layout(table: &'static [LayoutField]) -> LayoutDescription {
    unsafe {
        let n = table.len();
        let mut v: Vec<LayoutField> = Vec::with_capacity(n);
        core::ptr::copy_nonoverlapping(
            table.as_ptr() as *const u8,
            v.as_mut_ptr() as *mut u8,
            n * core::mem::size_of::<LayoutField>(),
        );
        v.set_len(n);
        core::mem::transmute::<Vec<LayoutField>, LayoutDescription>(v)
    }
}

/// The entries of a layout description, for comparison with a table.
pub fn layout_entries(l: LayoutDescription) -> Vec<LayoutField> {
    unsafe { core::mem::transmute::<LayoutDescription, Vec<LayoutField>>(l) }
}

pub fn same_entry(a: &LayoutField, b: &LayoutField) -> bool {
    match (a, b) {
        (
            LayoutField::Field { name, ty, size },
            LayoutField::Field {
                name: n2,
                ty: t2,
                size: s2,
            },
        ) => **name == **n2 && **ty == **t2 && *size == *s2,
        (LayoutField::Padding { size }, LayoutField::Padding { size: s2 }) => *size == *s2,
        _ => false,
    }
}

/// Contract of a layout declared for a type: it is exactly `table`.
pub fn layout_is(l: LayoutDescription, table: &[LayoutField]) -> bool {
    let e = layout_entries(l);
    let mut ok = e.len() == table.len();
    if ok {
        for i in 0..table.len() {
            ok = ok && same_entry(&e[i], &table[i]);
        }
    }
    core::mem::forget(e);
    ok
}

/// A harness point type: plain scalar fields `name: type` and a static layout table.
macro_rules! point_type {
    ($t:ident / $n:literal { $($f:ident : $ft:ty),* } [ $($i:literal $g:ident),* ] $tab:ident = [ $($e:expr),* $(,)? ] ; $len:literal) => {
        #[derive(Clone, Copy, Default)]
        #[repr(C)]
        pub struct $t { $(pub $f: $ft),* }
        impl From<RPCL2Point<$n>> for $t {
            fn from(p: RPCL2Point<$n>) -> Self { $t { $($g: p[$i].get()),* } }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self { [ $(p.$g.into()),* ].into() }
        }
        pub static $tab: [LayoutField; $len] = [ $($e),* ];
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription { known_layout(&$tab) }
        }
    };
}

point_type!(A8  / 1 { a: u8 }  [0 a] L_A8  = [lf("a", "u8", 1)]; 1);
point_type!(AI8 / 1 { a: i8 }  [0 a] L_AI8 = [lf("a", "i8", 1)]; 1);
point_type!(A16 / 1 { a: u16 } [0 a] L_A16 = [lf("a", "u16", 2)]; 1);
point_type!(AI16/ 1 { a: i16 } [0 a] L_AI16 = [lf("a", "i16", 2)]; 1);
point_type!(A32 / 1 { a: u32 } [0 a] L_A32 = [lf("a", "u32", 4)]; 1);
point_type!(AI32/ 1 { a: i32 } [0 a] L_AI32 = [lf("a", "i32", 4)]; 1);
point_type!(AF32/ 1 { a: f32 } [0 a] L_AF32 = [lf("a", "f32", 4)]; 1);
point_type!(AF64/ 1 { a: f64 } [0 a] L_AF64 = [lf("a", "f64", 8)]; 1);
// trailing padding
point_type!(P2 / 2 { a: f32, b: u8 } [0 a, 1 b] L_P2 = [lf("a", "f32", 4), lf("b", "u8", 1), lp(3)]; 3);
// padding in the middle
point_type!(M2 / 2 { a: u8, b: u16 } [0 a, 1 b] L_M2 = [lf("a", "u8", 1), lp(1), lf("b", "u16", 2)]; 3);
// no padding
point_type!(Q2 / 2 { a: u32, b: f32 } [0 a, 1 b] L_Q2 = [lf("a", "u32", 4), lf("b", "f32", 4)]; 2);
point_type!(B2 / 2 { a: u8, b: u8 } [0 a, 1 b] L_B2 = [lf("a", "u8", 1), lf("b", "u8", 1)]; 2);
point_type!(U3 / 3 { a: f32, b: u16, c: u16 } [0 a, 1 b, 2 c] L_U3 = [lf("a", "f32", 4), lf("b", "u16", 2), lf("c", "u16", 2)]; 3);

pub const I8: u8 = 1;
pub const U8: u8 = 2;
pub const I16: u8 = 3;
pub const U16: u8 = 4;
pub const I32: u8 = 5;
pub const U32: u8 = 6;
pub const F32: u8 = 7;
pub const F64: u8 = 8;

pub fn fld(name: &str, datatype: u8, offset: u32) -> PointFieldMsg {
    PointFieldMsg {
        name: name.into(),
        offset,
        datatype,
        count: 1,
    }
}

pub fn any_endian() -> Endian {
    if kani::any() {
        Endian::Big
    } else {
        Endian::Little
    }
}

pub fn msg(
    fields: Vec<PointFieldMsg>,
    endian: Endian,
    step: u32,
    width: u32,
    height: u32,
    data: Vec<u8>,
) -> Msg {
    PointCloud2Msg {
        header: HeaderMsg {
            seq: 0,
            stamp: TimeMsg { sec: 0, nanosec: 0 },
            frame_id: String::new(),
        },
        dimensions: CloudDimensions { width, height },
        fields,
        endian,
        point_step: step,
        row_step: kani::any(),
        data,
        dense: if kani::any() {
            Denseness::Dense
        } else {
            Denseness::Sparse
        },
    }
}

/// Spec: the little/big endian number of `n` bytes at `off`.
pub fn spec_num(d: &[u8], off: usize, n: usize, big: bool) -> u64 {
    let mut r: u64 = 0;
    let mut i = 0;
    while i < n {
        let b = if big { d[off + n - 1 - i] } else { d[off + i] };
        r |= (b as u64) << (8 * i);
        i += 1;
    }
    r
}
pub fn n1(d: &[u8], off: usize, _big: bool) -> u8 {
    d[off]
}
pub fn n2(d: &[u8], off: usize, big: bool) -> u16 {
    let b = [d[off], d[off + 1]];
    if big {
        u16::from_be_bytes(b)
    } else {
        u16::from_le_bytes(b)
    }
}
pub fn n4(d: &[u8], off: usize, big: bool) -> u32 {
    let b = [d[off], d[off + 1], d[off + 2], d[off + 3]];
    if big {
        u32::from_be_bytes(b)
    } else {
        u32::from_le_bytes(b)
    }
}
pub fn n8(d: &[u8], off: usize, big: bool) -> u64 {
    let b = [
        d[off],
        d[off + 1],
        d[off + 2],
        d[off + 3],
        d[off + 4],
        d[off + 5],
        d[off + 6],
        d[off + 7],
    ];
    if big {
        u64::from_be_bytes(b)
    } else {
        u64::from_le_bytes(b)
    }
}

pub fn datatype_size(code: u8) -> Option<u32> {
    match code {
        1 | 2 => Some(1),
        3 | 4 => Some(2),
        5 | 6 | 7 => Some(4),
        8 => Some(8),
        _ => None,
    }
}

/// One obligation: a Kani proof; without the verifier, the same body on concrete inputs (see native.rs).
macro_rules! proof {
    ($(#[$m:meta])* fn $h:ident() $b:block) => {
        #[cfg(kani)]
        #[kani::proof]
        $(#[$m])*
        fn $h() {
            fn body() $b
            body();
            kani::cover!(true, "the harness completes");
        }
        #[cfg(not(kani))]
        #[test]
        fn $h() {
            fn body() $b
            crate::kani::explore(stringify!($h), body)
        }
    };
}

// ---- assumed contracts on std (trusted; listed in the evidence) -------------------------------------

/// `str::to_lowercase` on the strings that reach it here: the harness tables are lower case ASCII already.
pub fn lowercase_stub(s: &str) -> String {
    s.into()
}

/// `str::to_lowercase` on ASCII strings of at most 3 characters (every type name of a layout table).
pub fn ascii_lowercase_stub(s: &str) -> String {
    let b = s.as_bytes();
    assert!(b.len() <= 3, "stub precondition: short ASCII names");
    let mut v: Vec<u8> = Vec::with_capacity(3);
    for i in 0..b.len() {
        v.push(b[i].to_ascii_lowercase());
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// `Vec::resize` for byte vectors.
#[cfg(kani)]
pub fn resize_stub<T: Clone, A: core::alloc::Allocator>(v: &mut Vec<T, A>, new_len: usize, value: T) {
    assert!(core::mem::size_of::<T>() == 1, "stub precondition: bytes");
    let len = v.len();
    if new_len <= len {
        v.truncate(new_len);
    } else {
        v.reserve(new_len - len);
        unsafe {
            let b = *(&value as *const T as *const u8);
            core::ptr::write_bytes((v.as_mut_ptr() as *mut u8).add(len), b, new_len - len);
            v.set_len(new_len);
        }
    }
    core::mem::forget(value);
}

/// Unwrap `Ok` as an obligation, without running drop glue of the error.
macro_rules! must {
    ($e:expr, $m:literal) => {
        match $e {
            Ok(v) => v,
            Err(e) => {
                core::mem::forget(e);
                assert!(false, $m);
                return;
            }
        }
    };
}

/// A byte buffer of any length in `0..=max` with arbitrary contents.
#[cfg(not(kani))]
pub fn sym_bytes(max: usize) -> Vec<u8> {
    let len: usize = kani::any();
    kani::assume(len <= max && len <= 4096);
    (0..len).map(|i| (i * 167 + len * 13 + 5) as u8).collect()
}
#[cfg(kani)]
pub fn sym_bytes(max: usize) -> Vec<u8> {
    let len: usize = kani::any();
    kani::assume(len <= max);
    if len == 0 {
        return Vec::new();
    }
    unsafe {
        let p = std::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(len, 1));
        kani::assume(!p.is_null());
        Vec::from_raw_parts(p, len, len)
    }
}

/// A text of any length in `0..=max` with arbitrary contents.
#[cfg(kani)]
pub fn sym_text(max: usize) -> String {
    let b = sym_bytes(max);
    // letters beyond these are compared and moved as bytes, never decoded
    let ok = |i: usize| i >= b.len() || b[i] < 128;
    kani::assume(ok(0) && ok(1) && ok(2) && ok(3) && ok(4) && ok(5) && ok(6) && ok(7) && ok(8) && ok(9) && ok(10) && ok(11));
    unsafe { String::from_utf8_unchecked(b) }
}
#[cfg(not(kani))]
pub fn sym_text(_: usize) -> String {
    let len: usize = kani::any();
    let len = if len > 4096 { len % 61 } else { len };
    let mut b: Vec<u8> = (0..len).map(|i| b"abcdefghijklmnopqrstuvwxyz_0123456789"[(i * 167 + len * 13 + 5) % 37]).collect();
    for i in 0..3 {
        let c: u8 = kani::any();
        if len > i {
            b[i] = b"/ \0._aIxyi~:\n\t"[c as usize % 14];
            b[len - 1 - i] = b"/ \0._aIxyi~:\n\t"[(c >> 4) as usize % 14];
        }
    }
    String::from_utf8(b).unwrap()
}

/// Whether a text is this (short) one.
pub fn is_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut same = true;
    for i in 0..b.len() {
        same &= a[i] == b[i];
    }
    same
}

/// A vector of any length in `0..=max` with arbitrary (bit-)contents; for plain data types only.
#[cfg(kani)]
pub fn sym_vec<T: Copy>(max: usize) -> Vec<T> {
    let len: usize = kani::any();
    kani::assume(len <= max);
    if len == 0 {
        return Vec::new();
    }
    unsafe {
        let p = std::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(
            len * core::mem::size_of::<T>(),
            core::mem::align_of::<T>(),
        )) as *mut T;
        kani::assume(!p.is_null());
        Vec::from_raw_parts(p, len, len)
    }
}
#[cfg(not(kani))]
pub fn sym_vec<T: Copy>(max: usize) -> Vec<T> {
    let len: usize = kani::any();
    kani::assume(len <= max && len <= 4096);
    let mut v: Vec<T> = Vec::with_capacity(len);
    unsafe {
        let bytes = v.as_mut_ptr() as *mut u8;
        for i in 0..len * core::mem::size_of::<T>() {
            *bytes.add(i) = (i * 167 + len * 13 + 5) as u8;
        }
        v.set_len(len);
    }
    v
}

/// The bytes a buffer holds, remembered as its length and one byte at an arbitrary position.
/// The check over it accepts a buffer that was moved as well as one that was copied.
#[derive(Clone, Copy)]
pub struct Bytes {
    len: usize,
    at: *const u8,
    i: usize,
    b: u8,
}

impl Bytes {
    pub fn of(v: &[u8]) -> Bytes {
        let i: usize = kani::any();
        #[cfg(not(kani))]
        let i = if v.is_empty() { 0 } else { i % v.len() };
        kani::assume(v.is_empty() || i < v.len());
        Bytes { len: v.len(), at: v.as_ptr(), i, b: if v.is_empty() { 0 } else { v[i] } }
    }
    pub fn same(&self, v: &[u8]) -> bool {
        v.len() == self.len && (v.as_ptr() == self.at || v.is_empty() || v[self.i] == self.b)
    }
}
