//! `try_from_iter` for any number of points, by induction over its loop.
//!
//! The loop is driven by the iterator of the caller (`Iterator::for_each`), so this harness supplies the iterator:
//! it runs the real loop body once from the real initial state (base), then replaces the loop state, found through
//! the captures of the loop body, by an arbitrary one that satisfies the invariant
//!     buffer = the bytes of n points, counter = n
//! runs the body once more and checks the invariant for n + 1 (step), and lets the function finish from there, which
//! covers every number of points. When the loop state is not found this way (the loop is written differently) the
//! obligation is undecided and the bounded obligations of C05 remain.
use crate::support::*;
use crate::points::*;
use ros_pointcloud2::points::*;

/// A point type whose packed bytes are known.
pub trait Packed<const N: usize>: PointConvertible<N> + Copy {
    const STEP: usize;
    fn arbitrary() -> Self;
    /// Byte `i` of the packed point.
    fn byte(&self, i: usize) -> u8;
    fn described(f: &[PointFieldMsg]) -> bool;
}
macro_rules! packed {
    ($t:ident / $n:literal $step:literal: $($f:ident $at:literal $len:literal $code:ident $name:literal |$v:ident| $e:expr),*) => {
        impl Packed<$n> for $t {
            const STEP: usize = $step;
            fn arbitrary() -> Self { $t { $($f: kani::any()),* } }
            fn byte(&self, i: usize) -> u8 {
                $( if i >= $at && i < $at + $len { let $v = self.$f; return (($e as u64) >> (8 * (i - $at))) as u8; } )*
                0
            }
            fn described(f: &[PointFieldMsg]) -> bool {
                let mut k = 0usize;
                if f.len() != $n { return false; }
                let mut ok = true;
                $( ok = ok && f[k].name.len() == 1 && f[k].name.as_bytes()[0] == $name && f[k].offset == $at && f[k].datatype == $code && f[k].count == 1; k += 1; )*
                ok && k == $n
            }
        }
    };
}
packed!(A16 / 1 2: a 0 2 U16 b'a' |v| v);
packed!(AF64 / 1 8: a 0 8 F64 b'a' |v| v.to_bits());
packed!(P2 / 2 5: a 0 4 F32 b'a' |v| v.to_bits(), b 4 1 U8 b'b' |v| v);
packed!(M2 / 2 3: a 0 1 U8 b'a' |v| v, b 1 2 U16 b'b' |v| v);
packed!(Q2 / 2 8: a 0 4 U32 b'a' |v| v, b 4 4 F32 b'b' |v| v.to_bits());
packed!(U3 / 3 8: a 0 4 F32 b'a' |v| v.to_bits(), b 4 2 U16 b'b' |v| v, c 6 2 U16 b'c' |v| v);

/// What the iterator tells the harness.
pub struct Ghost {
    pub points: usize,
    pub induction: bool,
    /// an arbitrary byte of the points before the last one, and its value
    pub earlier: usize,
    pub value: u8,
}

pub struct Source<const N: usize, C: Packed<N>> {
    ghost: *mut Ghost,
    last: *mut C,
    left: usize,
}

#[cfg(kani)]
fn arbitrary_state(data: *mut Vec<u8>, len: usize) {
    unsafe {
        let cap = len + 64;
        let p = std::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(cap, 1));
        kani::assume(!p.is_null());
        core::ptr::write(data, Vec::from_raw_parts(p, len, cap));
    }
}

impl<const N: usize, C: Packed<N>> Iterator for Source<N, C> {
    type Item = C;

    fn next(&mut self) -> Option<C> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        unsafe {
            (*self.ghost).points += 1;
            *self.last = C::arbitrary();
            Some(*self.last)
        }
    }

    #[cfg(kani)]
    fn for_each<F: FnMut(C)>(mut self, mut f: F) {
        assert!(core::mem::size_of::<F>() == 16, "unsupported: the loop state is not found");
        let step = C::STEP;
        unsafe {
            let captures = &mut f as *mut F as *mut *mut usize;
            let (a, b) = (*captures, *captures.add(1));
            // base: the real initial state
            let p = C::arbitrary();
            f(p);
            let (count, data) = if *a == 1 { (a, b as *mut Vec<u8>) } else { (b, a as *mut Vec<u8>) };
            assert!(*count == 1 && (*data).capacity() >= step && (*data).capacity() < 64, "unsupported: the loop state is not found");
            assert!((*data).len() == step, "one point has the bytes of its fields");
            let i: usize = kani::any();
            kani::assume(i < step);
            assert!((&(*data))[i] == p.byte(i), "the bytes of the first point");
            // step: an arbitrary state that satisfies the invariant
            let n: usize = kani::any();
            kani::assume(n >= 1 && n <= (1 << 36));
            arbitrary_state(data, n * step);
            *count = n;
            let g = &mut *self.ghost;
            kani::assume(g.earlier < n * step);
            g.value = (&(*data))[g.earlier];
            *self.last = C::arbitrary();
            f(*self.last);
            assert!(*count == n + 1 && (*data).len() == (n + 1) * step, "one more point");
            g.points = n + 1;
            g.induction = true;
        }
    }
}

fn any_number<const N: usize, C: Packed<N>>() {
    let mut g = Ghost { points: 0, induction: false, earlier: kani::any(), value: 0 };
    let mut last = C::default();
    let left: usize = kani::any();
    kani::assume(left <= if cfg!(kani) { 2 } else { 300 });
    let s = Source::<N, C> { ghost: &mut g, last: &mut last, left };
    let r = PointCloud2Msg::try_from_iter(s);
    if cfg!(kani) {
        assert!(g.induction, "unsupported: the loop is not driven by for_each");
    }
    let n = g.points;
    let step = C::STEP;
    let fits = (n as u128) * (step as u128) <= u32::MAX as u128;
    match r {
        Ok(m) => {
            assert!(fits, "more points than a message can describe");
            assert!(C::described(&m.fields), "the fields of the point");
            assert!(m.dimensions.width as usize == n && m.dimensions.height == u32::from(n > 0), "dimensions");
            assert!(m.point_step as usize == step && m.row_step as usize == n * step, "steps");
            assert!(m.endian == Endian::Little, "byte order");
            assert!(m.data.len() == n * step, "data length");
            if n > 0 {
                let i: usize = kani::any();
                kani::assume(i < step);
                assert!(m.data[(n - 1) * step + i] == last.byte(i), "the bytes of the last point");
                if g.induction {
                    assert!(m.data[g.earlier] == g.value, "the bytes of earlier points stay as they were");
                }
            }
            core::mem::forget(m);
        }
        Err(e) => {
            assert!(!fits, "points that fit are written");
            assert!(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
            core::mem::forget(e);
        }
    }
    kani::cover!(fits && n > 70_000, "a large cloud");
    kani::cover!(!fits, "too large for a message");
}
// the predefined types, described as their layout declares (`c15_layout_*`)
macro_rules! predefined {
    ($h:ident, $w:ident, $n:literal, $step:literal, $t:ident { $($f:ident $at:literal $len:literal $code:ident $name:literal |$v:ident| $e:expr),* } = $make:expr) => {
        impl Packed<$n> for $w {
            const STEP: usize = $step;
            fn arbitrary() -> Self { $w($make) }
            fn byte(&self, i: usize) -> u8 {
                $( if i >= $at && i < $at + $len { let $v = self.0.$f; return (($e as u64) >> (8 * (i - $at))) as u8; } )*
                0
            }
            fn described(f: &[PointFieldMsg]) -> bool {
                let mut k = 0usize;
                if f.len() != $n { return false; }
                let mut ok = true;
                $( ok = ok && same_name(&f[k].name, $name) && f[k].offset == $at && f[k].datatype == $code && f[k].count == 1; k += 1; )*
                ok && k == $n
            }
        }
        proof! { #[kani::unwind(12)] fn $h() { any_number::<$n, $w>() } }
    };
}
fn same_name(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..b.len() {
            ok = ok && a[i] == b[i];
        }
    }
    ok
}
fn f() -> f32 {
    f32::from_bits(kani::any())
}
fn c() -> RGB {
    RGB::new_from_packed_f32(f())
}
fn packed(c: RGB) -> u32 {
    f32::from(c).to_bits()
}
predefined!(c07_any_number_xyz, WXyz, 3, 12, PointXYZ { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits() } = PointXYZ::new(f(), f(), f()));
predefined!(c07_any_number_xyzi, WXyzi, 4, 16, PointXYZI { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), intensity 12 4 F32 "intensity" |v| v.to_bits() } = PointXYZI::new(f(), f(), f(), f()));
predefined!(c07_any_number_xyzl, WXyzl, 4, 16, PointXYZL { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), label 12 4 U32 "label" |v| v } = PointXYZL::new(f(), f(), f(), kani::any()));
predefined!(c07_any_number_xyzrgb, WXyzrgb, 4, 16, PointXYZRGB { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), rgb 12 4 F32 "rgb" |v| packed(v) } = PointXYZRGB { x: f(), y: f(), z: f(), rgb: c() });
predefined!(c07_any_number_xyzrgba, WXyzrgba, 5, 17, PointXYZRGBA { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), rgb 12 4 F32 "rgb" |v| packed(v), a 16 1 U8 "a" |v| v } = PointXYZRGBA { x: f(), y: f(), z: f(), rgb: c(), a: kani::any() });
predefined!(c07_any_number_xyzrgbl, WXyzrgbl, 5, 20, PointXYZRGBL { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), rgb 12 4 F32 "rgb" |v| packed(v), label 16 4 U32 "label" |v| v } = PointXYZRGBL { x: f(), y: f(), z: f(), rgb: c(), label: kani::any() });
predefined!(c07_any_number_xyznormal, WXyznormal, 6, 24, PointXYZNormal { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), normal_x 12 4 F32 "normal_x" |v| v.to_bits(), normal_y 16 4 F32 "normal_y" |v| v.to_bits(), normal_z 20 4 F32 "normal_z" |v| v.to_bits() } = PointXYZNormal::new(f(), f(), f(), f(), f(), f()));
predefined!(c07_any_number_xyzrgbnormal, WXyzrgbnormal, 7, 28, PointXYZRGBNormal { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), rgb 12 4 F32 "rgb" |v| packed(v), normal_x 16 4 F32 "normal_x" |v| v.to_bits(), normal_y 20 4 F32 "normal_y" |v| v.to_bits(), normal_z 24 4 F32 "normal_z" |v| v.to_bits() } = PointXYZRGBNormal { x: f(), y: f(), z: f(), rgb: c(), normal_x: f(), normal_y: f(), normal_z: f() });
predefined!(c07_any_number_xyzinormal, WXyzinormal, 7, 28, PointXYZINormal { x 0 4 F32 "x" |v| v.to_bits(), y 4 4 F32 "y" |v| v.to_bits(), z 8 4 F32 "z" |v| v.to_bits(), intensity 12 4 F32 "intensity" |v| v.to_bits(), normal_x 16 4 F32 "normal_x" |v| v.to_bits(), normal_y 20 4 F32 "normal_y" |v| v.to_bits(), normal_z 24 4 F32 "normal_z" |v| v.to_bits() } = PointXYZINormal::new(f(), f(), f(), f(), f(), f(), f()));

proof! { #[kani::unwind(10)] fn c05_any_number_u16() { any_number::<1, A16>() } }
proof! { #[kani::unwind(10)] fn c05_any_number_f64() { any_number::<1, AF64>() } }
proof! { #[kani::unwind(10)] fn c05_any_number_trailing() { any_number::<2, P2>() } }
proof! { #[kani::unwind(10)] fn c05_any_number_padded() { any_number::<2, M2>() } }
proof! { #[kani::unwind(10)] fn c05_any_number_two() { any_number::<2, Q2>() } }
proof! { #[kani::unwind(10)] fn c05_any_number_three() { any_number::<3, U3>() } }
