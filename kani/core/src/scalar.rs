//! Scalars, datatype descriptions, colors, coordinates and the message builder.
use crate::support::*;
use ros_pointcloud2::points::RGB;

// ---------------------------------------------------------------- C11: encoding of single values

macro_rules! scalar_codec {
    ($enc:ident, $dec:ident, $own:ident, $t:ty, $n:literal, $raw:ty, $rd:ident, $bits:expr, $make:expr) => {
        // the 8 byte buffer of a value: its little endian bytes, then zeros
        proof! {
        #[kani::unwind(9)]
        fn $enc() {
            let r: $raw = kani::any();
            let v: $t = ($make)(r);
            let b: PointDataBuffer = v.into();
            let s = b.raw();
            assert!($rd(&s, 0, false) == r, "little endian bytes of the value");
            for i in $n..8usize {
                assert!(s[i] == 0, "unused bytes are zero");
            }
        }
        }
        // decoding reads exactly the leading bytes in the given order, whatever follows
        proof! {
        #[kani::unwind(9)]
        fn $dec() {
            let d: [u8; 8] = kani::any();
            let l = <$t as FromBytes>::from_le_bytes(PointDataBuffer::new(d));
            let b = <$t as FromBytes>::from_be_bytes(PointDataBuffer::new(d));
            assert!(($bits)(l) == $rd(&d, 0, false), "little endian decoding");
            assert!(($bits)(b) == $rd(&d, 0, true), "big endian decoding");
        }
        }
        // a value put into a point field comes back bit by bit
        proof! {
        #[kani::unwind(9)]
        fn $own() {
            let r: $raw = kani::any();
            let v: $t = ($make)(r);
            let back: $t = PointData::new(v).get();
            assert!(($bits)(back) == r, "value survives");
        }
        }
    };
}
scalar_codec!(c11_encode_u8, c11_decode_u8, c11_field_u8, u8, 1, u8, n1, |x: u8| x, |r: u8| r);
scalar_codec!(c11_encode_i8, c11_decode_i8, c11_field_i8, i8, 1, u8, n1, |x: i8| x as u8, |r: u8| r as i8);
scalar_codec!(c11_encode_u16, c11_decode_u16, c11_field_u16, u16, 2, u16, n2, |x: u16| x, |r: u16| r);
scalar_codec!(c11_encode_i16, c11_decode_i16, c11_field_i16, i16, 2, u16, n2, |x: i16| x as u16, |r: u16| r as i16);
scalar_codec!(c11_encode_u32, c11_decode_u32, c11_field_u32, u32, 4, u32, n4, |x: u32| x, |r: u32| r);
scalar_codec!(c11_encode_i32, c11_decode_i32, c11_field_i32, i32, 4, u32, n4, |x: i32| x as u32, |r: u32| r as i32);
scalar_codec!(c11_encode_f32, c11_decode_f32, c11_field_f32, f32, 4, u32, n4, |x: f32| x.to_bits(), |r: u32| f32::from_bits(r));
scalar_codec!(c11_encode_f64, c11_decode_f64, c11_field_f64, f64, 8, u64, n8, |x: f64| x.to_bits(), |r: u64| f64::from_bits(r));
scalar_codec!(c11_encode_rgb, c11_decode_rgb, c11_field_rgb, RGB, 4, u32, n4, |x: RGB| x.raw().to_bits(), |r: u32| RGB::new_from_packed(r));

// `PointData` made with `into` is the same as with `new`
macro_rules! into_field {
    ($h:ident, $t:ty, $raw:ty, $bits:expr, $make:expr) => {
        proof! {
        #[kani::unwind(9)]
        fn $h() {
            let r: $raw = kani::any();
            let p: PointData = ($make)(r).into();
            let v: $t = p.get();
            assert!(($bits)(v) == r, "value survives");
        }
        }
    };
}
into_field!(c11_into_u8, u8, u8, |x: u8| x, |r: u8| r);
into_field!(c11_into_i8, i8, u8, |x: i8| x as u8, |r: u8| r as i8);
into_field!(c11_into_u16, u16, u16, |x: u16| x, |r: u16| r);
into_field!(c11_into_i16, i16, u16, |x: i16| x as u16, |r: u16| r as i16);
into_field!(c11_into_u32, u32, u32, |x: u32| x, |r: u32| r);
into_field!(c11_into_i32, i32, u32, |x: i32| x as u32, |r: u32| r as i32);
into_field!(c11_into_f32, f32, u32, |x: f32| x.to_bits(), |r: u32| f32::from_bits(r));
into_field!(c11_into_f64, f64, u64, |x: f64| x.to_bits(), |r: u64| f64::from_bits(r));

// buffers from slices of any length up to 8: the slice, then zeros
proof! {
#[kani::unwind(10)]
fn c11_buffer_from_slice() {
    let d: [u8; 8] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 8);
    let b = PointDataBuffer::from_slice(&d[..n]);
    let s = b.as_slice();
    assert!(s.len() == 8, "eight bytes");
    for i in 0..8usize {
        assert!(s[i] == if i < n { d[i] } else { 0 }, "the slice, then zeros");
        assert!(b[i] == s[i], "indexing");
    }
    kani::cover!(n == 0, "empty slice");
    kani::cover!(n == 8, "full slice");
}
}

// ---------------------------------------------------------------- C12: datatypes

macro_rules! datatype {
    ($h:ident, $name:literal, $code:literal, $size:literal, $v:ident, $t:ty) => {
        proof! {
        #[kani::unwind(9)]
        fn $h() {
            let v: u8 = FieldDatatype::$v.into();
            assert!(v == $code, "datatype code of the ROS message definition");
            assert!(FieldDatatype::$v.size() == $size, "size in bytes");
            assert!(core::mem::size_of::<$t>() == $size, "size of the Rust type");
            assert!(<$t as GetFieldDatatype>::field_datatype() == FieldDatatype::$v, "datatype of the Rust type");
            match <FieldDatatype as core::str::FromStr>::from_str($name) {
                Ok(d) => assert!(d == FieldDatatype::$v, "datatype of the name"),
                Err(e) => {
                    core::mem::forget(e);
                    assert!(false, "the name is known");
                }
            }
        }
        }
    };
}
datatype!(c12_i8, "i8", 1, 1, I8, i8);
datatype!(c12_u8, "u8", 2, 1, U8, u8);
datatype!(c12_i16, "i16", 3, 2, I16, i16);
datatype!(c12_u16, "u16", 4, 2, U16, u16);
datatype!(c12_i32, "i32", 5, 4, I32, i32);
datatype!(c12_u32, "u32", 6, 4, U32, u32);
datatype!(c12_f32, "f32", 7, 4, F32, f32);
datatype!(c12_f64, "f64", 8, 8, F64, f64);
datatype!(c12_rgb, "rgb", 7, 4, RGB, RGB);

// every code: 1..=8 translate to a datatype with that code, others are rejected
proof! {
#[kani::unwind(9)]
fn c12_codes() {
    let c: u8 = kani::any();
    match FieldDatatype::try_from(c) {
        Ok(d) => {
            let back: u8 = d.into();
            assert!(back == c, "translating back gives the code");
            assert!(c >= 1 && c <= 8, "only the codes of the message definition");
            assert!(Some(d.size() as u32) == datatype_size(c), "size of the code");
            assert!(d != FieldDatatype::RGB, "colors are described as f32");
        }
        Err(e) => {
            assert!(c == 0 || c > 8, "the codes of the message definition are accepted");
            assert!(matches!(e, MsgConversionError::UnsupportedFieldType(_)), "UnsupportedFieldType");
            core::mem::forget(e);
        }
    }
}
}
proof! {
#[kani::unwind(9)]
fn c12_codes_of_fields() {
    let c: u8 = kani::any();
    kani::assume(c >= 1 && c <= 8);
    let mut f = fld("a", c, kani::any());
    f.count = kani::any();
    match FieldDatatype::try_from(&f) {
        Ok(d) => {
            let back: u8 = d.into();
            assert!(back == c, "translating back gives the code");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(false, "known codes are accepted");
        }
    }
    core::mem::forget(f);
}
}
// names: only the nine names are accepted
proof! {
#[kani::unwind(9)]
fn c12_names() {
    let b: [u8; 4] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 4);
    kani::assume(b[0] < 128 && b[1] < 128 && b[2] < 128 && b[3] < 128);
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let expect = match &b[..n] {
        b"i8" => 1u8,
        b"u8" => 2,
        b"i16" => 3,
        b"u16" => 4,
        b"i32" => 5,
        b"u32" => 6,
        b"f32" | b"rgb" => 7,
        b"f64" => 8,
        _ => 0,
    };
    match <FieldDatatype as core::str::FromStr>::from_str(s) {
        Ok(d) => {
            let c: u8 = d.into();
            assert!(c == expect, "datatype of the name");
        }
        Err(e) => {
            assert!(expect == 0, "known names are accepted");
            assert!(matches!(e, MsgConversionError::UnsupportedFieldType(_)), "UnsupportedFieldType");
            core::mem::forget(e);
        }
    }
}
}

// names of any length: only the nine names are accepted, and the error carries the name itself
proof! {
#[kani::unwind(17)]
fn c12_names_any_length() {
    let s = sym_text(1 << 40);
    let b = s.as_bytes();
    let n = b.len();
    let letter = |i: usize| if i < n { b[i] } else { 0 };
    let expect = match (n, letter(0), letter(1), letter(2)) {
        (2, b'i', b'8', _) => 1u8,
        (2, b'u', b'8', _) => 2,
        (3, b'i', b'1', b'6') => 3,
        (3, b'u', b'1', b'6') => 4,
        (3, b'i', b'3', b'2') => 5,
        (3, b'u', b'3', b'2') => 6,
        (3, b'f', b'3', b'2') | (3, b'r', b'g', b'b') => 7,
        (3, b'f', b'6', b'4') => 8,
        _ => 0,
    };
    let at: usize = kani::any();
    match <FieldDatatype as core::str::FromStr>::from_str(&s) {
        Ok(d) => {
            let c: u8 = d.into();
            assert!(c == expect, "datatype of the name");
        }
        Err(MsgConversionError::UnsupportedFieldType(name)) => {
            assert!(expect == 0, "known names are accepted");
            assert!(name.len() == n, "the error names the whole name");
            kani::cover!(n > 1 << 33, "longer than 8 GiB");
            if at < n {
                assert!(name.as_bytes()[at] == b[at], "the error carries every letter of the name");
            }
            core::mem::forget(name);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(false, "an unsupported type is told");
        }
    }
    core::mem::forget(s);
}
}

// ---------------------------------------------------------------- C16: packed colors

proof! {
fn c16_new() {
    let (r, g, b): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    let c = RGB::new(r, g, b);
    assert!(c.r() == r && c.g() == g && c.b() == b, "channels");
    assert!(c.raw().to_bits() == (r as u32) << 16 | (g as u32) << 8 | b as u32, "packed 0x00RRGGBB");
    let f: f32 = c.into();
    assert!(f.to_bits() == c.raw().to_bits(), "as float");
}
}
proof! {
fn c16_packed() {
    let p: u32 = kani::any();
    for c in [RGB::new_from_packed(p), RGB::new_from_packed_f32(f32::from_bits(p)), RGB::from(f32::from_bits(p))] {
        assert!(c.raw().to_bits() == p, "packed value is kept bit by bit");
        assert!(c.r() == (p >> 16) as u8 && c.g() == (p >> 8) as u8 && c.b() == p as u8, "channels");
        let f: f32 = c.into();
        assert!(f.to_bits() == p, "as float");
    }
}
}
proof! {
fn c16_set() {
    let p: u32 = kani::any();
    let v: u8 = kani::any();
    let which: u8 = kani::any();
    let mut c = RGB::new_from_packed(p);
    let shift = match which {
        0 => { c.set_r(v); 16 }
        1 => { c.set_g(v); 8 }
        _ => { c.set_b(v); 0 }
    };
    let expect = (p & !(0xffu32 << shift)) | (v as u32) << shift;
    assert!(c.raw().to_bits() == expect, "one channel is set, the rest is kept");
}
}
proof! {
fn c16_eq() {
    let (p, q): (u32, u32) = (kani::any(), kani::any());
    let same = RGB::new_from_packed(p) == RGB::new_from_packed(q);
    assert!(same == (p & 0xff_ffff == q & 0xff_ffff), "equal exactly when the channels are equal");
    assert!(RGB::default().raw().to_bits() == 0, "default is black");
}
}
macro_rules! colored {
    ($h:ident, $t:ident { $($x:ident : $xt:ty),* }) => {
        proof! {
        fn $h() {
            let f: [f32; 3] = kani::any();
            let c: [u8; 3] = kani::any();
            $( let $x: $xt = kani::any(); )*
            let p = $t::new(f[0], f[1], f[2], c[0], c[1], c[2] $(, $x)*);
            assert!(p.x.to_bits() == f[0].to_bits() && p.y.to_bits() == f[1].to_bits() && p.z.to_bits() == f[2].to_bits(), "coordinates");
            assert!(p.r() == c[0] && p.g() == c[1] && p.b() == c[2], "channels of the point");
            assert!(p.rgb.raw().to_bits() == (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32, "packed color");
            $( assert!(p.$x == $x, "other fields"); )*
        }
        }
    };
}
colored!(c16_point_xyzrgb, PointXYZRGB {});
colored!(c16_point_xyzrgba, PointXYZRGBA { a: u8 });
colored!(c16_point_xyzrgbl, PointXYZRGBL { label: u32 });
proof! {
fn c16_point_xyzrgbnormal() {
    let f: [f32; 6] = kani::any();
    let c: [u8; 3] = kani::any();
    let p = PointXYZRGBNormal::new(f[0], f[1], f[2], RGB::new(c[0], c[1], c[2]), f[3], f[4], f[5]);
    assert!(p.r() == c[0] && p.g() == c[1] && p.b() == c[2], "channels of the point");
    assert!(p.x.to_bits() == f[0].to_bits() && p.y.to_bits() == f[1].to_bits() && p.z.to_bits() == f[2].to_bits(), "coordinates");
    assert!(p.normal_x.to_bits() == f[3].to_bits() && p.normal_y.to_bits() == f[4].to_bits() && p.normal_z.to_bits() == f[5].to_bits(), "normal");
}
}

// ---------------------------------------------------------------- C17: coordinates as nalgebra points

macro_rules! coordinates {
    ($h:ident, $t:ident) => {
        proof! {
        #[allow(deprecated)]
        fn $h() {
            let f: [u32; 3] = kani::any();
            let (x, y, z) = (f32::from_bits(f[0]), f32::from_bits(f[1]), f32::from_bits(f[2]));
            let p = $t { x, y, z, ..Default::default() };
            let a = p.xyz_f32();
            assert!(a.x.to_bits() == f[0] && a.y.to_bits() == f[1] && a.z.to_bits() == f[2], "f32 coordinates");
            let b = p.xyz();
            assert!(b.x.to_bits() == f[0] && b.y.to_bits() == f[1] && b.z.to_bits() == f[2], "f32 coordinates (deprecated name)");
            let d = p.xyz_f64();
            let same = |v: f64, w: f32| if w.is_nan() { v.is_nan() } else { v.to_bits() == f64::from(w).to_bits() };
            assert!(same(d.x, x) && same(d.y, y) && same(d.z, z), "f64 coordinates");
        }
        }
    };
}
coordinates!(c17_xyz, PointXYZ);
coordinates!(c17_xyzi, PointXYZI);
coordinates!(c17_xyzl, PointXYZL);
coordinates!(c17_xyzrgb, PointXYZRGB);
coordinates!(c17_xyzrgba, PointXYZRGBA);
coordinates!(c17_xyzrgbl, PointXYZRGBL);
coordinates!(c17_xyzrgbnormal, PointXYZRGBNormal);
coordinates!(c17_xyzinormal, PointXYZINormal);
coordinates!(c17_xyznormal, PointXYZNormal);

// the constructors keep what they are given, bit for bit
macro_rules! constructed {
    ($h:ident, $t:ident, [$($f:ident),*], [$($c:ident),*] $(, $l:ident)?) => {
        proof! {
        fn $h() {
            $( let $f = f32::from_bits(kani::any()); )*
            $( let $c: u8 = kani::any(); )*
            $( let $l: u32 = kani::any(); )?
            let p = built!($t [$($f),*] [$($c),*] $($l)?);
            $( assert!(p.$f.to_bits() == $f.to_bits(), stringify!($f)); )*
            $( assert!(channel!(p, $c) == $c, stringify!($c)); )*
            $( assert!(p.$l == $l, "label"); )?
        }
        }
    };
}
macro_rules! built {
    (PointXYZRGBNormal [$x:ident, $y:ident, $z:ident, $a:ident, $b:ident, $c:ident] [$r:ident, $g:ident, $bl:ident]) => { PointXYZRGBNormal::new($x, $y, $z, RGB::new($r, $g, $bl), $a, $b, $c) };
    ($t:ident [$($f:ident),*] [$($c:ident),*] $l:ident) => { $t::new($($f,)* $($c,)* $l) };
    ($t:ident [$($f:ident),*] [$($c:ident),*]) => { $t::new($($f,)* $($c),*) };
}
macro_rules! channel {
    ($p:ident, a) => { $p.a };
    ($p:ident, r) => { $p.rgb.r() };
    ($p:ident, g) => { $p.rgb.g() };
    ($p:ident, b) => { $p.rgb.b() };
}
constructed!(c17_new_xyz, PointXYZ, [x, y, z], []);
constructed!(c17_new_xyzi, PointXYZI, [x, y, z, intensity], []);
constructed!(c17_new_xyzl, PointXYZL, [x, y, z], [], label);
constructed!(c17_new_xyzrgb, PointXYZRGB, [x, y, z], [r, g, b]);
constructed!(c17_new_xyzrgba, PointXYZRGBA, [x, y, z], [r, g, b, a]);
constructed!(c17_new_xyzrgbl, PointXYZRGBL, [x, y, z], [r, g, b], label);
constructed!(c17_new_xyzrgbnormal, PointXYZRGBNormal, [x, y, z, normal_x, normal_y, normal_z], [r, g, b]);
constructed!(c17_new_xyzinormal, PointXYZINormal, [x, y, z, intensity, normal_x, normal_y, normal_z], []);
constructed!(c17_new_xyznormal, PointXYZNormal, [x, y, z, normal_x, normal_y, normal_z], []);

proof! {
fn c17_from_f32() {
    let f: [u32; 3] = kani::any();
    let n = nalgebra::Point3::new(f32::from_bits(f[0]), f32::from_bits(f[1]), f32::from_bits(f[2]));
    for p in [PointXYZ::from(n), PointXYZ::from(&n)] {
        assert!(p.x.to_bits() == f[0] && p.y.to_bits() == f[1] && p.z.to_bits() == f[2], "coordinates from f32");
        let back: nalgebra::Point3<f32> = (&p).into();
        assert!(back.x.to_bits() == f[0] && back.y.to_bits() == f[1] && back.z.to_bits() == f[2], "and back by reference");
        let back: nalgebra::Point3<f32> = p.into();
        assert!(back.x.to_bits() == f[0] && back.y.to_bits() == f[1] && back.z.to_bits() == f[2], "and back by value");
    }
}
}
proof! {
fn c17_from_f64() {
    let f: [u32; 3] = kani::any();
    let (x, y, z) = (f32::from_bits(f[0]), f32::from_bits(f[1]), f32::from_bits(f[2]));
    kani::assume(!x.is_nan() && !y.is_nan() && !z.is_nan());
    // every f32 coordinate survives the way over f64
    let p = PointXYZ { x, y, z };
    let n: nalgebra::Point3<f64> = p.into();
    let m: nalgebra::Point3<f64> = (&p).into();
    assert!(n.x.to_bits() == m.x.to_bits() && n.y.to_bits() == m.y.to_bits() && n.z.to_bits() == m.z.to_bits(), "by value and by reference");
    assert!(n.x.to_bits() == f64::from(x).to_bits() && n.y.to_bits() == f64::from(y).to_bits() && n.z.to_bits() == f64::from(z).to_bits(), "widened");
    for q in [PointXYZ::from(n), PointXYZ::from(&n)] {
        assert!(q.x.to_bits() == f[0] && q.y.to_bits() == f[1] && q.z.to_bits() == f[2], "back without loss");
    }
}
}
proof! {
fn c17_narrow_f64() {
    let f: [u64; 3] = kani::any();
    let (x, y, z) = (f64::from_bits(f[0]), f64::from_bits(f[1]), f64::from_bits(f[2]));
    kani::assume(!x.is_nan() && !y.is_nan() && !z.is_nan());
    let n = nalgebra::Point3::new(x, y, z);
    for p in [PointXYZ::from(n), PointXYZ::from(&n)] {
        assert!(p.x.to_bits() == (x as f32).to_bits() && p.y.to_bits() == (y as f32).to_bits() && p.z.to_bits() == (z as f32).to_bits(), "rounded to f32");
    }
}
}

// ---------------------------------------------------------------- C13: the message builder

// sizes that fit are kept, others are an error; an empty cloud has height 0, any other height 1
proof! {
fn c13_dimensions() {
    let w: usize = kani::any();
    match CloudDimensionsBuilder::new_with_width(w).build() {
        Ok(d) => {
            assert!(w <= u32::MAX as usize && d.width as usize == w, "the width is kept");
            assert!(d.height == if w > 0 { 1 } else { 0 }, "height");
        }
        Err(e) => {
            assert!(w > u32::MAX as usize, "widths that fit are accepted");
            assert!(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
            core::mem::forget(e);
        }
    }
}
}

fn build_case(fields: Vec<PointFieldMsg>, counts_ok: bool, size: u32, step: u32, data: Vec<u8>) {
    let n = fields.len();
    let len = data.len();
    let bytes = Bytes::of(&data);
    let w: u32 = kani::any();
    let row: u32 = kani::any();
    let (big, dense): (bool, bool) = (kani::any(), kani::any());
    let (seq, sec, nsec): (u32, i32, u32) = (kani::any(), kani::any(), kani::any());
    let header = HeaderMsg { seq, stamp: TimeMsg { sec, nanosec: nsec }, frame_id: String::new() };
    let o0 = if n > 0 { fields[0].offset } else { 0 };
    let t0 = if n > 0 { fields[0].datatype } else { 0 };
    let good = n > 0 && counts_ok && step >= size && len % step as usize == 0;
    let made = PointCloud2MsgBuilder::new()
        .header(header).width(w).fields(fields).endian(big).point_step(step).row_step(row).data(data).dense(dense)
        .build();
    kani::cover!(made.is_ok() || n == 0, "accepted");
    kani::cover!(made.is_err(), "rejected");
    match made {
        Ok(m) => {
            assert!(good, "inconsistent descriptions are rejected");
            assert!(m.point_step == step && m.row_step == row, "steps are kept");
            assert!(m.dimensions.width == w && m.dimensions.height == if w > 0 { 1 } else { 0 }, "dimensions");
            assert!((m.endian == Endian::Big) == big, "byte order");
            assert!((m.dense == Denseness::Dense) == dense, "denseness");
            assert!(m.header.seq == seq && m.header.stamp.sec == sec && m.header.stamp.nanosec == nsec, "header");
            assert!(m.fields.len() == n && m.fields[0].offset == o0 && m.fields[0].datatype == t0, "fields are kept");
            assert!(m.data.len() == len && bytes.same(&m.data), "the bytes of the buffer");
            core::mem::forget(m);
        }
        Err(e) => {
            assert!(!good, "consistent descriptions are accepted");
            if n == 0 {
                assert!(matches!(e, MsgConversionError::FieldsNotFound(_)), "no fields");
            } else if !counts_ok {
                assert!(matches!(e, MsgConversionError::UnsupportedFieldCount), "field count");
            } else if step < size {
                assert!(matches!(e, MsgConversionError::InvalidFieldFormat), "point step");
            } else {
                assert!(matches!(e, MsgConversionError::DataLengthMismatch), "data length");
            }
            
            core::mem::forget(e);
        }
    }
}
proof! {
#[kani::unwind(5)]
fn c13_build_no_fields() {
    build_case(Vec::new(), true, 0, kani::any(), vec![0u8; 4]);
}
}
macro_rules! build_one {
    ($h:ident, $code:expr, $size:literal) => {
        proof! {
        #[kani::unwind(5)]
        fn $h() {
            let mut f = fld("a", $code, kani::any());
            f.count = kani::any();
            let ok = f.count == 1;
            let step: u32 = kani::any();
            build_case(vec![f], ok, $size, step, vec![0u8; 12]);
        }
        }
    };
}
build_one!(c13_build_i8, I8, 1);
build_one!(c13_build_u8, U8, 1);
build_one!(c13_build_i16, I16, 2);
build_one!(c13_build_u16, U16, 2);
build_one!(c13_build_i32, I32, 4);
build_one!(c13_build_u32, U32, 4);
build_one!(c13_build_f32, F32, 4);
build_one!(c13_build_f64, F64, 8);
proof! {
#[kani::unwind(5)]
fn c13_build_two_fields() {
    let (mut f, mut g) = (fld("a", F64, kani::any()), fld("b", U16, kani::any()));
    f.count = kani::any();
    g.count = kani::any();
    let ok = f.count == 1 && g.count == 1;
    build_case(vec![f, g], ok, 10, kani::any(), vec![0u8; 22]);
}
}
// the length of the buffer is checked against the point step, for every length
proof! {
#[kani::unwind(5)]
fn c13_build_any_length() {
    build_case(vec![fld("a", F32, 0)], true, 4, 6, sym_bytes(1 << 40));
}
}
proof! {
#[kani::unwind(5)]
fn c13_build_unknown_datatype() {
    let c: u8 = kani::any();
    kani::assume(c == 0 || c > 8);
    match PointCloud2MsgBuilder::new().fields(vec![fld("a", c, 0)]).point_step(8).width(0).build() {
        Ok(m) => {
            core::mem::forget(m);
            assert!(false, "unknown datatypes are rejected");
        }
        Err(e) => {
            assert!(matches!(e, MsgConversionError::UnsupportedFieldType(_)), "UnsupportedFieldType");
            core::mem::forget(e);
        }
    }
}
}
