//! Executed instances: point types and messages with many fields and long names, which no obligation covers. Run as
//! ordinary native tests with overflow checks; a bounded stand-in, never counted as proved.
use crate::support::*;
use std::collections::BTreeMap;
use std::str::FromStr;

macro_rules! instance {
    (fn $h:ident() $b:block) => {
        #[test]
        fn $h() {
            fn body() $b
            crate::kani::instance(stringify!($h), body)
        }
    };
}

/// A pseudo random sequence (xorshift).
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

trait Scalar: Copy {
    fn make(bits: u64) -> Self;
    fn bits(self) -> u64;
    const CODE: u8;
    const NAME: &'static str;
}
macro_rules! scalar {
    ($($t:ident $u:ident $code:ident |$b:ident| $make:expr, |$v:ident| $bits:expr;)*) => { $(impl Scalar for $t {
        fn make($b: u64) -> Self { $make }
        fn bits(self) -> u64 { let $v = self; ($bits) as $u as u64 }
        const CODE: u8 = $code;
        const NAME: &'static str = stringify!($t);
    })* };
}
scalar! {
    i8 u8 I8 |b| b as i8, |v| v;
    u8 u8 U8 |b| b as u8, |v| v;
    i16 u16 I16 |b| b as i16, |v| v;
    u16 u16 U16 |b| b as u16, |v| v;
    i32 u32 I32 |b| b as i32, |v| v;
    u32 u32 U32 |b| b as u32, |v| v;
    f32 u32 F32 |b| f32::from_bits(b as u32), |v| v.to_bits();
    f64 u64 F64 |b| f64::from_bits(b), |v| v.to_bits();
}
fn width(code: u8) -> usize {
    [0, 1, 1, 2, 2, 4, 4, 4, 8][code as usize]
}

/// What is known about a wide type: name, code and memory offset of every field in declaration order.
struct Desc {
    fields: Vec<(String, u8, usize)>,
    size: usize,
}
trait WideType<const N: usize>: PointConvertible<N> + Copy {
    fn make(r: &mut Rng) -> Self;
    fn values(&self) -> Vec<u64>;
    fn desc() -> Desc;
}
macro_rules! wide {
    ($(#[$m:meta])* $t:ident / $n:literal { $($(#[rename($name:literal)])? $f:ident : $ft:ident),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, PointConvertible)]
        $(#[$m])*
        struct $t { $($(#[rpcl2(rename($name))])? $f: $ft),* }
        impl WideType<$n> for $t {
            fn make(r: &mut Rng) -> Self { $t { $($f: <$ft as Scalar>::make(r.next())),* } }
            fn values(&self) -> Vec<u64> { vec![$(self.$f.bits()),*] }
            fn desc() -> Desc {
                Desc {
                    fields: vec![$({
                        #[allow(unused_mut)]
                        let mut n = stringify!($f).to_string();
                        $(n = $name.to_string();)?
                        (n, <$ft as Scalar>::CODE, core::mem::offset_of!($t, $f))
                    }),*],
                    size: core::mem::size_of::<$t>(),
                }
            }
        }
    };
}
wide! { #[repr(C)] Nine / 9 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8 } }
wide! { #[repr(C)] Mixed / 17 {
    t0: f64, ring: u8, x: f32, tag: u16, y: f32, low: i8, z: f32, high: i16, id: i32, label: u32, t1: f64,
    intensity: f32, r: u8, g: u8, b: u8, range: u32, ambient: u16 } }
wide! { #[repr(C, packed)] Tight / 12 {
    a: u8, b: f64, c: i16, d: u32, e: i8, f: f32, g: u16, h: i32, i: u8, j: f64, k: u8, l: f32 } }
wide! { #[repr(C, align(64))] Aligned / 33 {
    f00: f32, f01: u8, f02: u16, f03: f64, f04: i8, f05: i16, f06: i32, f07: u32, f08: f32, f09: u8, f10: u16,
    f11: f64, f12: i8, f13: i16, f14: i32, f15: u32, f16: f32, f17: u8, f18: u16, f19: f64, f20: i8, f21: i16,
    f22: i32, f23: u32, f24: f32, f25: u8, f26: u16, f27: f64, f28: i8, f29: i16, f30: i32, f31: u32, f32_: f32 } }
wide! { #[repr(C)] Named / 10 {
    #[rename("x")] first: f32, #[rename("first")] x: f32,
    #[rename("a name that is much longer than the names of the common point types, which have at most eight letters or so")] long: u16,
    #[rename("naïve Straße 点群")] accents: u8, #[rename("With Space")] space: f64, #[rename("UPPER")] upper: i8,
    lower: u8, #[rename("t")] time_stamp_in_nano_seconds_since_the_epoch: f64, another_name_of_a_field_that_keeps_it_and_is_long: u32,
    #[rename("")] none: i32 } }
wide! { Free / 11 { a: u8, b: f64, c: u16, d: u32, e: i8, f: f32, g: u16, h: i32, i: u8, j: f64, k: u8 } }

/// Runs a function for every wide type.
macro_rules! each {
    ($f:ident) => {{
        $f::<9, Nine>("Nine");
        $f::<17, Mixed>("Mixed");
        $f::<12, Tight>("Tight");
        $f::<33, Aligned>("Aligned");
        $f::<10, Named>("Named");
        $f::<11, Free>("Free");
    }};
}

fn found(m: &Msg, k: usize, name: &str) -> u64 {
    let f = m.fields.iter().filter(|f| f.name == name).collect::<Vec<_>>();
    assert!(f.len() == 1, "one field {name}");
    let at = k * m.point_step as usize + f[0].offset as usize;
    let w = width(f[0].datatype);
    let mut b = [0u8; 8];
    for i in 0..w {
        let j = if m.endian == Endian::Big { w - 1 - i } else { i };
        b[j] = m.data[at + i];
    }
    u64::from_le_bytes(b)
}

fn written_from_iter<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    for n in [0usize, 1, 2, 17, 300] {
        let mut r = Rng(77 + n as u64);
        let p: Vec<C> = (0..n).map(|_| C::make(&mut r)).collect();
        let m = PointCloud2Msg::try_from_iter(p.clone()).unwrap();
        assert!(m.fields.len() == N, "{t}: all fields");
        let mut at = 0;
        for (f, (name, code, _)) in m.fields.iter().zip(&d.fields) {
            assert!(f.name == *name && f.datatype == *code && f.count == 1 && f.offset as usize == at, "{t}: field {name} is described as {f:?}");
            at += width(*code);
        }
        assert!(m.point_step as usize == at && m.row_step as usize == at * n && m.data.len() == at * n, "{t}: sizes");
        assert!(m.dimensions.width as usize == n && m.dimensions.height == u32::from(n > 0) && m.endian == Endian::Little, "{t}: dimensions");
        written_values::<N, C>(t, &m, &p);
    }
}
fn written_values<const N: usize, C: WideType<N>>(t: &str, m: &Msg, p: &[C]) {
    for (k, p) in p.iter().enumerate() {
        for ((name, _, _), v) in C::desc().fields.iter().zip(p.values()) {
            assert!(found(m, k, name) == v, "{t}: point {k}, field {name}");
        }
    }
}
instance! { fn x05_many_fields() { each!(written_from_iter) } }

fn written_from_vec<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    for n in [0usize, 1, 2, 17, 300] {
        let mut r = Rng(99 + n as u64);
        let p: Vec<C> = (0..n).map(|_| C::make(&mut r)).collect();
        let m = PointCloud2Msg::try_from_vec(p.clone()).unwrap();
        assert!(m.fields.len() == N, "{t}: all fields");
        for (f, (name, code, _)) in m.fields.iter().zip(&d.fields) {
            assert!(f.name == *name && f.datatype == *code && f.count == 1, "{t}: field {name} is described as {f:?}");
            assert!(f.offset as usize + width(*code) <= m.point_step as usize, "{t}: field {name} is inside of the point");
        }
        let s = m.point_step as usize;
        assert!(m.row_step as usize == s * n && m.data.len() == s * n, "{t}: sizes");
        assert!(m.dimensions.width as usize == n && m.dimensions.height == u32::from(n > 0), "{t}: dimensions");
        written_values::<N, C>(t, &m, &p);
    }
}
instance! { fn x06_many_fields() { each!(written_from_vec) } }

fn there_and_back<const N: usize, C: WideType<N>>(t: &str) {
    let mut r = Rng(5);
    let p: Vec<C> = (0..301).map(|_| C::make(&mut r)).collect();
    for m in [PointCloud2Msg::try_from_iter(p.clone()).unwrap(), PointCloud2Msg::try_from_vec(p.clone()).unwrap()] {
        let i: Vec<C> = m.clone().try_into_iter().unwrap().collect();
        let v: Vec<C> = m.try_into_vec().unwrap();
        assert!(i.len() == p.len() && v.len() == p.len(), "{t}: number of points");
        for k in 0..p.len() {
            assert!(i[k].values() == p[k].values(), "{t}: point {k} of the iterator");
            assert!(v[k].values() == p[k].values(), "{t}: point {k} of the vector");
        }
    }
}
instance! { fn x19_clouds_of_wide_types() { each!(there_and_back) } }
instance! { fn x20_clouds_of_renamed_fields() { there_and_back::<10, Named>("Named"); written_from_iter::<10, Named>("Named"); } }

/// A message that holds the fields of `C` at places of its own, among others.
fn foreign<const N: usize, C: WideType<N>>(r: &mut Rng, others: usize, n: usize, endian: Endian, skip: &[usize]) -> (Msg, Vec<Vec<u64>>) {
    let d = C::desc();
    let mut f: Vec<(String, u8)> = d.fields.iter().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, (n, c, _))| (n.clone(), *c)).collect();
    for i in 0..others {
        f.push((format!("other field number {i} of this message"), 1 + r.below(8) as u8));
    }
    r.shuffle(&mut f);
    let mut at = r.below(9);
    let mut fields: Vec<PointFieldMsg> = f.iter().map(|(n, c)| {
        let x = fld(n, *c, at as u32);
        at += width(*c) + [0, 0, 1, 5][r.below(4)];
        x
    }).collect();
    r.shuffle(&mut fields);
    let step = at + r.below(9);
    let data: Vec<u8> = (0..step * n).map(|_| r.next() as u8).collect();
    let m = msg(fields, endian, step as u32, n as u32, u32::from(n > 0), data);
    let want = (0..n).map(|k| d.fields.iter().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, (name, _, _))| found(&m, k, name)).collect()).collect();
    (m, want)
}
fn read_foreign<const N: usize, C: WideType<N>>(t: &str) {
    let mut r = Rng(1234567);
    for others in [0usize, 1, 20, 300] {
        for endian in [Endian::Little, Endian::Big] {
            let (m, want) = foreign::<N, C>(&mut r, others, 13, endian, &[]);
            let i: Vec<C> = m.clone().try_into_iter().unwrap().collect();
            let v: Vec<C> = m.try_into_vec().unwrap();
            assert!(i.len() == 13 && v.len() == 13, "{t}: number of points");
            for k in 0..13 {
                assert!(i[k].values() == want[k], "{t} among {others} other fields: point {k} of the iterator");
                assert!(v[k].values() == want[k], "{t} among {others} other fields: point {k} of the vector");
            }
        }
    }
}
instance! { fn x02_many_fields() { each!(read_foreign) } }

/// The memory of the type itself, with one field moved, widened or replaced, and more or fewer bytes per point.
fn read_almost_native<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    let mut r = Rng(31);
    for tail in [0usize, 1, 16] {
        let mut variants: Vec<Vec<PointFieldMsg>> = vec![d.fields.iter().map(|(n, c, o)| fld(n, *c, *o as u32)).collect()];
        for k in 0..N {
            // two names exchanged; one offset that is not the one in memory; one field after all others
            let mut v = variants[0].clone();
            if d.fields[k].1 == d.fields[(k + 1) % N].1 {
                let a = v[k].name.clone();
                v[k].name = v[(k + 1) % N].name.clone();
                v[(k + 1) % N].name = a;
                variants.push(v.clone());
            }
            let mut v = variants[0].clone();
            v[k].offset = if v[k].offset > 0 { v[k].offset - 1 } else { 1 };
            variants.push(v);
            let mut v = variants[0].clone();
            let f = v.remove(k);
            v.push(f);
            variants.push(v);
            let mut v = variants[0].clone();
            v.insert(k, fld("an unrelated field", 2, 0));
            variants.push(v);
        }
        for (j, f) in variants.into_iter().enumerate() {
            let step = d.size + tail;
            let data: Vec<u8> = (0..step * 3).map(|_| r.next() as u8).collect();
            let m = msg(f, Endian::Little, step as u32, 3, 1, data);
            let fits = m.fields.iter().all(|f| f.offset as usize + width(f.datatype) <= step);
            let i = m.clone().try_into_iter::<N, C>().map(|i| i.collect::<Vec<_>>());
            let v = m.clone().try_into_vec::<N, C>();
            assert!(i.is_ok() == v.is_ok() && i.is_ok() == fits, "{t}, variant {j}: accepted alike");
            if let (Ok(i), Ok(v)) = (i, v) {
                for k in 0..3 {
                    let want: Vec<u64> = d.fields.iter().map(|(n, _, _)| found(&m, k, n)).collect();
                    assert!(i[k].values() == want, "{t}, variant {j}: point {k} of the iterator");
                    assert!(v[k].values() == want, "{t}, variant {j}: point {k} of the vector");
                }
            }
        }
    }
}
instance! { fn x03_many_fields() { each!(read_almost_native) } }

fn missing_named<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    let mut r = Rng(4242);
    for round in 0..40 {
        let mut skip: Vec<usize> = (0..N).collect();
        r.shuffle(&mut skip);
        skip.truncate(if round == 0 { N } else { 1 + r.below(N) });
        let (m, _) = foreign::<N, C>(&mut r, [0, 3, 40][round % 3], 2, Endian::Little, &skip);
        let mut want: Vec<String> = skip.iter().map(|i| d.fields[*i].0.clone()).collect();
        want.sort();
        assert!(m.clone().try_into_vec::<N, C>().is_err(), "{t}: rejected by the vector conversion");
        match m.try_into_iter::<N, C>() {
            Err(MsgConversionError::FieldsNotFound(mut names)) => {
                names.sort();
                assert!(names == want, "{t}: missing {want:?}, told {names:?}");
            }
            _ => panic!("{t}: the missing fields are told"),
        };
    }
}
instance! { fn x04_many_missing_fields() { each!(missing_named) } }

fn one_bad<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    let mut r = Rng(9);
    for k in 0..N {
        let (m, _) = foreign::<N, C>(&mut r, 7, 2, Endian::Big, &[]);
        let i = m.fields.iter().position(|f| f.name == d.fields[k].0).unwrap();
        let w = width(m.fields[i].datatype) as u32;
        let mut ok = m.clone();
        ok.fields[i].offset = ok.point_step - w;
        assert!(ok.clone().try_into_iter::<N, C>().is_ok() && ok.clone().try_into_vec::<N, C>().is_ok(), "{t}: field {k} ends with the point");
        let mut bad = ok.clone();
        bad.fields[i].offset += 1;
        assert!(matches!(bad.clone().try_into_iter::<N, C>().err(), Some(MsgConversionError::DataLengthMismatch)), "{t}: field {k} ends behind the point");
        assert!(bad.try_into_vec::<N, C>().is_err(), "{t}: field {k} ends behind the point");
        for code in [0u8, 9, 255] {
            let mut bad = ok.clone();
            bad.fields[i].datatype = code;
            assert!(matches!(bad.clone().try_into_iter::<N, C>().err(), Some(MsgConversionError::UnsupportedFieldType(_))), "{t}: field {k} has an unknown datatype");
            assert!(bad.try_into_vec::<N, C>().is_err(), "{t}: field {k} has an unknown datatype");
        }
    }
}
instance! { fn x04_each_of_many_fields() { each!(one_bad) } }

fn layout_lists<const N: usize, C: WideType<N>>(t: &str) {
    let d = C::desc();
    let e = layout_entries(C::layout());
    let (mut k, mut at) = (0, 0);
    for e in &e {
        match e {
            LayoutField::Field { name, ty, size } => {
                assert!(k < N && **name == *d.fields[k].0, "{t}: field {k} is {name}");
                let code: u8 = FieldDatatype::from_str(ty).unwrap().into();
                assert!(code == d.fields[k].1 && *size == width(code), "{t}: type of field {k}");
                assert!(t == "Free" || at == d.fields[k].2, "{t}: field {k} at {at}");
                k += 1;
                at += size;
            }
            LayoutField::Padding { size } => at += size,
        }
    }
    assert!(k == N && (t == "Free" || at == d.size), "{t}: the whole type");
}
instance! { fn x19_layout_of_wide_types() { each!(layout_lists) } }
instance! { fn x20_layout_of_renamed_fields() { layout_lists::<10, Named>("Named"); } }

instance! {
fn x12_longer_names() {
    let known = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64", "rgb"];
    let mut tried = 0;
    for k in known {
        for (pre, post) in [("", " "), (" ", ""), ("", "\0"), ("", "_t"), ("", "x"), ("", "[3]"), ("core::primitive::", ""), ("", "\n"), ("+", ""), ("", "loat"), ("", "4096"), ("0", ""), ("r#", ""), ("&", "")] {
            let s = format!("{pre}{k}{post}");
            let e = FieldDatatype::from_str(&s).err();
            match e {
                Some(MsgConversionError::UnsupportedFieldType(n)) => assert!(n == s, "the error names {s:?}, not {n:?}"),
                _ => panic!("{s:?} is not a datatype"),
            }
            tried += 1;
        }
    }
    for s in ["float", "double", "float32", "float64", "int8", "uint8", "int16", "uint16", "int32", "uint32", "bool", "usize", "isize", "i64", "u64", "i128", "u128", "f16", "f128", "char", "string", "byte", "short", "long", "point", "rgba", "xyz", "FLOAT32", "UINT8", "unsigned char", "ｆ３２", "ꜰ32"] {
        match FieldDatatype::from_str(s) {
            Err(MsgConversionError::UnsupportedFieldType(n)) => assert!(n == s, "the error names {s:?}, not {n:?}"),
            _ => panic!("{s:?} is not a datatype"),
        }
        tried += 1;
    }
    assert!(tried > 100);
}
}
instance! {
fn x13_many_fields() {
    let mut r = Rng(8);
    for n in [9usize, 16, 17, 64, 255, 256, 257, 1000] {
        let mut at = 0;
        let f: Vec<PointFieldMsg> = (0..n).map(|i| {
            let c = 1 + r.below(8) as u8;
            let x = fld(&format!("field {i} of a cloud with {n} fields"), c, at);
            at += width(c) as u32;
            x
        }).collect();
        let build = |f: &[PointFieldMsg], step: u32, len: usize| {
            PointCloud2MsgBuilder::new().fields(f.to_vec()).point_step(step).width(3).row_step(3 * step).data(vec![7; len]).endian(n % 2 == 0).dense(n % 3 == 0).build()
        };
        let m = build(&f, at, 3 * at as usize).unwrap();
        assert!(m.fields.len() == n && m.point_step == at && m.data.len() == 3 * at as usize, "description");
        for (a, b) in m.fields.iter().zip(&f) {
            assert!(a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == 1, "fields as given");
        }
        assert!(matches!(build(&f, at - 1, 0), Err(MsgConversionError::InvalidFieldFormat)), "{n} fields do not fit");
        assert!(matches!(build(&f, at, at as usize + 1), Err(MsgConversionError::DataLengthMismatch)), "buffer of whole points");
        for k in [0, n / 2, n - 1, r.below(n), r.below(n)] {
            for c in [0u32, 2, 256, u32::MAX] {
                let mut g = f.clone();
                g[k].count = c;
                assert!(matches!(build(&g, at, 0), Err(MsgConversionError::UnsupportedFieldCount)), "field {k} of {n} has count {c}");
            }
            for c in [0u8, 9, 128, 255] {
                let mut g = f.clone();
                g[k].datatype = c;
                assert!(matches!(build(&g, at, 0), Err(MsgConversionError::UnsupportedFieldType(_))), "field {k} of {n} has datatype {c}");
            }
        }
    }
}
}

/// Whether a message is to be accepted for `C`.
fn well_formed<const N: usize, C: WideType<N>>(m: &Msg) -> bool {
    let n = u128::from(m.dimensions.width) * u128::from(m.dimensions.height);
    n * u128::from(m.point_step) == m.data.len() as u128
        && C::desc().fields.iter().all(|(n, _, _)| match m.fields.iter().find(|f| f.name == *n) {
            Some(f) => (1..=8).contains(&f.datatype) && u64::from(f.offset) + width(f.datatype) as u64 <= u64::from(m.point_step),
            None => false,
        })
}
fn damaged<const N: usize, C: WideType<N>>(t: &str) {
    let mut r = Rng(60606);
    let (mut good, mut bad) = (0, 0);
    for round in 0..3000 {
        let (others, n, big) = ([0, 2, 30][round % 3], r.below(5), r.below(2) == 0);
        let (mut m, _) = foreign::<N, C>(&mut r, others, n, if big { Endian::Big } else { Endian::Little }, &[]);
        let edge = |r: &mut Rng, v: u32| match r.below(9) {
            0 => 0,
            1 => v.wrapping_sub(1),
            2 => v.wrapping_add(1),
            3 => u32::MAX,
            4 => 1 << 31,
            5 => v.wrapping_mul(2),
            6 => v / 2,
            7 => 65_536,
            _ => r.next() as u32,
        };
        for _ in 0..r.below(3) {
            let k = r.below(m.fields.len().max(1));
            match r.below(11) {
                0 => m.point_step = edge(&mut r, m.point_step),
                1 => m.row_step = edge(&mut r, m.row_step),
                2 => m.dimensions.width = edge(&mut r, m.dimensions.width),
                3 => m.dimensions.height = edge(&mut r, m.dimensions.height),
                4 => {
                    let l = m.data.len();
                    m.data.truncate(r.below(l + 1));
                }
                5 => {
                    let l = m.data.len();
                    m.data.resize(l + 1 + r.below(40), 1);
                }
                6 if k < m.fields.len() => m.fields[k].offset = edge(&mut r, m.fields[k].offset),
                7 if k < m.fields.len() => m.fields[k].datatype = r.next() as u8,
                8 if k < m.fields.len() => {
                    m.fields.remove(k);
                }
                9 if k < m.fields.len() => m.fields[k].offset = m.point_step.wrapping_sub(r.below(9) as u32),
                10 if k < m.fields.len() => m.fields[k].name.push('_'),
                _ => (),
            }
        }
        let want = well_formed::<N, C>(&m);
        let points = m.dimensions.width as usize * m.dimensions.height as usize;
        if want && points > 1000 {
            continue; // a step of zero
        }
        let i = m.clone().try_into_iter::<N, C>();
        let v = m.clone().try_into_vec::<N, C>();
        assert!(i.is_ok() == want, "{t}, round {round}: a message that is {}well-formed is {}", if want { "" } else { "not " }, if want { "rejected" } else { "accepted" });
        assert!(v.is_ok() == want, "{t}, round {round}: a message that is {}well-formed is {} by the vector conversion", if want { "" } else { "not " }, if want { "rejected" } else { "accepted" });
        if let (Ok(i), Ok(v)) = (i, v) {
            good += 1;
            let i: Vec<C> = i.collect();
            assert!(i.len() == points && v.len() == points, "{t}: number of points");
            for k in 0..points {
                assert!(i[k].values() == v[k].values(), "{t}: point {k}");
            }
        } else {
            bad += 1;
        }
    }
    assert!(good > 100 && bad > 100, "{good} {bad}");
}
instance! { fn x01_damaged_messages() { each!(damaged) } }
