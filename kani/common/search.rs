// Searches for a concrete failing input through the public interface (native runs only, never counted as proved).
// Used when an obligation over private state is refuted or undecided, to report an input a user could send.

pub trait Bits<const N: usize>: PointConvertible<N> + Clone + 'static {
    const NAMES: [&'static str; N];
    const CODES: [u8; N];
    fn bits(&self) -> [u64; N];
}
macro_rules! bits {
    ($t:ident / $n:literal: $($f:ident $c:ident |$v:ident| $e:expr),*) => {
        impl Bits<$n> for $t {
            const NAMES: [&'static str; $n] = [$(stringify!($f)),*];
            const CODES: [u8; $n] = [$($c),*];
            fn bits(&self) -> [u64; $n] { [$({ let $v = self.$f; $e as u64 }),*] }
        }
    };
}
bits!(A8 / 1: a U8 |v| v);
bits!(A16 / 1: a U16 |v| v);
bits!(A32 / 1: a U32 |v| v);
bits!(AF64 / 1: a F64 |v| v.to_bits());
bits!(P2 / 2: a F32 |v| v.to_bits(), b U8 |v| v);
bits!(M2 / 2: a U8 |v| v, b U16 |v| v);
bits!(Q2 / 2: a U32 |v| v, b F32 |v| v.to_bits());
bits!(B2 / 2: a U8 |v| v, b U8 |v| v);
bits!(U3 / 3: a F32 |v| v.to_bits(), b U16 |v| v, c U16 |v| v);

fn pick(n: u32) -> usize {
    if n == 0 { 0 } else { (kani::any::<u32>() % n) as usize }
}
fn chance(n: u32) -> bool {
    kani::any::<u32>() % n == 0
}
fn size_of_code(c: u8) -> u32 {
    datatype_size(c).unwrap_or(1)
}

/// A message for the requested fields: mostly well-formed, sometimes not; and whether it is well-formed.
pub fn any_message<const N: usize, C: Bits<N>>() -> (Msg, bool) {
    let step: u32 = 1 + pick(24) as u32;
    let mut fields: Vec<PointFieldMsg> = Vec::new();
    let style = pick(4);
    let mut packed = 0u32;
    for i in 0..N {
        let code = if chance(12) { kani::any::<u8>() % 10 } else { C::CODES[i] };
        let need = size_of_code(code);
        let off = match style {
            0 => packed,
            1 => {
                // natural alignment, as in memory
                let a = (packed + need - 1) / need * need;
                packed = a;
                a
            }
            2 => pick(step) as u32,
            _ => if step >= need { pick(step - need + 1) as u32 } else { 0 },
        };
        packed += need;
        let off = if chance(40) { kani::any() } else { off };
        fields.push(fld(C::NAMES[i], code, off));
    }
    if chance(3) {
        let k = pick(N as u32);
        fields.swap(0, k);
    }
    for j in 0..pick(3) {
        let at = pick(fields.len() as u32 + 1);
        fields.insert(at, fld(["x", "y", "z"][j], kani::any::<u8>() % 9, pick(30) as u32));
    }
    if chance(20) {
        let k = pick(fields.len() as u32);
        fields.remove(k);
    }
    let step = if style < 2 && !chance(4) { packed.max(1) + if chance(3) { pick(8) as u32 } else { 0 } } else { step };
    let (mut w, mut h) = (pick(6) as u32, 1 + pick(3) as u32);
    let len = (step * w * h) as usize;
    let mut len2 = len;
    if chance(10) {
        len2 = pick(100);
    }
    if chance(30) {
        w = kani::any();
    }
    if chance(30) {
        h = kani::any();
    }
    let step = if chance(40) { kani::any() } else { step };
    let data: Vec<u8> = (0..len2).map(|_| kani::any::<u32>() as u8).collect();
    let m = msg(fields, any_endian(), step, w, h, data);
    let mut good = (w as u128) * (h as u128) * (step as u128) == len2 as u128;
    for n in C::NAMES {
        match m.fields.iter().find(|f| f.name == n) {
            Some(f) => good = good && (1..=8).contains(&f.datatype) && f.offset as u64 + size_of_code(f.datatype) as u64 <= step as u64,
            None => good = false,
        }
    }
    (m, good)
}

/// The value of field `i` of point `k`, where the message declares the requested datatype.
pub fn expected<const N: usize, C: Bits<N>>(m: &Msg, k: usize, i: usize) -> Option<u64> {
    let f = m.fields.iter().find(|f| f.name == C::NAMES[i]).unwrap();
    if f.datatype != C::CODES[i] {
        return None;
    }
    let big = m.endian == Endian::Big;
    Some(spec_num(&m.data, k * m.point_step as usize + f.offset as usize, size_of_code(f.datatype) as usize, big))
}

pub fn same_points<const N: usize, C: Bits<N>>(m: &Msg, from: usize, got: &[C]) {
    for (j, p) in got.iter().enumerate() {
        let b = p.bits();
        for i in 0..N {
            if let Some(e) = expected::<N, C>(m, from + j, i) {
                assert!(b[i] == e, "point {} field {}: {:x} instead of {:x}", from + j, C::NAMES[i], b[i], e);
            }
        }
    }
}

pub fn count(m: &Msg) -> usize {
    m.dimensions.width as usize * m.dimensions.height as usize
}

/// A zeroed cloud of more than 4 GiB (lazily mapped), with one marked point far inside.
pub fn huge<const N: usize, C: Bits<N>>(step: u32, h: u32) -> (Msg, usize) {
    let points = (5usize << 30) / step as usize;
    let w = points / h as usize;
    let mut data = vec![0u8; w * h as usize * step as usize];
    let n = w * h as usize;
    let k = n - 1 - pick(1000);
    for b in 0..step.min(16) as usize {
        data[k * step as usize + b] = kani::any::<u32>() as u8;
    }
    let mut fields = Vec::new();
    let mut o = 0;
    for i in 0..N {
        fields.push(fld(C::NAMES[i], C::CODES[i], o));
        o += size_of_code(C::CODES[i]);
    }
    (msg(fields, any_endian(), step, w as u32, h, data), k)
}
