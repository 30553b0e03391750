//! Executed instances: sizes that neither the verifier nor a search reaches. Run as ordinary tests under
//! AddressSanitizer; a bounded stand-in, never counted as proved.
use crate::support::*;
use ros_pointcloud2::points::*;

macro_rules! instance {
    (fn $h:ident() $b:block) => {
        #[test]
        fn $h() {
            fn body() $b
            crate::kani::instance(stringify!($h), body)
        }
    };
}

fn le(i: usize) -> f32 {
    f32::from_bits((i as u32).wrapping_mul(2_654_435_761) & 0xbfff_ffff)
}

/// Numbers of points around the limits of narrower integers.
const COUNTS: [usize; 8] = [127, 129, 255, 257, 32_769, 65_535, 65_537, 200_003];

instance! {
fn x05_many_points() {
    for n in COUNTS {
        let m = PointCloud2Msg::try_from_iter((0..n).map(|i| P2 { a: le(i), b: i as u8 })).unwrap();
        assert!(m.fields.len() == 2 && m.fields[0].offset == 0 && m.fields[1].offset == 4 && m.point_step == 5, "description");
        assert!(m.dimensions.width as usize == n && m.dimensions.height == 1, "{n} points are described as {}", m.dimensions.width);
        assert!(m.row_step as usize == 5 * n && m.data.len() == 5 * n, "{n} points: row step and buffer");
        for i in 0..n {
            assert!(n4(&m.data, 5 * i, false) == le(i).to_bits() && m.data[5 * i + 4] == i as u8, "point {i} of {n}");
        }
    }
}
}
instance! {
fn x05_single_bytes() {
    let n = (1usize << 20) + 3;
    let m = PointCloud2Msg::try_from_iter((0..n).map(|i| A8 { a: (i % 251) as u8 })).unwrap();
    assert!(m.dimensions.width as usize == n && m.point_step == 1 && m.row_step as usize == n && m.data.len() == n, "description");
    for i in 0..n {
        assert!(m.data[i] == (i % 251) as u8, "point {i}");
    }
}
}
// a source whose size hint says nothing, or too little
instance! {
fn x05_unknown_length() {
    for n in [0usize, 1, 7, 1000] {
        let m = PointCloud2Msg::try_from_iter((0..2 * n).filter(|i| i % 2 == 1).map(|i| A16 { a: i as u16 })).unwrap();
        assert!(m.dimensions.width as usize == n && m.dimensions.height == u32::from(n > 0) && m.row_step as usize == 2 * n && m.data.len() == 2 * n, "description");
        for i in 0..n {
            assert!(n2(&m.data, 2 * i, false) == (2 * i + 1) as u16, "point {i}");
        }
    }
}
}
instance! {
fn x06_many_points() {
    for n in COUNTS {
        let m = PointCloud2Msg::try_from_vec((0..n).map(|i| M2 { a: i as u8, b: (i * 7) as u16 }).collect::<Vec<_>>()).unwrap();
        assert!(m.dimensions.width as usize == n && m.row_step == m.point_step * n as u32 && m.data.len() == m.row_step as usize, "{n} points");
        let (oa, ob, s) = (m.fields[0].offset as usize, m.fields[1].offset as usize, m.point_step as usize);
        for i in 0..n {
            assert!(m.data[s * i + oa] == i as u8 && n2(&m.data, s * i + ob, false) == (i * 7) as u16, "point {i} of {n}");
        }
    }
}
}
macro_rules! both_ways {
    ($n:literal, $t:ident, $count:literal, |$i:ident| $make:expr) => {{
        let same = |a: &$t, b: &$t| {
            let (x, y): (RPCL2Point<$n>, RPCL2Point<$n>) = ((*a).into(), (*b).into());
            (0..$n).all(|k| x[k].get::<u32>() == y[k].get::<u32>())
        };
        let n: usize = $count;
        let make = |$i: usize| -> $t { $make };
        let p: Vec<$t> = (0..n).map(make).collect();
        let a = PointCloud2Msg::try_from_iter(p.clone()).unwrap();
        let b = PointCloud2Msg::try_from_vec(p.clone()).unwrap();
        for m in [a, b] {
            let i: Vec<$t> = m.clone().try_into_iter().unwrap().collect();
            let v: Vec<$t> = m.try_into_vec().unwrap();
            assert!(i.len() == n && v.len() == n, "number of points");
            for k in 0..n {
                assert!(same(&p[k], &i[k]) && same(&p[k], &v[k]), "point {k} of type {}", stringify!($t));
            }
        }
    }};
}
instance! {
fn x07_many_points() {
    both_ways!(3, PointXYZ, 3_001, |i| PointXYZ::new(le(i), le(i + 1), le(i + 2)));
    both_ways!(4, PointXYZI, 3_001, |i| PointXYZI::new(le(i), le(i + 1), le(i + 2), le(i + 3)));
    both_ways!(4, PointXYZL, 3_001, |i| PointXYZL::new(le(i), le(i + 1), le(i + 2), i as u32));
    both_ways!(4, PointXYZRGB, 3_001, |i| PointXYZRGB::new(le(i), le(i + 1), le(i + 2), i as u8, (i >> 8) as u8, (i >> 16) as u8));
    both_ways!(5, PointXYZRGBA, 66_001, |i| PointXYZRGBA::new(le(i), le(i + 1), le(i + 2), i as u8, (i >> 8) as u8, (i >> 16) as u8, !i as u8));
    both_ways!(5, PointXYZRGBL, 3_001, |i| PointXYZRGBL::new(le(i), le(i + 1), le(i + 2), i as u8, (i >> 8) as u8, (i >> 16) as u8, i as u32));
    both_ways!(6, PointXYZNormal, 3_001, |i| PointXYZNormal::new(le(i), le(i + 1), le(i + 2), le(i + 3), le(i + 4), le(i + 5)));
    both_ways!(7, PointXYZRGBNormal, 3_001, |i| PointXYZRGBNormal::new(le(i), le(i + 1), le(i + 2), RGB::new(i as u8, (i >> 8) as u8, (i >> 16) as u8), le(i + 4), le(i + 5), le(i + 6)));
    both_ways!(7, PointXYZINormal, 3_001, |i| PointXYZINormal::new(le(i), le(i + 1), le(i + 2), le(i + 3), le(i + 4), le(i + 5), le(i + 6)));
}
}
/// 4.5 GiB of zeros (lazily mapped) with a mark in every point.
fn marked(step: u32, w: u32, h: u32, fields: Vec<PointFieldMsg>) -> Msg {
    let n = w as usize * h as usize;
    let mut data = vec![0u8; step as usize * n];
    for i in 0..n {
        data[i * step as usize..][..4].copy_from_slice(&(i as u32 + 1).to_le_bytes());
    }
    msg(fields, Endian::Little, step, w, h, data)
}
instance! {
fn x02_beyond_32_bit() {
    let f = vec![fld("a", U32, 0)];
    for (k, p) in marked(1 << 26, 23, 3, f).try_into_iter::<1, A32>().unwrap().enumerate() {
        assert!(p.a == k as u32 + 1, "point {k} has the value of point {}", p.a as i64 - 1);
    }
}
}
instance! {
fn x03_beyond_32_bit() {
    let f = vec![fld("a", U32, 0), fld("b", F32, 4)];
    let m = marked((1 << 26) + 4, 23, 3, f);
    let v: Vec<Q2> = m.try_into_vec().unwrap();
    assert!(v.len() == 69, "all points");
    for (k, p) in v.iter().enumerate() {
        assert!(p.a == k as u32 + 1 && p.b == 0.0, "point {k} has the value of point {}", p.a as i64 - 1);
    }
}
}
instance! {
fn x03_many_points() {
    // one more byte per point than the type has, and exactly as many
    for (step, n) in [(8usize, 70_001usize), (9, 70_001)] {
        let mut data = vec![0u8; step * n];
        for i in 0..n {
            data[step * i..][..8].copy_from_slice(&(i as u64 * 0x1_0000_0001).to_le_bytes());
        }
        let m = msg(vec![fld("a", U32, 0), fld("b", F32, 4)], Endian::Little, step as u32, n as u32, 1, data);
        let v: Vec<Q2> = m.try_into_vec().unwrap();
        assert!(v.len() == n, "all points");
        for i in 0..n {
            assert!(v[i].a == i as u32 && v[i].b.to_bits() == i as u32, "point {i} with step {step}");
        }
    }
}
}
instance! {
fn x14_more_than_a_message_holds() {
    // row step 2^32
    let n = 1usize << 29;
    let r = PointCloud2Msg::try_from_iter((0..n).map(|_| AF64::default()));
    assert!(matches!(r, Err(MsgConversionError::NumberConversion)), "2^32 bytes do not fit the row step");
}
}
