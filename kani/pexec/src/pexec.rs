//! Executed instances with rayon's real scheduler: a bounded stand-in, never counted as proved.
use crate::support::*;
use rayon::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

macro_rules! instance {
    (fn $h:ident() $b:block) => {
        #[test]
        fn $h() {
            fn body() $b
            crate::kani::instance(stringify!($h), body)
        }
    };
}

const N: usize = 60_002;

/// `N` points in `h` rows, point `i` holding `i` and a byte of it.
fn cloud(h: u32) -> Msg {
    let step = 7;
    let mut data = vec![0u8; step * N];
    for i in 0..N {
        data[step * i + 1..][..4].copy_from_slice(&(i as f32).to_le_bytes());
        data[step * i + 6] = i as u8;
    }
    msg(vec![fld("b", U8, 6), fld("a", F32, 1)], Endian::Little, step as u32, N as u32 / h, h, data)
}
fn pool(t: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap()
}
fn ok(p: &P2, i: usize) -> bool {
    p.a == i as f32 && p.b == i as u8
}

instance! {
fn x10_order_of_a_collected_cloud() {
    for t in [1, 2, 3, 8] {
        let v: Vec<P2> = pool(t).install(|| cloud(2).try_into_par_iter().unwrap().collect());
        assert!(v.len() == N, "{} of {N} points with {t} threads", v.len());
        for i in 0..N {
            assert!(ok(&v[i], i), "point {i} is {:?} with {t} threads", v[i].a);
        }
    }
}
}
instance! {
fn x10_every_point_once() {
    for t in [2, 8] {
        let seen: Vec<AtomicU32> = (0..N).map(|_| AtomicU32::new(0)).collect();
        pool(t).install(|| {
            cloud(2).try_into_par_iter::<2, P2>().unwrap().for_each(|p| {
                assert!(p.b == p.a as usize as u8, "mixed point");
                seen[p.a as usize].fetch_add(1, SeqCst);
            })
        });
        assert!(seen.iter().all(|s| s.load(SeqCst) == 1), "every point once with {t} threads");
    }
}
}
// consumed from both ends first; small pieces; reversed; adaptors that use the length
instance! {
fn x10_after_partial_consumption() {
    for t in [1, 4] {
        pool(t).install(|| {
            let some = || {
                let mut it = PointCloudIterator::<2, P2>::try_from(cloud(1)).unwrap();
                for i in 0..100 {
                    assert!(ok(&it.next().unwrap(), i), "front");
                }
                for i in 0..57 {
                    assert!(ok(&it.next_back().unwrap(), N - 1 - i), "back");
                }
                it
            };
            let n = N - 157;
            let v: Vec<(usize, P2)> = IndexedParallelIterator::enumerate(some()).with_max_len(3).collect();
            assert!(v.len() == n, "remaining points");
            for i in 0..n {
                assert!(v[i].0 == i && ok(&v[i].1, 100 + i), "point {i}");
            }
            let v: Vec<P2> = ParallelIterator::collect(IndexedParallelIterator::rev(some()));
            assert!(v.len() == n && (0..n).all(|i| ok(&v[i], N - 58 - i)), "reversed");
            let v: Vec<P2> = ParallelIterator::collect(IndexedParallelIterator::take(IndexedParallelIterator::skip(some(), 1000), 3001));
            assert!(v.len() == 3001 && (0..3001).all(|i| ok(&v[i], 1100 + i)), "skip and take");
            let v: Vec<(P2, usize)> = ParallelIterator::collect(IndexedParallelIterator::zip(some(), (0..n).into_par_iter()));
            assert!(v.len() == n && v.iter().all(|(p, i)| ok(p, 100 + i)), "zip");
        });
    }
}
}
instance! {
fn x06_parallel_source() {
    for t in [1, 2, 8] {
        for n in [0usize, 1, 2, 1000, 30_001] {
            pool(t).install(|| {
                let p = |i: usize| P2 { a: i as f32, b: i as u8 };
                let want = PointCloud2Msg::try_from_vec((0..n).map(p).collect::<Vec<_>>()).unwrap();
                let got = PointCloud2Msg::try_from_par_iter((0..n).into_par_iter().map(p)).unwrap();
                let odd = PointCloud2Msg::try_from_par_iter((0..2 * n).into_par_iter().filter(|i| i % 2 == 1).map(|i| p(i / 2))).unwrap();
                for m in [got, odd] {
                    assert!(m.dimensions.width == want.dimensions.width && m.dimensions.height == want.dimensions.height && m.point_step == want.point_step && m.row_step == want.row_step
                        && m.fields.iter().zip(&want.fields).all(|(a, b)| a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count) && m.fields.len() == want.fields.len() && m.data.len() == want.data.len(), "description of {n} points with {t} threads");
                    let v: Vec<P2> = m.try_into_vec().unwrap();
                    assert!(v.len() == n && (0..n).all(|i| ok(&v[i], i)), "{n} points with {t} threads");
                }
            });
        }
    }
}
}
