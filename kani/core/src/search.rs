//! Native searches over the public interface; see common/search.rs.
use crate::support::*;
use ros_pointcloud2::iterator::PointCloudIterator;
include!("../../common/search.rs");

fn read<const N: usize, C: Bits<N>>() {
    let (m, good) = any_message::<N, C>();
    let (m2, m3) = (m.clone(), m.clone());
    match m2.try_into_iter::<N, C>() {
        Ok(it) => {
            assert!(good, "a malformed message is accepted: {m:?}");
            let n = count(&m);
            let mut got = Vec::new();
            let mut it = it;
            loop {
                let (lo, hi) = it.size_hint();
                assert!(lo == n - got.len() && hi == Some(lo), "size hint {lo} {hi:?} of {}", n - got.len());
                match it.next() {
                    Some(p) => got.push(p),
                    None => break,
                }
                assert!(got.len() <= n, "too many points");
            }
            assert!(got.len() == n, "{} instead of {n} points", got.len());
            assert!(it.next().is_none(), "fused");
            same_points::<N, C>(&m, 0, &got);
            let v = match m3.try_into_vec::<N, C>() {
                Ok(v) => v,
                Err(e) => panic!("try_into_vec rejects what try_into_iter reads: {e} {m:?}"),
            };
            assert!(v.len() == n, "{} instead of {n} points in the vector", v.len());
            for k in 0..n {
                assert!(v[k].bits() == got[k].bits(), "point {k} of the vector differs {m:?}");
            }
        }
        Err(e) => {
            assert!(!good, "a well-formed message is rejected: {e} {m:?}");
            assert!(m3.try_into_vec::<N, C>().is_err(), "try_into_vec accepts a malformed message {m:?}");
            let mut missing: Vec<String> = Vec::new();
            for n in C::NAMES {
                if !m.fields.iter().any(|f| f.name == n) {
                    missing.push(n.into());
                }
            }
            if let MsgConversionError::FieldsNotFound(names) = &e {
                assert!(*names == missing && !missing.is_empty(), "missing fields {missing:?} reported as {names:?}");
            } else {
                assert!(missing.is_empty(), "missing fields {missing:?} reported as {e:?}");
            }
        }
    }
}

fn split<const N: usize, C: Bits<N>>() {
    let (m, good) = any_message::<N, C>();
    if !good {
        return;
    }
    let it = PointCloudIterator::<N, C>::try_from(m.clone()).unwrap();
    let mut parts = vec![(0usize, count(&m), it)];
    for _ in 0..pick(5) {
        let i = pick(parts.len() as u32);
        let (mut from, to, mut it) = parts.remove(i);
        for _ in 0..pick(3) {
            if let Some(p) = it.next() {
                same_points::<N, C>(&m, from, &[p]);
                from += 1;
            }
        }
        assert!(it.size_hint() == (to - from, Some(to - from)), "remaining points");
        let k = pick((to - from) as u32 + 1);
        let (l, r) = it.split_at(k);
        parts.push((from, from + k, l));
        parts.push((from + k, to, r));
    }
    for (from, to, it) in parts {
        let got: Vec<C> = it.take(to - from + 1).collect();
        assert!(got.len() == to - from, "{} instead of {} points in a part", got.len(), to - from);
        same_points::<N, C>(&m, from, &got);
    }
}

proof! { fn n_read() {
    match pick(9) {
        0 => read::<1, A8>(),
        1 => read::<1, A16>(),
        2 => read::<1, A32>(),
        3 => read::<1, AF64>(),
        4 => read::<2, P2>(),
        5 => read::<2, M2>(),
        6 => read::<2, Q2>(),
        7 => read::<2, B2>(),
        _ => read::<3, U3>(),
    }
} }
proof! { fn n_split() {
    match pick(4) {
        0 => split::<1, A8>(),
        1 => split::<1, AF64>(),
        2 => split::<2, P2>(),
        _ => split::<3, U3>(),
    }
} }
proof! { fn n_huge() {
    let (m, k) = huge::<3, U3>(1 << 20, 1 + pick(3) as u32);
    let n = count(&m);
    let spec: Vec<_> = (0..3).map(|i| expected::<3, U3>(&m, k, i)).collect();
    let mut it = PointCloudIterator::<3, U3>::try_from(m).unwrap();
    for j in 0..n {
        assert!(it.size_hint() == (n - j, Some(n - j)), "size hint of a huge cloud");
        let b = it.next().unwrap().bits();
        for i in 0..3 {
            assert!(if j == k { spec[i] == Some(b[i]) } else { b[i] == 0 }, "point {j} of a huge cloud");
        }
    }
    assert!(it.next().is_none(), "points after the end of a huge cloud");
} }
