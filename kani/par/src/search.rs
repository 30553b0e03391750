//! Native searches over the public interface with `rayon`; see common/search.rs.
use crate::support::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
include!("../../common/search.rs");

fn ends<const N: usize, C: Bits<N> + Send + Sync>() {
    let (m, good) = any_message::<N, C>();
    if !good {
        return;
    }
    let n = count(&m);
    let mut parts = vec![(0usize, n, PointCloudIterator::<N, C>::try_from(m.clone()).unwrap())];
    for _ in 0..pick(6) {
        let i = pick(parts.len() as u32);
        let (mut from, mut to, mut it) = parts.remove(i);
        for _ in 0..pick(4) {
            let left = to - from;
            assert!(it.size_hint() == (left, Some(left)), "size hint");
            assert!(ExactSizeIterator::len(&it) == left && IndexedParallelIterator::len(&it) == left, "length");
            assert!(it.opt_len() == Some(left), "optional length");
            let back = chance(2);
            match if back { it.next_back() } else { it.next() } {
                Some(p) => {
                    assert!(left > 0, "a point after the end");
                    if back { to -= 1 }
                    same_points::<N, C>(&m, if back { to } else { from }, &[p]);
                    if !back { from += 1 }
                }
                None => assert!(left == 0, "no point although {left} remain"),
            }
        }
        let k = pick((to - from) as u32 + 1);
        let (l, r) = it.split_at(k);
        parts.push((from, from + k, l));
        parts.push((from + k, to, r));
    }
    for (from, to, mut it) in parts {
        if chance(3) {
            let got: Vec<C> = it.collect_vec();
            assert!(got.len() == to - from, "{} instead of {} points in a part", got.len(), to - from);
            same_points::<N, C>(&m, from, &got);
        } else {
            let mut k = to;
            while let Some(p) = it.next_back() {
                assert!(k > from, "too many points");
                k -= 1;
                same_points::<N, C>(&m, k, &[p]);
            }
            assert!(k == from, "points are missing");
            assert!(it.next().is_none() && it.next_back().is_none(), "fused");
        }
    }
}
trait CollectVec<T> {
    fn collect_vec(self) -> Vec<T>;
}
impl<const N: usize, C: Bits<N> + Send + Sync> CollectVec<C> for PointCloudIterator<N, C> {
    fn collect_vec(self) -> Vec<C> {
        Iterator::collect(self)
    }
}

fn parallel<const N: usize, C: Bits<N> + Send + Sync>() {
    let (m, good) = any_message::<N, C>();
    match m.clone().try_into_par_iter::<N, C>() {
        Ok(it) => {
            assert!(good, "a malformed message is accepted");
            let got: Vec<C> = it.collect();
            assert!(got.len() == count(&m), "{} instead of {} points", got.len(), count(&m));
            same_points::<N, C>(&m, 0, &got);
        }
        Err(_) => assert!(!good, "a well-formed message is rejected"),
    }
}

proof! { fn n_ends() {
    match pick(3) {
        0 => ends::<1, A8>(),
        1 => ends::<2, P2>(),
        _ => ends::<3, U3>(),
    }
} }
proof! { fn n_parallel() {
    match pick(3) {
        0 => parallel::<1, A16>(),
        1 => parallel::<2, Q2>(),
        _ => parallel::<3, U3>(),
    }
} }
proof! { fn n_huge() {
    let (m, k) = huge::<3, U3>(if chance(2) { 16 } else { 1 << 20 }, 1 + pick(3) as u32);
    let n = count(&m);
    let spec: Vec<_> = (0..3).map(|i| expected::<3, U3>(&m, k, i)).collect();
    let it = PointCloudIterator::<3, U3>::try_from(m).unwrap();
    assert!(it.size_hint() == (n, Some(n)), "size hint of a huge cloud");
    let at = k - pick(3.min(k as u32));
    let (l, mut r) = it.split_at(at);
    assert!(l.size_hint().0 == at && r.size_hint().0 == n - at, "size hint of a huge cloud");
    let mut back = Vec::new();
    while back.len() < n - at {
        let p = if chance(2) { r.next() } else { None };
        match p {
            Some(p) => {
                // the front moved: check directly, then restart the count from the back
                let j = at;
                let b = p.bits();
                for i in 0..3 {
                    assert!(if j == k { spec[i] == Some(b[i]) } else { b[i] == 0 }, "point {j} of a huge cloud");
                }
                break;
            }
            None => {
                let j = n - 1 - back.len();
                let b = r.next_back().unwrap().bits();
                for i in 0..3 {
                    assert!(if j == k { spec[i] == Some(b[i]) } else { b[i] == 0 }, "point {j} of a huge cloud");
                }
                back.push(j);
            }
        }
    }
} }
