//! What rayon drives: the producer behind `with_producer`.
use crate::support::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use ros_pointcloud2::iterator::PointCloudIterator;

type It<const N: usize, C> = PointCloudIterator<N, C>;

/// Splits at `j`, the right part again at `k`, and consumes the parts in any order, each from any end.
struct Drive<const W: usize> {
    d: [u8; W],
    j: usize,
    k: usize,
}
fn part<P: Producer<Item = A8>, const W: usize>(p: P, d: &[u8; W], from: usize, to: usize, backwards: bool) {
    let mut it = p.into_iter();
    assert!(it.len() == to - from, "length of the part");
    if backwards {
        let mut at = to;
        while let Some(q) = it.next_back() {
            assert!(at > from && q.a == d[at - 1], "points of the part, backwards");
            at -= 1;
        }
        assert!(at == from, "part is complete");
    } else {
        let mut at = from;
        while let Some(q) = it.next() {
            assert!(at < to && q.a == d[at], "points of the part, in order");
            at += 1;
        }
        assert!(at == to, "part is complete");
    }
    core::mem::forget(it);
}
impl<const W: usize> ProducerCallback<A8> for Drive<W> {
    type Output = ();
    fn callback<P: Producer<Item = A8>>(self, p: P) {
        let (a, b) = p.split_at(self.j);
        let (b, c) = b.split_at(self.k);
        part(c, &self.d, self.j + self.k, W, true);
        part(a, &self.d, 0, self.j, false);
        part(b, &self.d, self.j, self.j + self.k, kani::any());
    }
}
fn drive<const W: usize>() {
    let d: [u8; W] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, W as u32, 1, d.to_vec());
    let it = must!(It::<1, A8>::try_from(m), "well-formed");
    let j: usize = kani::any();
    let k: usize = kani::any();
    kani::assume(j <= W && k <= W - j);
    it.with_producer(Drive::<W> { d, j, k });
    kani::cover!(true, "driven");
}
proof! {
#[kani::unwind(6)]
fn c10_producer() {
    drive::<3>();
}
}
proof! {
#[kani::unwind(6)]
fn c10_producer_empty() {
    drive::<0>();
}
}
