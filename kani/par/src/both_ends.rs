//! Consuming from both ends, lengths and splits with the `rayon` feature.
use crate::support::*;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use ros_pointcloud2::iterator::PointCloudIterator;

type It<const N: usize, C> = PointCloudIterator<N, C>;

fn remaining(it: &It<1, A8>, n: usize) -> bool {
    it.size_hint() == (n, Some(n))
        && ExactSizeIterator::len(it) == n
        && IndexedParallelIterator::len(it) == n
        && it.opt_len() == Some(n)
}

// every interleaving of front and back of a cloud with W points
fn both_ends<const W: usize>() {
    let d: [u8; W] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, W as u32, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    let (mut lo, mut hi) = (0usize, W);
    for _ in 0..W + 2 {
        assert!(remaining(&it, hi - lo), "every length is the number of remaining points");
        if kani::any() {
            match it.next() {
                Some(p) => {
                    assert!(lo < hi && p.a == d[lo], "first remaining point");
                    lo += 1;
                }
                None => assert!(lo == hi, "None only at the end"),
            }
        } else {
            match it.next_back() {
                Some(p) => {
                    assert!(lo < hi && p.a == d[hi - 1], "last remaining point");
                    hi -= 1;
                }
                None => assert!(lo == hi, "None only at the end"),
            }
        }
    }
    kani::cover!(lo == 0, "all from the back");
    kani::cover!(hi == W, "all from the front");
    core::mem::forget(it);
}
proof! {
#[kani::unwind(7)]
fn c09_both_ends() {
    both_ends::<3>();
}
}
proof! {
#[kani::unwind(7)]
fn c09_both_ends_empty() {
    both_ends::<0>();
}
}

// split after consuming from both ends
proof! {
#[kani::unwind(7)]
fn c10_split_between_the_ends() {
    let d: [u8; 4] = kani::any();
    let m = msg(vec![fld("a", U8, 0)], any_endian(), 1, 4, 1, d.to_vec());
    let mut it = must!(It::<1, A8>::try_from(m), "well-formed");
    let front: bool = kani::any();
    let back: bool = kani::any();
    let lo = if front { 1 } else { 0 };
    let hi = if back { 3 } else { 4 };
    if front {
        let _ = it.next();
    }
    if back {
        let _ = it.next_back();
    }
    let k: usize = kani::any();
    kani::assume(k <= hi - lo);
    let (mut l, mut r) = it.split_at(k);
    assert!(remaining(&l, k) && remaining(&r, hi - lo - k), "sizes of the halves");
    let mut at = lo;
    while let Some(p) = l.next() {
        assert!(at < hi && p.a == d[at], "left half in order");
        at += 1;
    }
    assert!(at == lo + k, "left half is complete");
    let mut end = hi;
    while let Some(p) = r.next_back() {
        assert!(end > at && p.a == d[end - 1], "right half backwards");
        end -= 1;
    }
    assert!(end == at, "nothing lost, nothing repeated");
    core::mem::forget((l, r));
}
}
