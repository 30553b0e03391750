//! Contracts of the double-ended and parallel operations on every well-formed iterator state (see
//! core/src/state.rs); here the buffer is shared, so splits are covered for any length as well.
use crate::support::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use ros_pointcloud2::iterator::PointCloudIterator;

type It<const N: usize, C> = PointCloudIterator<N, C>;

fn any_state<const N: usize, C: PointConvertible<N>>(
    step: usize,
    offsets: [usize; N],
    types: [FieldDatatype; N],
    max: usize,
) -> (It<N, C>, &'static [u8]) {
    let data = sym_bytes(max);
    let mut pdata: Vec<(String, FieldDatatype)> = Vec::with_capacity(N);
    for i in 0..N {
        kani::assume(offsets[i] <= step && offsets[i] + types[i].size() <= step);
        pdata.push((String::new(), types[i]));
    }
    let it = It::<N, C>::verif_new(data, step, kani::any(), kani::any(), kani::any(), kani::any(), offsets, pdata, any_endian());
    let s = it.verif_state();
    kani::assume(s.well_formed());
    let view: &'static [u8] = unsafe { core::slice::from_raw_parts(s.at as *const u8, s.len) };
    (it, view)
}

macro_rules! end_contract {
    ($h:ident, $op:ident, $back:literal, $t:ident, $step:expr, $d:ident, |$p:ident, $v:ident, $at:ident, $big:ident| $e:expr) => {
        proof! {
        #[kani::unwind(5)]
        fn $h() {
            let o: usize = kani::any();
            let (mut it, $v) = any_state::<1, $t>($step, [o], [FieldDatatype::$d], 1 << 40);
            let s = it.verif_state();
            let $big = s.endian == Endian::Big;
            match it.$op() {
                Some($p) => {
                    assert!(s.iteration < s.iteration_back, "a point only while points remain");
                    let $at = if $back { s.last() - 1 } else { s.first() } * $step + o;
                    assert!($e, "the point at this end");
                    let n = it.verif_state();
                    assert!(n.well_formed(), "invariant kept");
                    if $back {
                        assert!(n.first() == s.first() && n.last() + 1 == s.last(), "one point consumed at the back");
                    } else {
                        assert!(n.first() == s.first() + 1 && n.last() == s.last(), "one point consumed at the front");
                    }
                    assert!(n.step == s.step && n.len == s.len && n.at == s.at && n.endian == s.endian && it.verif_offsets()[0] == o, "nothing else changed");
                    kani::cover!($at > 1 << 33, "far inside of a huge cloud");
                }
                None => {
                    assert!(s.iteration == s.iteration_back, "None only at the end");
                    assert!(it.verif_state() == s, "nothing changed at the end");
                    kani::cover!(true, "exhausted");
                }
            }
            core::mem::forget(it);
        }
        }
    };
}
end_contract!(s_next_u16, next, false, A16, 5, U16, |p, v, at, big| p.a == n2(v, at, big));
end_contract!(s_next_back_u8, next_back, true, A8, 3, U8, |p, v, at, big| p.a == v[at]);
end_contract!(s_next_back_u16, next_back, true, A16, 5, U16, |p, v, at, big| p.a == n2(v, at, big));
end_contract!(s_next_back_f64, next_back, true, AF64, 24, F64, |p, v, at, big| p.a.to_bits() == n8(v, at, big));

proof! {
#[kani::unwind(5)]
fn s_lengths() {
    let (it, _v) = any_state::<1, A8>(3, [0], [FieldDatatype::U8], 1 << 40);
    let s = it.verif_state();
    let n = s.remaining();
    assert!(it.size_hint() == (n, Some(n)), "size hint");
    assert!(ExactSizeIterator::len(&it) == n, "exact size");
    assert!(IndexedParallelIterator::len(&it) == n, "length of the parallel iterator");
    assert!(it.opt_len() == Some(n), "optional length of the parallel iterator");
    assert!(it.verif_state() == s, "nothing changed");
    core::mem::forget(it);
}
}
proof! {
#[kani::unwind(5)]
fn s_split_any_length() {
    let (it, _v) = any_state::<1, A16>(5, [1], [FieldDatatype::U16], 1 << 40);
    let s = it.verif_state();
    let k: usize = kani::any();
    kani::assume(k <= s.remaining());
    let (l, r) = it.split_at(k);
    let (a, b) = (l.verif_state(), r.verif_state());
    assert!(a.well_formed() && b.well_formed(), "invariant in both halves");
    assert!(a.first() == s.first() && a.last() == s.first() + k, "left half");
    assert!(b.first() == s.first() + k && b.last() == s.last(), "right half");
    assert!(a.at == s.at && b.at == s.at && a.len == s.len && b.len == s.len, "same buffer");
    assert!(a.step == 5 && b.step == 5 && a.endian == s.endian && b.endian == s.endian, "same description");
    assert!(l.verif_offsets()[0] == 1 && r.verif_offsets()[0] == 1, "same fields");
    assert!(l.verif_datatype(0) == FieldDatatype::U16 && r.verif_datatype(0) == FieldDatatype::U16, "same datatypes");
    kani::cover!(k > 1 << 33, "split of a huge cloud");
    core::mem::forget((l, r));
}
}

/// The producer handed to rayon splits like the iterator.
struct SplitOnce {
    k: usize,
    n: usize,
}
impl ProducerCallback<A16> for SplitOnce {
    type Output = ();
    fn callback<P: Producer<Item = A16>>(self, p: P) {
        let (a, b) = p.split_at(self.k);
        let (a, b) = (a.into_iter(), b.into_iter());
        assert!(a.len() == self.k && b.len() == self.n - self.k, "sizes of the halves");
        core::mem::forget((a, b));
    }
}
proof! {
#[kani::unwind(5)]
fn s_producer_any_length() {
    let (it, _v) = any_state::<1, A16>(5, [1], [FieldDatatype::U16], 1 << 40);
    let n = it.verif_state().remaining();
    let k: usize = kani::any();
    kani::assume(k <= n);
    it.with_producer(SplitOnce { k, n });
}
}
