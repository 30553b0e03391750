//! The copying loop of `try_into_vec` for any number of points: one arbitrary iteration from an arbitrary loop state.
//!
//! `Range::next` and `Vec::push` enter through stand-ins that keep their documented meaning for one iteration: the
//! range yields an arbitrary one of its values and ends, and before that value is pushed the vector is put into the state
//! after that many pushes (as many elements, with arbitrary contents).
use crate::support::*;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static AT: AtomicUsize = AtomicUsize::new(usize::MAX);
static CHOSEN: AtomicUsize = AtomicUsize::new(0);
static MODE: AtomicUsize = AtomicUsize::new(0);

/// The successor of a loop counter: in mode 1 an arbitrary later one, in mode 2 one behind the end.
pub unsafe fn successor(i: usize, n: usize) -> usize {
    match MODE.load(Relaxed) {
        1 => {
            MODE.store(2, Relaxed);
            let j = CHOSEN.load(Relaxed);
            kani::assume(j > i);
            j
        }
        2 => {
            MODE.store(3, Relaxed);
            AT.store(i, Relaxed);
            usize::MAX
        }
        _ => i + n,
    }
}
pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    unsafe {
        if core::mem::size_of::<T>() == 8 && core::mem::align_of::<T>() == 4 {
            match MODE.load(Relaxed) {
                0 => MODE.store(1, Relaxed),
                3 => {
                    let i = AT.load(Relaxed);
                    assert!(v.len() == 2, "unsupported: the loop state is not found");
                    assert!(v.capacity() > i, "unsupported: the vector grows in the loop");
                    v.set_len(i);
                    MODE.store(4, Relaxed);
                }
                1 | 2 => (),
                _ => {
                    assert!(false, "unsupported: the loop state is not found");
                    kani::assume(false);
                }
            }
            assert!(v.len() < v.capacity(), "unsupported: the vector grows in the loop");
            kani::assume(v.len() < v.capacity());
        } else if v.len() == v.capacity() {
            v.reserve(1);
        }
        let n = v.len();
        core::ptr::write(v.as_mut_ptr().add(n), x);
        v.set_len(n + 1);
    }
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(<usize as core::iter::Step>::forward_unchecked, successor)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(<ros_pointcloud2::KnownLayoutInfo as core::convert::TryFrom<ros_pointcloud2::LayoutDescription>>::try_from, ros_pointcloud2::verif::q2::contract)]
fn c03_overlap_any_number() {
    const S: usize = 12;
    let data = sym_bytes(1 << 40);
    let len = data.len();
    let w: u32 = kani::any();
    let i: usize = kani::any();
    kani::assume(w > 8 && i > 1 && i < w as usize);
    CHOSEN.store(i, Relaxed);
    let wellformed = len == w as usize * S;
    let want = if wellformed { (n4(&data, i * S, false), n4(&data, i * S + 4, false)) } else { (0, 0) };
    let m = msg(vec![fld("a", U32, 0), fld("b", F32, 4)], Endian::Little, S as u32, w, 1, data);
    match m.try_into_vec::<2, Q2>() {
        Ok(v) => {
            assert!(wellformed, "accepted only when well-formed");
            assert!(MODE.load(Relaxed) == 4 && AT.load(Relaxed) == i, "unsupported: the loop state is not found");
            assert!(v.len() == i + 1, "one point per iteration");
            assert!(v[i].a == want.0 && v[i].b.to_bits() == want.1, "the point of the iteration");
            kani::cover!(i > 1 << 31, "far inside");
            core::mem::forget(v);
        }
        Err(e) => {
            assert!(!wellformed, "well-formed is accepted");
            core::mem::forget(e);
        }
    }
}
