// Lemmas over mathematical integers that the Kani contracts use but CBMC cannot prove at 64 bit.
use vstd::prelude::*;

verus! {

/// `kani/core/src/state.rs` (`s_next_any_step_*`): a point in front of `end` lies inside of the buffer, and
/// even the position of `end` itself does not exceed it.
proof fn point_in_buffer(i: int, end: int, step: int, len: int)
    requires
        0 <= i <= end,
        0 <= step,
        end * step <= len,
    ensures
        0 <= i * step <= len,
        i < end ==> i * step + step <= len,
{
    assert(i * step <= end * step) by (nonlinear_arith) requires 0 <= i <= end, 0 <= step;
    assert(0 <= i * step) by (nonlinear_arith) requires 0 <= i, 0 <= step;
    if i < end {
        assert((i + 1) * step <= end * step) by (nonlinear_arith) requires i + 1 <= end, 0 <= step;
        assert((i + 1) * step == i * step + step) by (nonlinear_arith);
    }
}

/// Sum of what the derive macro describes for fields at `offs` with `sizes`, scanned in declared order: a gap
/// becomes padding, a field that starts before the end of the previous one gets none.
spec fn described(offs: Seq<int>, sizes: Seq<int>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else {
        let end = if k == 1 { 0 } else { offs[k - 2] + sizes[k - 2] };
        let gap = if offs[k - 1] > end { offs[k - 1] - end } else { 0 };
        described(offs, sizes, k - 1) + gap + sizes[k - 1]
    }
}

spec fn in_order(offs: Seq<int>, sizes: Seq<int>, k: int) -> bool {
    forall|i: int| #![trigger offs[i]] 0 <= i < k ==> offs[i] >= (if i == 0 { 0 } else { offs[i - 1] + sizes[i - 1] })
}

/// The described sizes never fall below the real end, and meet it exactly when the fields are in memory order
/// (this is why comparing the sum with `size_of` decides whether the memory may be copied).
proof fn described_is_memory(offs: Seq<int>, sizes: Seq<int>, k: int)
    requires
        1 <= k <= offs.len(),
        offs.len() == sizes.len(),
        forall|i: int| 0 <= i < k ==> offs[i] >= 0 && sizes[i] > 0,
    ensures
        described(offs, sizes, k) >= offs[k - 1] + sizes[k - 1],
        described(offs, sizes, k) == offs[k - 1] + sizes[k - 1] <==> in_order(offs, sizes, k),
    decreases k
{
    reveal_with_fuel(described, 2);
    if k > 1 {
        described_is_memory(offs, sizes, k - 1);
        let end = offs[k - 2] + sizes[k - 2];
        if in_order(offs, sizes, k) {
            assert(in_order(offs, sizes, k - 1));
            assert(offs[k - 1] >= end);
        } else if in_order(offs, sizes, k - 1) {
            assert(offs[k - 1] < end) by {
                if offs[k - 1] >= end {
                    assert forall|i: int| #![trigger offs[i]] 0 <= i < k implies offs[i] >= (if i == 0 { 0 } else { offs[i - 1] + sizes[i - 1] }) by {
                        if i < k - 1 { } else { assert(i == k - 1); }
                    }
                    assert(in_order(offs, sizes, k));
                }
            }
        }
    } else {
        assert(in_order(offs, sizes, 1));
    }
}

} // verus!
fn main() {}
