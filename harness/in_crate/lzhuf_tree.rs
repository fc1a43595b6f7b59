// The adaptive code at a small alphabet: any state that satisfies the
// invariant (every topology, every labelling, arbitrary frequencies).
use crate::verif::sx;

const L: usize = N_CHAR as usize;
const TN: usize = T as usize;

/// Every tree the coder can be in: children by choice, frequencies symbolic.
fn any_state() -> LzHufState {
    let mut s = LzHufState::new();
    let mut leaf_used = [false; L];
    let mut pair_used = [false; L];
    let mut leaves = 0;
    for i in 0..TN {
        // internal nodes and leaves in any order; a node's pair lies below it
        let mut can = vec![];
        for c in 0..L {
            if !leaf_used[c] {
                can.push(TN + c);
            }
        }
        for m in 0..L - 1 {
            if !pair_used[m] && 2 * m + 1 < i {
                can.push(2 * m);
            }
        }
        if can.is_empty() {
            sx::assume(false);
        }
        let k = can[sx::pick(can.len() as u32)];
        if k >= TN {
            leaf_used[k - TN] = true;
            leaves += 1;
            s.parents[k] = i as u16;
        } else {
            pair_used[k / 2] = true;
            s.parents[k] = i as u16;
            s.parents[k + 1] = i as u16;
        }
        s.children[i] = k as u16;
    }
    sx::assume(leaves == L && pair_used[..L - 1].iter().all(|&b| b));
    s.parents[R as usize] = 0;
    // frequencies: leaves arbitrary, inner nodes the sum, ascending, the root at most the limit
    let f = &mut s.frequency_table;
    for i in 0..TN {
        let k = s.children[i] as usize;
        f[i] = if k >= TN {
            let x = if MAX_FREQ < 256 { sx::byte() as u16 } else { sx::u16() };
            sx::assume((x >= 1) & (x <= MAX_FREQ));
            x
        } else {
            sx::assume(f[k] <= MAX_FREQ - f[k + 1]);
            f[k].wrapping_add(f[k + 1])
        };
        if i > 0 {
            sx::assume(f[i - 1] <= f[i]);
        }
    }
    s.frequency_table[TN] = 0xffff;
    s
}

fn copy_of(s: &LzHufState) -> LzHufState {
    let mut t = LzHufState::new();
    t.frequency_table = s.frequency_table;
    t.parents = s.parents;
    t.children = s.children;
    t
}

/// The invariant: shape, order and sums.
fn check_state(s: &LzHufState) {
    let mut leaf_used = [false; L];
    let mut pair_used = [false; L];
    for i in 0..TN {
        let k = sx::fork(s.children[i] as u64) as usize;
        if k >= TN {
            sx::check(k < TN + L && !leaf_used[k - TN], "every symbol sits on one leaf");
            leaf_used[k - TN] = true;
            sx::check(s.parents[k] as usize == i, "a leaf knows its node");
            sx::check(s.frequency_table[i] >= 1, "no frequency is zero");
        } else {
            sx::check(k % 2 == 0 && k + 1 < i && !pair_used[k / 2], "every pair has one parent, above it");
            pair_used[k / 2] = true;
            sx::check(s.parents[k] as usize == i && s.parents[k + 1] as usize == i, "a pair knows its parent");
            sx::check(
                s.frequency_table[i] == s.frequency_table[k].wrapping_add(s.frequency_table[k + 1]),
                "a node's frequency is the sum of its children's",
            );
        }
        if i > 0 {
            sx::check(s.frequency_table[i - 1] <= s.frequency_table[i], "frequencies ascend");
        }
    }
    sx::check(leaf_used.iter().all(|&b| b), "every symbol has a code");
    sx::check(s.parents[R as usize] == 0, "the root has no parent");
    sx::check(s.frequency_table[R as usize] <= MAX_FREQ, "the root's frequency stays within the limit");
    sx::check(s.frequency_table[TN] == 0xffff, "the sentinel stays in place");
}

/// Any state, any symbol: it is decoded as encoded, and both sides move to the
/// same state, which satisfies the invariant again.
pub fn tree_step() {
    let before = any_state();
    let c = sx::pick(L as u32) as u16;
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out);
    e.state = copy_of(&before);
    e.encode_char(c);
    check_state(&e.state);
    let after = copy_of(&e.state);
    e.finish();
    let mut d = Decoder::new(out.iter().copied());
    d.state = before;
    sx::check(d.decode_char() == Some(c), "a symbol is decoded as it was encoded");
    let mut same = true;
    for i in 0..TN {
        same &= (after.frequency_table[i] == d.state.frequency_table[i]) & (after.children[i] == d.state.children[i]);
    }
    for i in 0..TN + L {
        same &= after.parents[i] == d.state.parents[i];
    }
    sx::check(same, "both sides end in the same state");
    sx::cover(1);
}

/// The first state satisfies the invariant.
pub fn tree_start() {
    check_state(&LzHufState::new());
    sx::cover(1);
}

/// A rebuild from any state leaves the invariant in place and halves the frequencies.
pub fn tree_rebuild() {
    let mut s = any_state();
    let mut want = [0u16; L];
    for i in 0..TN {
        let k = s.children[i] as usize;
        if k >= TN {
            want[k - TN] = (s.frequency_table[i] + 1) / 2;
        }
    }
    s.reconstruct();
    check_state(&s);
    for i in 0..TN {
        let k = sx::fork(s.children[i] as u64) as usize;
        if k >= TN {
            sx::check(s.frequency_table[i] == want[k - TN], "a rebuild halves every symbol's frequency, rounding up");
        }
    }
    sx::cover(1);
}
