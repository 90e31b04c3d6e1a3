//! Linearizability of a history of calls on one object (Wing and Gong's search
//! with Lowe's memoization).
use std::collections::HashSet;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct Call<O> {
    /// when it was invoked and when it was answered
    pub inv: u64,
    pub res: u64,
    pub op: O,
    /// it may never have happened
    pub optional: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Yes,
    No,
    /// the search was given up
    Open,
}

/// `apply` yields the next state if the call can happen (with its result) in a state;
/// `pure` says that a call never changes the state
pub fn check<S, O>(init: S, calls: &[Call<O>], apply: impl Fn(&S, &O) -> Option<S>, pure: impl Fn(&O) -> bool, limit: usize) -> (Verdict, usize)
where
    S: Clone + Eq + Hash,
{
    let n = calls.len();
    let words = n.div_ceil(64);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| calls[i].inv);
    let has = |set: &[u64], i: usize| set[i / 64] >> (i % 64) & 1 == 1;
    let mut seen: HashSet<(Vec<u64>, S)> = HashSet::new();
    let mut stack: Vec<(Vec<u64>, S)> = vec![(vec![0; words], init)];
    let mut steps = 0;
    while let Some((mut set, state)) = stack.pop() {
        steps += 1;
        if steps > limit {
            return (Verdict::Open, steps);
        }
        // reads that fit happen now
        let mut horizon;
        loop {
            horizon = (0..n).filter(|&i| !has(&set, i)).map(|i| calls[i].res).min().unwrap_or(u64::MAX);
            let next = order.iter().copied().find(|&i| {
                !has(&set, i) && calls[i].inv <= horizon && pure(&calls[i].op) && apply(&state, &calls[i].op).is_some()
            });
            match next {
                Some(i) => set[i / 64] |= 1 << (i % 64),
                None => break,
            }
        }
        if (0..n).all(|i| has(&set, i) || calls[i].optional) {
            return (Verdict::Yes, steps);
        }
        if !seen.insert((set.clone(), state.clone())) {
            continue;
        }
        for &i in order.iter().rev() {
            if has(&set, i) || calls[i].inv > horizon || pure(&calls[i].op) {
                continue;
            }
            if let Some(s) = apply(&state, &calls[i].op) {
                let mut t = set.clone();
                t[i / 64] |= 1 << (i % 64);
                stack.push((t, s));
            }
        }
    }
    (Verdict::No, steps)
}
