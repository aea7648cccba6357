//! C07: the interval tree is a sorted multimap from closed ranges to values.
use crate::symx::*;
use interval_tree::{range, IntervalTree};

#[derive(Clone, Copy)]
struct Op {
    insert: bool,
    s: u8,
    e: u8,
}

fn le(a: (u8, u8), b: (u8, u8)) -> bool {
    (a.0 < b.0) | ((a.0 == b.0) & (a.1 <= b.1))
}
fn eq(a: (u8, u8), b: (u8, u8)) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}

/// insertion i survives iff no later removal has the same key
fn alive(ops: &[Op], i: usize) -> bool {
    let mut dead = false;
    for j in i + 1..ops.len() {
        if !ops[j].insert {
            dead |= eq((ops[j].s, ops[j].e), (ops[i].s, ops[i].e));
        }
    }
    !dead
}

/// `got` (keys and values in the order produced) is what the history should give, restricted to
/// the insertions for which `want` holds.
fn same(id: &str, ops: &[Op], got: &[((u8, u8), u32)], want: &dyn Fn(usize) -> bool) {
    let mut seen = vec![false; ops.len()];
    let mut prev: Option<((u8, u8), u32)> = None;
    for &(k, v) in got {
        let i = v as usize;
        check(id, i < ops.len() && ops[i].insert && !seen[i]);
        seen[i] = true;
        check(id, eq(k, (ops[i].s, ops[i].e)));
        if let Some((pk, pv)) = prev {
            // ascending, equal keys in insertion order
            check(id, le(pk, k) & (!eq(pk, k) | (pv < v)));
        }
        prev = Some((k, v));
    }
    for i in 0..ops.len() {
        if ops[i].insert {
            check(id, (alive(ops, i) & want(i)) == seen[i]);
        }
    }
}

fn build(ops: &[Op]) -> IntervalTree<u8, u32> {
    let mut t = IntervalTree::new();
    for (i, o) in ops.iter().enumerate() {
        if o.insert {
            t.insert(range(o.s, o.e), i as u32);
        } else {
            t.remove(range(o.s, o.e));
        }
    }
    t
}

fn judge(ops: &[Op]) {
    let mut t = build(ops);
    let all: Vec<_> = t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect();
    same("iter", ops, &all, &|_| true);
    // number of distinct keys bounds the height of a balanced tree
    let mut nodes = 0usize;
    for i in 0..all.len() {
        if i == 0 || all[i - 1].0 != all[i].0 {
            nodes += 1;
        }
    }
    const MINSZ: [usize; 8] = [0, 1, 2, 4, 7, 12, 20, 33];
    check("height", t.height() < 8 && MINSZ[t.height()] <= nodes);
    check("is_empty", t.is_empty() == all.is_empty());
    log(all.len() as u64);
    log(t.height() as u64);

    match choice(4) {
        0 => {
            let (qs, qe) = (any_u8(), any_u8());
            assume(qs <= qe);
            let hit: Vec<_> = t.range(range(qs, qe)).map(|(k, v)| ((k.start, k.end), *v)).collect();
            log(hit.len() as u64);
            same("range", ops, &hit, &|i| (ops[i].s <= qe) & (ops[i].e >= qs));
            reach("range");
        }
        1 => {
            let (qs, qe) = (any_u8(), any_u8());
            assume(qs <= qe);
            let got = t.get(range(qs, qe)).map(|v| v.to_vec());
            check("contains", t.contains(range(qs, qe)) == got.is_some());
            check("get", got.as_ref().map_or(true, |v| !v.is_empty()));
            let hit: Vec<_> = got.unwrap_or_default().into_iter().map(|v| ((qs, qe), v)).collect();
            same("get", ops, &hit, &|i| (ops[i].s == qs) & (ops[i].e == qe));
            reach("get");
        }
        2 => {
            let lo = t.min().map(|(k, v)| ((k.start, k.end), v.to_vec()));
            let hi = t.max().map(|(k, v)| ((k.start, k.end), v.to_vec()));
            match (lo, hi, all.first(), all.last()) {
                (None, None, None, None) => {}
                (Some(lo), Some(hi), Some(f), Some(l)) => {
                    check("min", eq(lo.0, f.0) && lo.1[0] == f.1);
                    check("max", eq(hi.0, l.0) && *hi.1.last().unwrap() == l.1);
                }
                _ => check("minmax", false),
            }
            let owned: Vec<_> = t.into_iter().map(|(k, v)| ((k.start, k.end), v)).collect();
            same("into_iter", ops, &owned, &|_| true);
            reach("into_iter");
        }
        _ => {
            // merging another history's tree adds its entries after ours
            let (s, e) = (any_u8(), any_u8());
            assume(s <= e);
            let mut o = IntervalTree::new();
            o.insert(range(s, e), ops.len() as u32);
            t.merge(o);
            let mut ops = ops.to_vec();
            ops.push(Op { insert: true, s, e });
            let all: Vec<_> = t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect();
            same("merge", &ops, &all, &|_| true);
            reach("merge");
        }
    }
}

/// Any history of `param 0` insertions and removals over arbitrary byte ranges.
pub fn map() {
    let n = param(0) as usize;
    let mut ops = Vec::new();
    for _ in 0..n {
        let insert = choice(2) == 0;
        let (s, e) = (any_u8(), any_u8());
        assume(s <= e);
        ops.push(Op { insert, s, e });
    }
    judge(&ops);
}

/// `param 0` insertions of distinct starts in any order with arbitrary ends, then `param 1`
/// removals of any of them: reaches the deeper rotations.
pub fn deep() {
    let (n, r) = (param(0) as usize, param(1) as usize);
    let mut ops: Vec<Op> = Vec::new();
    let mut left: Vec<u8> = (0..n as u8).map(|x| 10 + 10 * x).collect();
    // only the two ends that differ can matter to which subtree is searched: keep most concrete
    let (a, b) = (any_u8(), any_u8());
    while !left.is_empty() {
        let s = left.remove(choice(left.len() as u8));
        let e = match ops.len() {
            0 => a,
            k if k == n / 2 => b,
            _ => s + 3,
        };
        assume(s <= e);
        ops.push(Op { insert: true, s, e });
    }
    let mut pool: Vec<usize> = (0..n).collect();
    for _ in 0..r {
        let i = pool.remove(choice(pool.len() as u8));
        let o = ops[i];
        ops.push(Op { insert: false, ..o });
    }
    let t = build(&ops);
    let all: Vec<_> = t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect();
    same("iter", &ops, &all, &|_| true);
    const MINSZ: [usize; 8] = [0, 1, 2, 4, 7, 12, 20, 33];
    check("height", t.height() < 8 && MINSZ[t.height()] <= n - r);
    let (qs, qe) = (any_u8(), any_u8());
    assume(qs <= qe);
    let hit: Vec<_> = t.range(range(qs, qe)).map(|(k, v)| ((k.start, k.end), *v)).collect();
    log(hit.len() as u64);
    same("range", &ops, &hit, &|i| (ops[i].s <= qe) & (ops[i].e >= qs));
    reach("deep");
}
