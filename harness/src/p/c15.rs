//! C15 Merkle traversal over generic node types, both implementations against the complete tree.
use crate::eng::*;
use crate::rng::{mix, Rng};
use iota_mam::mss::mt::{max_skn, tree_size, APath, GenLeaf, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{mtcomplete, mttraversal};
use std::cell::RefCell;
use std::rc::Rc;

pub fn groups() -> Vec<Group> {
    vec![
        g("walk", 66, walk),
        g("shape", 24, shape),
        g("stored", 55, stored),
        g("herd", 40, herd),
        g("refused", 60, refused),
        Group { name: "tall", n: 4, deep: 3, f: tall },
        g("path", 100, path),
        g("shared", 40, shared),
    ]
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct H(u64);
struct Tree {
    levels: Vec<Vec<u64>>,
}
/// leaf and merge functions of a test; the leaf calls are logged
struct F {
    seed: u64,
    kind: usize,
    log: RefCell<Vec<usize>>,
}
impl F {
    fn leaf(&self, i: usize) -> u64 {
        match self.kind {
            0 => mix(self.seed ^ mix(i as u64)),
            // equal leaves in groups, and all equal
            1 => mix(self.seed ^ (i as u64 / 3)),
            2 => 7,
            _ => i as u64 + 1,
        }
    }
    fn merge(&self, a: u64, b: u64) -> u64 {
        match self.kind {
            3 => a.wrapping_mul(3).wrapping_add(b.wrapping_mul(1_000_003)) ^ 11,
            _ => mix(a.rotate_left(7) ^ mix(b) ^ self.seed),
        }
    }
    fn tree(&self, h: usize) -> Tree {
        let mut levels = vec![(0..1usize << h).map(|i| self.leaf(i)).collect::<Vec<u64>>()];
        for d in 0..h {
            let n: Vec<u64> = levels[d].chunks(2).map(|p| self.merge(p[0], p[1])).collect();
            levels.push(n);
        }
        Tree { levels }
    }
}
impl GenLeaf<H> for F {
    fn gen_leaf(&self, i: usize) -> H {
        self.log.borrow_mut().push(i);
        H(self.leaf(i))
    }
}
impl MergeNodes<H> for F {
    fn merge_nodes(&self, a: &H, b: &H) -> H {
        H(self.merge(a.0, b.0))
    }
}
fn f(r: &mut Rng) -> F {
    F { seed: r.u64(), kind: r.below(4), log: RefCell::new(vec![]) }
}
fn calls(fu: &F, h: usize, when: &str) -> Result<usize, String> {
    let mut l = fu.log.borrow_mut();
    for i in l.iter() {
        ck!(*i < 1usize << h, "leaf function called with index {} in a tree of height {} ({})", i, h, when);
    }
    let n = l.len();
    l.clear();
    Ok(n)
}
/// The path of leaf i: its number, that it folds to the root, and each of its nodes.
fn path_ok(c: &mut Ctx, a: &APath<H>, t: &Tree, fu: &F, h: usize, i: usize) -> R {
    ck!(a.skn() == i, "path number {} instead of {} (height {})", a.skn(), i, h);
    let steps: RefCell<Vec<(u64, u64)>> = RefCell::new(vec![]);
    let m = |x: &H, y: &H| {
        steps.borrow_mut().push((x.0, y.0));
        H(fu.merge(x.0, y.0))
    };
    let mut n = H(t.levels[0][i]);
    let done = a.fold_mut(&m, &mut n);
    ck!(done, "path {} of height {} is too short", i, h);
    ck!(n.0 == t.levels[h][0], "path {} of height {} does not fold to the root", i, h);
    let s = steps.borrow();
    ck!(s.len() == h, "path {} of height {} has {} nodes", i, h, s.len());
    for d in 0..h {
        let k = (i >> d) & !1;
        ck!(s[d] == (t.levels[d][k], t.levels[d][k + 1]), "node {} of path {} of height {} is wrong", d, i, h);
    }
    ck!(a.fold(&|x: &H, y: &H| H(fu.merge(x.0, y.0)), &H(t.levels[0][i])).0 == t.levels[h][0], "fold of path {}", i);
    c.ev("paths checked");
    Ok(())
}
fn nodes_max(h: usize) -> usize {
    1 + 2 * h + h * (h + 1) / 2
}
fn step_ok<T: TraversableMerkleTree<H>>(c: &mut Ctx, mt: &T, t: &Tree, fu: &F, h: usize, i: usize, trav: bool) -> R {
    ck!(mt.height() == h, "height {} instead of {}", mt.height(), h);
    ck!(mt.skn() == i, "leaf number {} instead of {} (height {})", mt.skn(), i, h);
    ck!(mt.root().0 == t.levels[h][0], "root at step {} of height {}", i, h);
    if i < 1 << h {
        path_ok(c, &mt.apath(), t, fu, h, i)?;
    }
    let (sh, sk, nodes) = mt.store();
    ck!(sh == h && sk == i, "stored as height {} number {} instead of {} {}", sh, sk, h, i);
    if trav {
        ck!(nodes.len() <= nodes_max(h), "traversal keeps {} nodes at step {} of height {}", nodes.len(), i, h);
        c.ev("node counts bounded");
    }
    c.ev("steps checked");
    Ok(())
}
fn walk_t<T: TraversableMerkleTree<H>>(c: &mut Ctx, fu: &F, t: &Tree, h: usize, trav: bool) -> R {
    let mut mt = T::gen(fu, fu, h);
    let n = calls(fu, h, "generation")?;
    c.evn("leaf calls checked", n);
    let total = 1usize << h;
    for i in 0..total {
        step_ok(c, &mt, t, fu, h, i, trav)?;
        let more = mt.next(fu, fu);
        let n = calls(fu, h, "advance")?;
        c.evn("leaf calls checked", n);
        ck!(more == (i + 1 < total), "advance from leaf {} of height {} reports {}", i, h, more);
    }
    for _ in 0..3 {
        step_ok(c, &mt, t, fu, h, total, trav)?;
        ck!(!mt.next(fu, fu), "an exhausted tree of height {} advances", h);
        calls(fu, h, "advance after the end")?;
    }
    Ok(())
}
fn walk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = c.idx % if c.small { 5 } else { 11 };
    let fu = f(&mut r);
    let t = fu.tree(h);
    walk_t::<mtcomplete::MT<H>>(c, &fu, &t, h, false)?;
    walk_t::<mttraversal::MT<H>>(c, &fu, &t, h, true)?;
    c.seen(fu.seed ^ ((h as u64) << 8));
    c.sample(format!("height {} functions {}", h, fu.kind));
    Ok(())
}
/// Nodes that spell out their own derivation: exact shape and order, nothing hashed away.
fn shape(c: &mut Ctx) -> R {
    let h = c.idx % if c.small { 5 } else { 6 };
    let gen = |i: usize| format!("{}", i);
    let mer = |a: &String, b: &String| format!("({} {})", a, b);
    fn full(lo: usize, n: usize) -> String {
        if n == 1 {
            format!("{}", lo)
        } else {
            format!("({} {})", full(lo, n / 2), full(lo + n / 2, n / 2))
        }
    }
    let want = full(0, 1 << h);
    let mut a = mtcomplete::MT::<String>::gen(&gen, &mer, h);
    let mut b = mttraversal::MT::<String>::gen(&gen, &mer, h);
    for i in 0..1usize << h {
        ck!(*a.root() == want && *b.root() == want, "root {} or {} instead of {}", a.root(), b.root(), want);
        let leaf = format!("{}", i);
        ck!(a.apath().fold(&mer, &leaf) == want, "complete: leaf {} folds to {}", i, a.apath().fold(&mer, &leaf));
        ck!(b.apath().fold(&mer, &leaf) == want, "traversal: leaf {} folds to {}", i, b.apath().fold(&mer, &leaf));
        ck!(a.apath() == b.apath(), "paths of leaf {} differ", i);
        let (x, y) = (a.next(&gen, &mer), b.next(&gen, &mer));
        ck!(x == y && x == (i + 1 < 1 << h), "advance from leaf {} of height {}", i, h);
        c.evn("derivations compared", 4);
        c.seen((h * 1000 + i) as u64);
    }
    Ok(())
}
/// Trees of several origins, their copies and reloaded forms, at different steps, used in turn.
fn herd(c: &mut Ctx) -> R {
    fn run<T: TraversableMerkleTree<H> + PartialEq + Clone>(c: &mut Ctx, r: &mut Rng, fs: &[(F, Tree, usize)], trav: bool) -> R {
        let mut ts: Vec<(T, usize, usize)> = fs.iter().enumerate().map(|(i, (fu, _, h))| (T::gen(fu, fu, *h), i, 0)).collect();
        for _ in 0..r.range(60, 160) {
            let j = r.below(ts.len());
            let (fu, t, h) = &fs[ts[j].1];
            let total = 1usize << h;
            match r.below(7) {
                0 if ts.len() < 10 => {
                    let x = (ts[j].0.clone(), ts[j].1, ts[j].2);
                    ts.push(x);
                }
                1 if ts.len() < 10 => {
                    let (a, b, n) = ts[j].0.store();
                    let x = T::load(a, b, n).ok_or("a stored tree does not load")?;
                    let x = (x, ts[j].1, ts[j].2);
                    ts.push(x);
                }
                2 if ts.len() > 5 => {
                    ts.swap_remove(j);
                }
                3 => step_ok(c, &ts[j].0, t, fu, *h, ts[j].2, trav)?,
                _ => {
                    let more = ts[j].0.next(fu, fu);
                    ts[j].2 = (ts[j].2 + 1).min(total);
                    ck!(more == (ts[j].2 < total), "one of several trees advances to {} of height {}: {}", ts[j].2, h, more);
                    step_ok(c, &ts[j].0, t, fu, *h, ts[j].2, trav)?;
                }
            }
            fu.log.borrow_mut().clear();
        }
        for a in ts.iter() {
            for b in ts.iter().filter(|b| b.1 == a.1) {
                ck!((a.0 == b.0) == (a.2 == b.2), "trees of height {} at {} and {} compare as equal: {}", fs[a.1].2, a.2, b.2, a.0 == b.0);
                c.ev("trees of a herd compared");
            }
        }
        Ok(())
    }
    let mut r = c.rng.clone();
    let fs: Vec<(F, Tree, usize)> = (0..r.range(1, 3))
        .map(|_| {
            let fu = f(&mut r);
            let h = r.below(if c.small { 4 } else { 6 });
            let t = fu.tree(h);
            (fu, t, h)
        })
        .collect();
    run::<mtcomplete::MT<H>>(c, &mut r, &fs, false)?;
    run::<mttraversal::MT<H>>(c, &mut r, &fs, true)?;
    c.seen(fs[0].0.seed);
    Ok(())
}
/// Store and load at every step; the loaded tree continues identically to the end.
fn stored_t<T: TraversableMerkleTree<H> + PartialEq + Clone>(c: &mut Ctx, r: &mut Rng, fu: &F, t: &Tree, h: usize, trav: bool) -> R {
    let total = 1usize << h;
    let mut mt = T::gen(fu, fu, h);
    for i in 0..=total {
        let (a, b, n) = mt.store();
        let Some(mut l) = T::load(a, b, n.clone()) else {
            return Err(format!("tree stored at step {} of height {} does not load", i, h));
        };
        ck!(l == mt, "tree loaded at step {} of height {} differs", i, h);
        ck!(mt.clone() == mt, "clone differs at step {} of height {}", i, h);
        if !n.is_empty() && i < total {
            // with one node replaced it is another tree
            let mut n2 = n.clone();
            let k = r.below(n.len());
            n2[k].0 ^= 1;
            if let Some(l2) = T::load(a, b, n2) {
                ck!(l2 != mt, "trees at step {} of height {} that differ in node {} compare equal", i, h, k);
                c.ev("trees compared");
            }
            let mut p = APath::<H>::new(h);
            let mut q = APath::<H>::new(h);
            for j in 0..h {
                p.push(H(j as u64));
                q.push(H(j as u64 ^ (j == k % h.max(1)) as u64));
            }
            ck!((p == q) == (h == 0), "paths of length {} that differ in node {}: equality", h, k % h.max(1));
        }
        ck!(l.store() == (a, b, n), "tree loaded at step {} of height {} stores differently", i, h);
        step_ok(c, &l, t, fu, h, i, trav)?;
        c.ev("stored and loaded");
        let run = if h <= 5 || r.chance(1, 40) { total } else { 3 };
        let mut k = i;
        for _ in 0..run {
            if k >= total {
                break;
            }
            let more = l.next(fu, fu);
            calls(fu, h, "advance of a loaded tree")?;
            k += 1;
            ck!(more == (k < total), "loaded tree advances to {} of height {}: {}", k, h, more);
            step_ok(c, &l, t, fu, h, k, trav)?;
            if r.chance(1, 30) {
                // load again in the middle
                let (a, b, n) = l.store();
                l = T::load(a, b, n).ok_or("tree stored a second time does not load")?;
            }
            if k == i + 1 {
                let mut m2 = mt.clone();
                m2.next(fu, fu);
                ck!(m2 == l, "loaded tree differs one step after {} of height {}", i, h);
                ck!(m2 != mt, "trees at different steps compare equal");
            }
        }
        mt.next(fu, fu);
        calls(fu, h, "advance")?;
    }
    Ok(())
}
fn stored(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = if c.small {
        c.idx % 4
    } else if c.thorough {
        c.idx % 9
    } else {
        c.idx % 7
    };
    let fu = f(&mut r);
    let t = fu.tree(h);
    stored_t::<mtcomplete::MT<H>>(c, &mut r, &fu, &t, h, false)?;
    stored_t::<mttraversal::MT<H>>(c, &mut r, &fu, &t, h, true)?;
    c.seen(fu.seed ^ ((h as u64) << 8));
    Ok(())
}
/// Inconsistent serialized forms are refused: loading succeeds for (height, number, node count)
/// exactly when a stored tree has these.
fn refused_t<T: TraversableMerkleTree<H>>(c: &mut Ctx, r: &mut Rng, fu: &F, h: usize, lens: &dyn Fn(usize, usize) -> Option<usize>) -> R {
    let total = 1usize << h;
    for _ in 0..if c.small { 6 } else { 30 } {
        let h2 = match r.below(4) {
            0 => r.below(8),
            1 => (h + 1).saturating_sub(r.below(3)),
            _ => h,
        };
        let skn = match r.below(6) {
            0 => 1usize << h2,
            1 => (1usize << h2) + 1,
            2 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]),
            _ => r.below(total + 1),
        };
        let ok_len = lens(h2, skn);
        let n = match r.below(6) {
            0 => r.below(5),
            1 => ok_len.unwrap_or(1) + 1,
            2 => ok_len.unwrap_or(1).saturating_sub(1),
            3 => lens(h, r.below(total + 1)).unwrap_or(1),
            4 => h2 + r.below(3),
            _ => ok_len.unwrap_or(1),
        };
        let nodes: Vec<H> = (0..n).map(|i| H(i as u64)).collect();
        let l = T::load(h2, skn, nodes.clone());
        ck!(
            l.is_some() == (ok_len == Some(n)),
            "load of height {} number {} with {} nodes (a stored tree has {:?}): {}",
            h2,
            skn,
            n,
            ok_len,
            if l.is_some() { "accepted" } else { "refused" }
        );
        if let Some(l) = l {
            ck!(l.store() == (h2, skn, nodes), "a loaded tree stores other data");
            c.ev("consistent forms loaded");
        } else {
            c.ev("inconsistent forms refused");
        }
        c.seen((h2 * 1_000_000 + n * 1000) as u64 ^ skn as u64);
    }
    let _ = fu;
    Ok(())
}
fn refused(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = r.below(7);
    let fu = f(&mut r);
    let total = |h: usize| 1usize << h;
    let complete = move |h: usize, k: usize| {
        if k < total(h) {
            Some(2 * total(h) - 1)
        } else if k == total(h) {
            Some(1)
        } else {
            None
        }
    };
    refused_t::<mtcomplete::MT<H>>(c, &mut r, &fu, h, &complete)?;
    // node counts of real trees at every step
    let mut tab: Vec<Vec<usize>> = vec![];
    for h in 0..if c.small { 8 } else { 9 } {
        let mut mt = mttraversal::MT::<H>::gen(&fu, &fu, h);
        let mut row = vec![];
        for _ in 0..=total(h) {
            row.push(mt.store().2.len());
            mt.next(&fu, &fu);
        }
        tab.push(row);
    }
    let trav = move |h: usize, k: usize| tab.get(h).and_then(|r| r.get(k)).copied();
    refused_t::<mttraversal::MT<H>>(c, &mut r, &fu, h, &trav)
}
fn tall(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = if c.idx % 40 == 14 { 16 + c.idx / 40 % 3 } else if c.thorough { 11 + c.idx % 5 } else { 11 + c.idx % 3 };
    let fu = f(&mut r);
    let t = fu.tree(h);
    walk_t::<mttraversal::MT<H>>(c, &fu, &t, h, true)?;
    if h % 2 == 1 && h < 18 {
        walk_t::<mtcomplete::MT<H>>(c, &fu, &t, h, false)?;
    }
    c.seen(fu.seed);
    Ok(())
}
/// Paths built by hand.
fn path(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let d = r.below(12);
    let mut a = APath::<H>::new(d);
    ck!(a.skn() == 0, "a new path has number {}", a.skn());
    let fu = f(&mut r);
    let mut want = r.u64();
    let h0 = H(want);
    for _ in 0..d {
        let x = r.u64();
        a.push(H(x));
        want = fu.merge(want, x);
    }
    let got = a.fold(&fu, &h0);
    ck!(got.0 == want, "a path of {} pushed nodes folds to another value", d);
    ck!(a.clone() == a, "a clone of a path differs");
    let mut b = a.clone();
    b.push(H(1));
    ck!(a != b, "paths of different length compare equal");
    c.evn("paths built and folded", 3);
    c.seen(want);
    Ok(())
}

/// Leaf and merge functions given as plain functions, or shared, make the same tree.
fn shared(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = r.below(7);
    let fu = Rc::new(f(&mut r));
    let t = fu.tree(h);
    ck!(max_skn(h) == 1usize << h && tree_size(h) == (2usize << h) - 1, "height {}: {} leaves, {} nodes", h, max_skn(h), tree_size(h));
    fn run<T: TraversableMerkleTree<H>>(c: &mut Ctx, fu: &Rc<F>, t: &Tree, h: usize, k: usize) -> R {
        let (f1, f2) = (fu.clone(), fu.clone());
        let leaf = move |i: usize| H(f1.leaf(i));
        let merge = move |a: &H, b: &H| H(f2.merge(a.0, b.0));
        let (leaf, merge) = (&leaf, &merge);
        let rl = Rc::new(leaf);
        let mut m = match k {
            0 => T::gen(&leaf, &merge, h),
            1 => T::gen(fu, fu, h),
            _ => T::gen(&rl, fu, h),
        };
        for i in 0..1usize << h {
            ck!(m.root().0 == t.levels[h][0] && m.skn() == i && m.height() == h, "tree of height {} at step {}: root, number {} or height {}", h, i, m.skn(), m.height());
            let a = m.apath();
            ck!(a.skn() == i, "path number {} at step {}", a.skn(), i);
            let x = match k {
                0 => a.fold(&merge, &H(t.levels[0][i])),
                _ => a.fold(fu, &H(t.levels[0][i])),
            };
            ck!(x.0 == t.levels[h][0], "path {} of height {} does not fold to the root", i, h);
            let more = match (i + k) % 3 {
                0 => m.next(&leaf, &merge),
                1 => m.next(fu, fu),
                _ => m.next(&rl, fu),
            };
            ck!(more == (i + 1 < 1usize << h), "next after leaf {} of height {} returns {}", i, h, more);
            c.ev("steps with shared functions");
        }
        Ok(())
    }
    let k = r.below(3);
    run::<mtcomplete::MT<H>>(c, &fu, &t, h, k)?;
    run::<mttraversal::MT<H>>(c, &fu, &t, h, k)?;
    c.seen(mix(t.levels[h][0]) ^ (k as u64));
    Ok(())
}
