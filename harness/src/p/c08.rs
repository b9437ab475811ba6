//! C08 slices and containers against a plain array with explicit windows; whole buffers compared.
use crate::eng::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::app::core::{APPINST_SIZE, MSGID_SIZE};
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use iota_mam::{mss, ntru, prng::PRNG};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn groups() -> Vec<Group> {
    vec![
        g("windows", 1500, windows),
        g("mutate", 1500, mutate),
        g("pairs", 800, pairs),
        g("containers", 800, containers),
        g("tight", 300, tight),
        g("faces", 600, faces),
        g("named", 60, named),
        Group { name: "huge", n: 4, deep: 6, f: crate::p::huge::windows },
    ]
}
/// window [d, n) of a buffer
#[derive(Clone, Copy, Debug, PartialEq)]
struct W {
    n: usize,
    d: usize,
}
impl W {
    fn size(self) -> usize {
        self.n - self.d
    }
}
macro_rules! nav {
    ($name:ident, $ty:ty) => {
        /// One navigation step on slice and model; None when the step yields an unrelated pair.
        fn $name<'a>(r: &mut Rng, s: $ty, w: W) -> ($ty, W, &'static str) {
            let k = w.size();
            let n = r.below(k + 1);
            let big = r.below(2 * k + 5);
            match r.below(12) {
                0 => (s.take(n), W { n: w.d + n, d: w.d }, "take"),
                1 => (s.take_min(big), W { n: w.d + big.min(k), d: w.d }, "take_min"),
                2 => (s.drop(n), W { n: w.n, d: w.d + n }, "drop"),
                3 => (s.drop_min(big), W { n: w.n, d: w.d + big.min(k) }, "drop_min"),
                4 => {
                    let (a, b) = s.split_at(n);
                    if r.chance(1, 2) {
                        (a, W { n: w.d + n, d: w.d }, "split_at.0")
                    } else {
                        (b, W { n: w.n, d: w.d + n }, "split_at.1")
                    }
                }
                5 => {
                    let (a, b) = s.split_at_min(big);
                    let m = big.min(k);
                    if r.chance(1, 2) {
                        (a, W { n: w.d + m, d: w.d }, "split_at_min.0")
                    } else {
                        (b, W { n: w.n, d: w.d + m }, "split_at_min.1")
                    }
                }
                6 => {
                    let p = r.below(w.d + 1);
                    (s.pickup(p), W { n: w.n, d: w.d - p }, "pickup")
                }
                7 => (s.pickup_all(), W { n: w.n, d: 0 }, "pickup_all"),
                8 => (s.drop_all(), W { n: w.n, d: w.n }, "drop_all"),
                9 => (s.dropped(), W { n: w.d, d: 0 }, "dropped"),
                10 => {
                    let mut t = s;
                    let a = t.advance(n);
                    if r.chance(1, 2) {
                        (a, W { n: w.d + n, d: w.d }, "advance.ret")
                    } else {
                        (t, W { n: w.n, d: w.d + n }, "advance.self")
                    }
                }
                _ => {
                    // diff with an earlier position of the same slice
                    let p = r.below(w.d + 1);
                    let e = s.pickup(p);
                    (s.diff(e), W { n: w.d, d: w.d - p }, "diff")
                }
            }
        }
    };
}
nav!(nav_c, TritSlice<'a>);
nav!(nav_m, TritSliceMut<'a>);

fn look(c: &mut Ctx, s: TritSlice, w: W, b: &[u8], how: &str) -> R {
    ck!(s.size() == w.size(), "{}: size {} instead of {} ({:?})", how, s.size(), w.size(), w);
    ck!(s.avail_size() == w.size(), "{}: avail_size {} instead of {}", how, s.avail_size(), w.size());
    ck!(s.total_size() == w.n, "{}: total_size {} instead of {}", how, s.total_size(), w.n);
    ck!(s.dropped_size() == w.d, "{}: dropped_size {} instead of {}", how, s.dropped_size(), w.d);
    ck!(s.is_empty() == (w.size() == 0), "{}: is_empty {} for {:?}", how, s.is_empty(), w);
    for q in [0, 1, 7, w.size(), w.size() + 1] {
        ck!(s.size_min(q) == w.size().min(q), "{}: size_min({}) = {} for size {}", how, q, s.size_min(q), w.size());
    }
    ck!(tv(s) == b[w.d..w.n], "{}: contents differ ({:?})", how, w);
    c.evals += 1;
    Ok(())
}
fn windows(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(130);
    let b = r.trits(n);
    let copy = b.clone();
    let mut s = sl(&b);
    let mut w = W { n, d: 0 };
    let mut saved: Vec<(TritSlice, W)> = vec![(s, w)];
    for i in 0..30 {
        let (t, v, how) = nav_c(&mut r, s, w);
        look(c, t, v, &copy, how)?;
        // the slice it came from is unaffected
        look(c, s, w, &copy, how)?;
        c.ev("navigation steps");
        if r.chance(1, 4) || v.n == 0 && i < 20 {
            let k = r.below(saved.len());
            (s, w) = saved[k];
        } else {
            (s, w) = (t, v);
            saved.push((t, v));
        }
        c.seen((w.n * 1000 + w.d) as u64);
        // relations between windows of one buffer
        let k = r.below(saved.len());
        relate(c, (s, w), saved[k], &b)?;
        // pieces
        let q = r.range(1, 40);
        let ch = s.chunks(q);
        let want: Vec<&[u8]> = b[w.d..w.n].chunks(q).collect();
        ck!(ch.len() == want.len(), "chunks({}) of {} trits: {} pieces", q, w.size(), ch.len());
        for (x, y) in ch.iter().zip(&want) {
            ck!(tvt(x) == *y, "chunks({}) of {} trits: wrong piece", q, w.size());
        }
        let cl = s.clone_trits();
        ck!(tvt(&cl) == b[w.d..w.n], "clone_trits differs from the window {:?}", w);
        c.evn("windows compared", 2);
    }
    ck!(b == copy, "reading operations changed the buffer");
    Ok(())
}
fn relate(c: &mut Ctx, a: (TritSlice, W), b: (TritSlice, W), buf: &[u8]) -> R {
    let (s, w) = a;
    let (t, v) = b;
    if w.size() > 0 && v.size() > 0 {
        let same = w.d == v.d;
        let over = w.d < v.n && v.d < w.n;
        ck!(s.is_same(t) == same, "is_same of {:?} and {:?} is {}", w, v, !same);
        ck!(t.is_same(s) == same, "is_same of {:?} and {:?} is {}", v, w, !same);
        ck!(s.is_overlapped(t) == over, "is_overlapped of {:?} and {:?} is {}", w, v, !over);
        ck!(t.is_overlapped(s) == over, "is_overlapped of {:?} and {:?} is {}", v, w, !over);
        c.evn("same/overlap decisions", 4);
        *c.cov.entry(if over { "windows that overlap" } else { "windows that do not" }).or_insert(0) += 1;
    }
    let (x, y) = (&buf[w.d..w.n], &buf[v.d..v.n]);
    ck!((s == t) == (x == y), "comparison of {:?} and {:?} is {}", w, v, s == t);
    let m = x.len().min(y.len());
    ck!(s.eq_min(t) == (x[..m] == y[..m], m), "eq_min of {:?} and {:?} is {:?}", w, v, s.eq_min(t));
    if x.len() == y.len() {
        ck!(TritSlice::eq(s, t) == (x == y), "eq of {:?} and {:?}", w, v);
    }
    c.evn("comparisons", 2);
    Ok(())
}
/// Writing operations on several windows of several buffers; every buffer is compared in full.
fn mutate(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let nb = r.range(1, 3);
    let mut bufs: Vec<Vec<u8>> = (0..nb)
        .map(|_| {
            let n = r.size(90).max(1);
            r.trits(n)
        })
        .collect();
    let mut model = bufs.clone();
    let sz: Vec<usize> = bufs.iter().map(|b| b.len()).collect();
    let ms: Vec<TritSliceMut> = bufs.iter_mut().map(|b| slm(b)).collect();
    for _ in 0..30 {
        // three windows of equal size in arbitrary buffers
        let (i, j, k) = (r.below(nb), r.below(nb), r.below(nb));
        let n = r.below(sz[i].min(sz[j]).min(sz[k]) + 1);
        let (a, b, d) = (r.below(sz[i] - n + 1), r.below(sz[j] - n + 1), r.below(sz[k] - n + 1));
        let disj = |p: (usize, usize), q: (usize, usize)| p.0 != q.0 || p.1 + n <= q.1 || q.1 + n <= p.1;
        let (mut x, mut y, z) = (ms[i].drop(a).take(n), ms[j].drop(b).take(n), ms[k].drop(d).take(n));
        // the saturating variants take their size from the shorter operand
        let ext = r.below(sz[j] - b - n + 1);
        let how;
        // copies are specified for the same window or disjoint ones
        let cp = (i, a) == (j, b) || disj((i, a), (j, b));
        match r.below(13) {
            0 if cp => {
                how = "copy";
                x.as_const().copy(y);
                let v = model[i][a..a + n].to_vec();
                model[j][b..b + n].copy_from_slice(&v);
            }
            1 if cp => {
                how = "copy_min";
                let long = ms[j].drop(b).take(n + ext);
                let m = x.as_const().copy_min(long);
                ck!(m == n, "copy_min returns {} instead of {}", m, n);
                let v = model[i][a..a + n].to_vec();
                model[j][b..b + n].copy_from_slice(&v);
            }
            2 if cp => {
                how = "copy_min";
                let long = ms[j].drop(b).take(n + ext);
                let m = long.as_const().copy_min(x);
                ck!(m == n, "copy_min returns {} instead of {}", m, n);
                let v = model[j][b..b + n].to_vec();
                model[i][a..a + n].copy_from_slice(&v);
            }
            3 if disj((i, a), (j, b)) => {
                how = "swap_add";
                x.swap_add(y);
                for q in 0..n {
                    let (s, t) = (model[i][a + q], model[j][b + q]);
                    model[i][a + q] = (s + t) % 3;
                    model[j][b + q] = s;
                }
            }
            4 if disj((i, a), (j, b)) => {
                how = "swap_sub";
                x.swap_sub(y);
                for q in 0..n {
                    let (s, t) = (model[i][a + q], model[j][b + q]);
                    model[i][a + q] = (3 + s - t) % 3;
                    model[j][b + q] = (3 + s - t) % 3;
                }
            }
            5 if j != i => {
                how = "swap_add_min";
                let long = ms[j].drop(b).take(n + ext);
                let first = r.chance(1, 2);
                let m = if first { x.swap_add_min(long) } else { long.swap_add_min(x) };
                ck!(m == n, "swap_add_min returns {} instead of {}", m, n);
                let (p, s, o, t) = if first { (i, a, j, b) } else { (j, b, i, a) };
                for q in 0..n {
                    let (u, v) = (model[p][s + q], model[o][t + q]);
                    model[p][s + q] = (u + v) % 3;
                    model[o][t + q] = u;
                }
            }
            6 if j != i => {
                how = "swap_sub_min";
                let long = ms[j].drop(b).take(n + ext);
                let m = x.swap_sub_min(long);
                ck!(m == n, "swap_sub_min returns {} instead of {}", m, n);
                for q in 0..n {
                    let (s, t) = (model[i][a + q], model[j][b + q]);
                    model[i][a + q] = (3 + s - t) % 3;
                    model[j][b + q] = (3 + s - t) % 3;
                }
            }
            7 if disj((i, a), (j, b)) && disj((j, b), (k, d)) && (disj((i, a), (k, d)) || (i, a) == (k, d)) => {
                how = "copy_add";
                if r.chance(1, 2) {
                    x.as_const().copy_add(y, z);
                } else {
                    let m = x.as_const().copy_add_min(ms[j].drop(b).take(n + ext), z);
                    ck!(m == n, "copy_add_min returns {} instead of {}", m, n);
                }
                for q in 0..n {
                    let (s, t) = (model[i][a + q], model[j][b + q]);
                    model[j][b + q] = s;
                    model[k][d + q] = (s + t) % 3;
                }
            }
            8 if disj((i, a), (j, b)) && disj((j, b), (k, d)) && (disj((i, a), (k, d)) || (i, a) == (k, d)) => {
                how = "copy_sub";
                if r.chance(1, 2) {
                    x.as_const().copy_sub(y, z);
                } else {
                    let m = x.as_const().copy_sub_min(ms[j].drop(b).take(n + ext), z);
                    ck!(m == n, "copy_sub_min returns {} instead of {}", m, n);
                }
                for q in 0..n {
                    let (s, t) = (model[i][a + q], model[j][b + q]);
                    model[j][b + q] = (3 + s - t) % 3;
                    model[k][d + q] = (3 + s - t) % 3;
                }
            }
            9 => {
                how = "set_zero";
                x.set_zero();
                model[i][a..a + n].fill(0);
            }
            10 => {
                how = "set_trit";
                let t = r.trit();
                x.set_trit(t);
                model[i][a..a + n].fill(t);
            }
            11 => {
                how = "cycle";
                let m = r.below(20);
                let v = r.trits(m);
                // a source living elsewhere
                let src = tr(&v);
                let s: TritSlice = src.slice();
                let s: TritSlice = unsafe { std::mem::transmute(s) };
                x.cycle(s);
                if m > 0 {
                    for q in 0..n {
                        model[i][a + q] = v[q % m];
                    }
                }
            }
            _ => {
                how = "advance and put";
                let m = r.below(n + 1);
                let h = x.advance(m);
                h.set_trit(1);
                model[i][a..a + m].fill(1);
                let e = x.diff(ms[i].drop(a).take(n));
                ck!(e.size() == m, "diff after advance has size {} instead of {}", e.size(), m);
                let (t, v, _) = nav_m(&mut r, ms[i], W { n: sz[i], d: 0 });
                y = t;
                y.put_trits(&vec![2; v.size()]);
                model[i][v.d..v.n].fill(2);
            }
        }
        for q in 0..nb {
            let now = tv(ms[q].as_const());
            ck!(now == model[q], "{} of {} trits ({}@{}, {}@{}, {}@{}): buffer {}: {}", how, n, i, a, j, b, k, d, q, diff_at(&now, &model[q]));
        }
        c.ev(how);
        c.seen(crate::rng::fnv(how.as_bytes()) ^ (n * 7919 + a * 131 + b) as u64);
    }
    drop(ms);
    for q in 0..nb {
        ck!(bufs[q] == model[q], "buffer differs at the end");
        c.dig(&bufs[q]);
    }
    Ok(())
}
/// Windows of one buffer and of different buffers: same / overlap / compare, mutable flavour.
fn pairs(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.range(1, 12);
    let mut b = if r.chance(1, 2) { r.trits(n) } else { vec![0; n] };
    let mut o = b.clone();
    let all = b.clone();
    let s = slm(&mut b);
    let t = slm(&mut o);
    for _ in 0..40 {
        let x = W { d: r.below(n), n };
        let x = W { n: r.range(x.d + 1, n), ..x };
        let y = W { d: r.below(n), n };
        let y = W { n: r.range(y.d + 1, n), ..y };
        let (p, q) = (s.take(x.n).drop(x.d), s.drop(y.d).take(y.size()));
        let same = x.d == y.d;
        let over = x.d < y.n && y.d < x.n;
        ck!(p.is_same(q) == same, "is_same of {:?} and {:?} is {}", x, y, !same);
        ck!(p.is_overlapped(q) == over, "is_overlapped of {:?} and {:?} is {}", x, y, !over);
        ck!((p == q) == (all[x.d..x.n] == all[y.d..y.n]), "comparison of {:?} and {:?}", x, y);
        let m = x.size().min(y.size());
        ck!(p.eq_min(q) == (all[x.d..x.d + m] == all[y.d..y.d + m], m), "eq_min of {:?} and {:?}", x, y);
        relate(c, (p.as_const(), x), (q.as_const(), y), &all)?;
        let f = t.take(y.n).drop(y.d);
        ck!(!p.is_same(f) && !p.is_overlapped(f), "windows of different buffers are same or overlap: {:?} {:?}", x, y);
        ck!((p == f) == (all[x.d..x.n] == all[y.d..y.n]), "comparison across buffers of {:?} and {:?}", x, y);
        c.evn("same/overlap decisions", 4);
        c.seen((x.d + 20 * x.n + 400 * y.d + 8000 * y.n) as u64);
    }
    Ok(())
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}
fn containers(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(200);
    let v = r.trits_biased(n);
    // the same contents built in several ways
    let a = tr(&v);
    let mut wide = r.trits(5);
    wide.extend_from_slice(&v);
    wide.extend(r.trits(5));
    let b = Trits::from_slice(sl(&wide).drop(5).take(n));
    let mut d = Trits::zero(n);
    ck!(tvt(&d) == vec![0; n], "zero({}) is not zero", n);
    d.slice_mut().put_trits(&v);
    let e = d.clone();
    for x in [&a, &b, &d, &e] {
        ck!(x.size() == n && x.is_empty() == (n == 0), "container of {} trits has size {}", n, x.size());
        ck!(tvt(x) == v, "container contents differ: {}", diff_at(&tvt(x), &v));
        ck!(*x == a && a == *x, "equal containers of {} trits compare different", n);
        ck!(h(x) == h(&a), "equal containers of {} trits hash differently", n);
        c.evn("containers compared", 2);
    }
    // any difference is seen
    if n > 0 {
        let i = r.below(n);
        let mut w = v.clone();
        w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
        let f = tr(&w);
        ck!(f != a, "containers differing at trit {} of {} compare equal", i, n);
        // writing to a clone leaves the original alone
        let mut g = a.clone();
        g.slice_mut().put_trits(&w);
        ck!(tvt(&a) == v && tvt(&g) == w, "writing to a clone changed the original");
        c.evn("different containers told apart", 2);
    }
    let mut longer = v.clone();
    longer.push(0);
    ck!(tr(&longer) != a, "containers of {} and {} trits compare equal", n, n + 1);
    let m = r.size(300);
    let cy = Trits::cycle_trits(m, &a);
    let w: Vec<u8> = (0..m).map(|i| if n == 0 { 0 } else { v[i % n] }).collect();
    ck!(tvt(&cy) == w, "cycle_trits({}) of {} trits: {}", m, n, diff_at(&tvt(&cy), &w));
    c.ev("cycled containers");
    c.seen_b(&v);
    Ok(())
}
/// Operations that end exactly at the end of a heap block (AddressSanitizer / Miri see any overrun).
fn tight(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.range(1, 60);
    let v = r.trits(n);
    let mut a = tr(&v);
    let mut b = Trits::zero(n);
    let mut d = Trits::zero(n);
    a.slice().copy(b.slice_mut());
    ck!(a == b, "copy of {} trits differs", n);
    let m = r.below(n);
    let (_, hi) = a.slice().split_at(m);
    hi.copy_add(d.slice_mut().drop(m), b.slice_mut().drop(m));
    ck!(tvt(&b) == v && tvt(&d)[m..] == v[m..] && tvt(&d)[..m].iter().all(|t| *t == 0), "copy_add at {} of {}", m, n);
    hi.copy_sub(d.slice_mut().drop(m), b.slice_mut().drop(m));
    ck!(tvt(&b)[m..].iter().all(|t| *t == 0) && tvt(&b)[..m] == v[..m], "copy_sub at {} of {}", m, n);
    a.slice_mut().drop(m).swap_add(d.slice_mut().drop(m));
    ck!(tvt(&a) == v && tvt(&d)[m..] == v[m..], "swap_add at {} of {}", m, n);
    a.slice_mut().drop(m).swap_sub(d.slice_mut().drop(m));
    ck!(tvt(&a)[m..].iter().all(|t| *t == 0), "swap_sub at {} of {}", m, n);
    let e = Trits::from_slice(a.slice().drop_all());
    ck!(e.is_empty() && e == Trits::zero(0) && e.to_str().is_empty(), "empty container");
    e.slice().copy(a.slice_mut().drop_all());
    a.slice_mut().cycle(e.slice());
    ck!(a.slice().chunks(7).len() == (n + 6) / 7, "chunks");
    let _ = a.to_str();
    a.slice_mut().inc();
    a.slice_mut().set_zero();
    ck!(a == Trits::zero(n), "set_zero");
    let w = a.slice();
    for q in [1usize, 3, 6, 9, 18] {
        if q <= n {
            let t = w.drop(n - q);
            let z = match q {
                1 => t.get1() as i64,
                3 => t.get3() as i64 + t.get_tryte() as i64,
                6 => t.get6() as i64,
                9 => t.get9() as i64,
                _ => t.get18() as i64,
            };
            ck!(z == 0, "integer at the end of a zero buffer is {}", z);
        }
    }
    c.evn("operations at the end of a block", 12);
    c.seen((n * 100 + m) as u64);
    Ok(())
}

/// The mutable flavour of navigation and inspection, the constructors, and the associated functions.
fn faces(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(100).max(1);
    let mut b = r.trits_biased(n);
    let v = b.clone();
    let all = match r.below(2) {
        0 => TritSliceMut::from_slice_mut(n, &mut b),
        _ => TritSliceMut::from_raw_ptr(n, b.as_mut_ptr()),
    };
    let mut s = all;
    let mut w = W { n, d: 0 };
    for _ in 0..25 {
        let (t, x, how) = nav_m(&mut r, s, w);
        ck!(t.size() == x.size() && t.avail_size() == x.size(), "mutable {}: size {} / {} instead of {}", how, t.size(), t.avail_size(), x.size());
        ck!(t.total_size() == x.n && t.dropped_size() == x.d, "mutable {}: total {} dropped {} for {:?}", how, t.total_size(), t.dropped_size(), x);
        ck!(t.is_empty() == (x.size() == 0), "mutable {}: is_empty for {:?}", how, x);
        let q = r.below(2 * n + 2);
        ck!(t.size_min(q) == q.min(x.size()), "mutable {}: size_min({}) = {}", how, q, t.size_min(q));
        look(c, t.as_const(), x, &v, how)?;
        // equality as an associated function, as a method of the reference, and against shorter ones
        let y = W { d: r.below(n + 1), n };
        let u = all.drop(y.d);
        let m = x.size().min(y.size());
        let (p, o) = (&v[x.d..x.d + m], &v[y.d..y.d + m]);
        ck!(TritSliceMut::eq(t.take(m), u.take(m)) == (p == o), "mutable eq of {} trits at {} and {}", m, x.d, y.d);
        ck!(t.eq_min(u) == (p == o, m), "mutable eq_min of {:?} and {:?}", x, y);
        ck!((t == u) == (v[x.d..x.n] == v[y.d..y.n]), "mutable == of {:?} and {:?}", x, y);
        ck!((t != u) == (v[x.d..x.n] != v[y.d..y.n]), "mutable != of {:?} and {:?}", x, y);
        c.evn("mutable windows inspected", 9);
        if x.n == 0 || r.chance(1, 4) {
            (s, w) = (all, W { n, d: 0 });
        } else {
            (s, w) = (t, x);
        }
        c.seen((x.n * 1000 + x.d) as u64);
    }
    // single trits at every position of the window
    let mut one = vec![9u8; w.size()];
    s.as_const().get_trits(&mut one);
    ck!(one == v[w.d..w.n], "get_trits: {}", diff_at(&one, &v[w.d..w.n]));
    for i in 0..w.size() {
        ck!(s.as_const().drop(i).get_trit() == v[w.d + i], "get_trit at {} of {:?}", i, w);
    }
    let m = r.below(n + 1);
    let k = TritSlice::from_slice(m, &v);
    ck!(k.size() == m && tv(k) == v[..m], "slice of the first {} trits of an array", m);
    let k = TritSlice::from_raw_ptr(m, v.as_ptr());
    ck!(k.size() == m && tv(k) == v[..m], "slice of the first {} trits of a pointer", m);
    let mut t = tr(&v);
    ck!(t.buf_len() == n, "a container of {} trits has {} words of one trit", n, t.buf_len());
    let k = TritSlice::from_trits(&t);
    ck!(k == t.slice() && k.is_same(t.slice()) && k.total_size() == n && k.dropped_size() == 0, "slice of a container");
    let i = r.below(n);
    let nv = (v[i] + 1) % 3;
    TritSliceMut::from_trits_mut(&mut t).drop(i).take(1).put_trit(nv);
    let mut x = v.clone();
    x[i] = nv;
    ck!(tvt(&t) == x, "put_trit through from_trits_mut at {} of {}", i, n);
    let _ = (format!("{:?}", t), format!("{:?}", t.slice().take(m)), format!("{:?}", s));
    c.evn("constructors", 5);
    c.dig(&x);
    Ok(())
}

/// Message ids, application instances and public keys compare (and hash) by their trits.
fn named(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    for n in [MSGID_SIZE, APPINST_SIZE, mss::PK_SIZE] {
        let v = r.trits_biased(n);
        // one deviation anywhere, or none
        let mut w = v.clone();
        let i = match r.below(3) {
            0 => n - 1 - r.below(3),
            1 => r.below(3),
            _ => r.below(n),
        };
        w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
        let what = ["message ids", "application instances", "signature keys"][[MSGID_SIZE, APPINST_SIZE, mss::PK_SIZE].iter().position(|x| *x == n).unwrap()];
        let (same, diff) = if n == MSGID_SIZE {
            let (a, b, d) = (msgid(&v), msgid(&v), msgid(&w));
            ck!(a.is_some() && b.is_some() && d.is_some(), "message id of {} trits refused", n);
            let (a, b, d) = (a.unwrap(), b.unwrap(), d.unwrap());
            let e = a.clone();
            ck!(h(&a) == h(&b) && h(&a) == h(&e), "equal message ids hash differently");
            (a == b && a == e && !(a != b), a == d || d == e)
        } else if n == APPINST_SIZE && r.chance(1, 2) {
            let (a, b, d) = (appinst(&v), appinst(&v), appinst(&w));
            let e = a.clone();
            (a == b && a == e && !(a != b), a == d || d == e)
        } else {
            let (a, b, d) = (msspk(&v), msspk(&v), msspk(&w));
            ck!(a.is_some() && b.is_some() && d.is_some(), "signature key of {} trits refused", n);
            let (a, b, d) = (a.unwrap(), b.unwrap(), d.unwrap());
            let e = a.clone();
            (a == b && a == e && !(a != b), a == d || d == e)
        };
        ck!(same, "equal {} compare different", what);
        ck!(!diff, "{} differing at trit {} compare equal", what, i);
        c.evn("named values compared", 4);
        c.seen_b(&v);
    }
    if r.chance(1, 4) {
        let p = PRNG::init(tr(&r.trits(243)).slice());
        let (n1, n2) = (r.trits(18), r.trits(18));
        let (_, k1) = ntru::gen(&p, sl(&n1));
        let (_, k2) = ntru::gen(&p, sl(&n2));
        let v = ntrupk_v(&k1);
        let t = tr(&v);
        let i = ntru::PublicKey::from_trits(t.clone());
        ck!(i.is_some(), "exported encapsulation key refused");
        let i = i.unwrap();
        ck!(i == k1 && k1 == i.clone(), "imported encapsulation key differs from the original");
        ck!((k1 == k2) == (v == ntrupk_v(&k2)), "comparison of encapsulation keys");
        ck!(format!("{}", k1) == t.to_str(), "an encapsulation key does not print as its text");
        c.evn("encapsulation keys compared", 4);
    }
    Ok(())
}
