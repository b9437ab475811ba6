//! C19 valid use: no undefined behaviour, overflow or panic, and the same results in every build.
//! The workloads are those of the other properties that use the interface within its documented
//! preconditions. Only panics (and, in the sanitizer builds, their reports) are violations here;
//! every result, a functional mismatch included, goes into a digest compared across builds.
use crate::eng::*;
use crate::p::*;

fn list() -> Vec<(&'static str, Vec<Group>, &'static [&'static str], f64)> {
    // property, groups, groups left out (hostile input or deliberate failures), share
    let mut v: Vec<(&'static str, Vec<Group>, &'static [&'static str], f64)> = vec![
        ("C01", c01::groups(), &["large"], 0.25),
        ("C04", c04::groups(), &[], 0.1),
        ("C06", c06::groups(), &[], 0.25),
        ("C07", c07::groups(), &[], 0.4),
        ("C08", c08::groups(), &[], 0.5),
        ("C09", c09::groups(), &[], 0.4),
        ("C10", c10::groups(), &[], 0.4),
        ("C11", c11::groups(), &[], 0.3),
        ("C12", c12::groups(), &[], 0.1),
        ("C13", c13::groups(), &[], 0.25),
        ("C14", c14::groups(), &[], 0.1),
        ("C15", c15::groups(), &[], 0.5),
        ("C16", c16::groups16(), &[], 0.2),
        ("C17", c16::groups17(), &[], 0.1),
        ("C18", c18::groups(), &["pairs"], 0.2),
        ("C20", c20::groups(), &[], 0.1),
        ("print", vec![g("print", 60, print::print)], &[], 1.0),
        ("large", c01::groups().into_iter().filter(|g| g.name == "large").collect(), &[], 1.0),
    ];
    // (the length of these depends on the build)
    for x in v.iter_mut() {
        x.1.retain(|g| g.name != "marathon");
    }
    v
}
macro_rules! tab {
    ($($i:literal),*) => { [$( { fn f(c: &mut Ctx) -> R { one(c, $i) } f } ),*] };
}
const F: [fn(&mut Ctx) -> R; 18] = tab!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
const NAMES: [&str; 18] =
    ["c01", "c04", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c20", "print", "large"];

pub fn groups() -> Vec<Group> {
    list()
        .into_iter()
        .enumerate()
        .map(|(i, (_, gs, skip, share))| {
            let n: usize = gs.iter().filter(|g| !skip.contains(&g.name)).map(|g| ((g.n as f64 * share).ceil() as usize).max(1)).sum();
            Group { name: NAMES[i], n, deep: 12, f: F[i] }
        })
        .collect()
}
fn one(c: &mut Ctx, i: usize) -> R {
    let (_, gs, skip, share) = list().swap_remove(i);
    let gs: Vec<Group> = gs.into_iter().filter(|g| !skip.contains(&g.name)).collect();
    // the cases of the groups in turn, in proportion to their shares
    let sizes: Vec<usize> = gs.iter().map(|g| ((g.n as f64 * share).ceil() as usize).max(1)).collect();
    let total: usize = sizes.iter().sum();
    // in an order that visits all groups in any part of a round
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let stride = (total * 89 / 233..).find(|s| *s > 0 && gcd(*s, total) == 1).unwrap();
    let (round, mut k) = (c.idx / total, c.idx % total * stride % total);
    let mut gi = 0;
    while k >= sizes[gi] {
        k -= sizes[gi];
        gi += 1;
    }
    let real = c.idx;
    c.idx = round * sizes[gi] + k;
    let (e0, n0) = (c.evals, c.nontrivial);
    let r = guarded(|| (gs[gi].f)(c)).and_then(|x| x);
    c.idx = real;
    let _ = (e0, n0);
    if let Err(e) = r {
        // a panic inside the crate, wherever it was caught
        if e.contains("panic at ") && !e.contains("HARNESS") {
            return Err(format!("{}: {}", gs[gi].name, e));
        }
        c.dig(e.as_bytes());
        c.ev("functional mismatches (digested only)");
    }
    c.ev("cases run without panic");
    let d = c.digest;
    c.seen(d);
    Ok(())
}
