//! C10 Troika against an independent implementation of the specification.
use crate::eng::*;
use crate::rtroika::{hash, perm, State};
use crate::util::*;
use iota_mam::troika::{Troika, TroikaSponge};

pub fn groups() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 1, deep: 4, f: crate::p::marathon::troika },
        g("permutation", 1500, permutation),
        g("setget", 300, setget),
        g("hash", 900, hashes),
        g("lengths", 40, lengths),
        g("reset", 500, reset),
        g("long", 8, long),
        Group { name: "huge", n: 4, deep: 6, f: crate::p::huge::troika },
    ]
}
fn check_perm(c: &mut Ctx, t: &mut Troika, st: &mut State, how: &str) -> R {
    t.permutation();
    perm(st);
    let got: Vec<u8> = (0..729).map(|i| t.get1(i)).collect();
    ck!(got[..] == st[..], "permutation of {}: {}", how, diff_at(&got, &st[..]));
    c.ev("permutations compared");
    c.dig(&got);
    Ok(())
}
fn permutation(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let v = match c.idx {
        0 => vec![0; 729],
        1 => vec![1; 729],
        2 => vec![2; 729],
        // single trits at every position over the run
        i if i % 3 == 0 => {
            let mut v = vec![0; 729];
            v[r.below(729)] = 1 + r.below(2) as u8;
            v
        }
        _ => r.trits_biased(729),
    };
    let mut st: State = [0; 729];
    st.copy_from_slice(&v);
    let mut t = if c.idx % 2 == 0 { Troika::default() } else { Troika::new() };
    let mut order: Vec<usize> = (0..729).collect();
    r.shuffle(&mut order);
    for i in order {
        t.set1(i, v[i]);
    }
    check_perm(c, &mut t, &mut st, &hexs(&v))?;
    // iterate, rewriting part of the state over previous values
    for _ in 0..r.below(4) {
        for _ in 0..r.below(400) {
            let (i, x) = (r.below(729), r.trit());
            t.set1(i, x);
            st[i] = x;
        }
        check_perm(c, &mut t, &mut st, "a rewritten state")?;
    }
    c.seen_b(&v);
    Ok(())
}
fn setget(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut t = Troika::default();
    let mut m = vec![0u8; 729];
    for k in 0..3000 {
        let i = if k < 729 { k } else { r.below(729) };
        let x = r.trit();
        t.set1(i, x);
        m[i] = x;
        let j = r.below(729);
        ck!(t.get1(i) == x && t.get1(j) == m[j], "trit {} or {} reads back wrong after writing {} over the previous value", i, j, x);
        c.evals += 2;
    }
    let got: Vec<u8> = (0..729).map(|i| t.get1(i)).collect();
    ck!(got == m, "state read back: {}", diff_at(&got, &m));
    c.ev("states read back");
    c.seen_b(&m);
    Ok(())
}
/// Hash through the sponge, absorbed and squeezed in pieces.
fn sponge(c: &mut Ctx, s: &mut TroikaSponge, msg: &[u8], n: usize, split: bool) -> R {
    let mut r = c.sub(0);
    let mut o = 0;
    while o < msg.len() {
        let k = if split { r.range(0, (msg.len() - o).min(*r.clone().pick(&[1, 30, 243, 500]))) } else { msg.len() };
        s.absorb(&msg[o..o + k]);
        o += k;
    }
    s.finalize();
    let mut out = r.trits(n);
    let mut o = 0;
    while o < n {
        let k = if split { r.range(0, (n - o).min(*r.clone().pick(&[1, 30, 243, 500]))) } else { n };
        s.squeeze(&mut out[o..o + k]);
        o += k;
    }
    let want = hash(msg, n);
    ck!(out == want, "hash of {} trits ({} squeezed, {}): {}", msg.len(), n, if split { "in pieces" } else { "at once" }, diff_at(&out, &want));
    c.ev(if split { "hashes in pieces" } else { "hashes at once" });
    c.dig(&out);
    Ok(())
}
fn hashes(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.tail(1100);
    let m = r.trits_biased(n);
    let k = r.size(800).max(1);
    c.rng = r;
    sponge(c, &mut TroikaSponge::default(), &m, k, false)?;
    sponge(c, &mut TroikaSponge::default(), &m, k, true)?;
    c.seen_b(&m);
    Ok(())
}
/// Every length up to three blocks.
fn lengths(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let per = 20;
    let m = r.trits(800);
    for k in 0..per {
        let n = (c.idx * per + k) % 760;
        sponge(c, &mut TroikaSponge::default(), &m[..n], 243, false)?;
        c.seen(n as u64);
    }
    Ok(())
}
fn reset(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut s = TroikaSponge::default();
    for _ in 0..r.range(1, 5) {
        // leave the sponge in any phase
        let n = r.tail(600);
        let x = r.trits(n);
        s.absorb(&x);
        if r.chance(1, 2) {
            s.finalize();
            let mut o = vec![0; r.size(400)];
            s.squeeze(&mut o);
        }
        s.reset();
        let m = r.size(600);
        let y = r.trits_biased(m);
        let k = r.size(500).max(1);
        c.rng = r.clone();
        let split = r.chance(1, 2);
        sponge(c, &mut s, &y, k, split).map_err(|e| format!("after reset: {}", e))?;
        s.reset();
        c.ev("hashes after reset");
        c.seen_b(&y);
    }
    Ok(())
}
fn long(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.range(3000, 40000);
    let m = r.trits(n);
    let k = r.range(2000, 6000);
    c.rng = r;
    sponge(c, &mut TroikaSponge::default(), &m, k, true)?;
    c.seen_b(&m);
    Ok(())
}
