//! C09 Spongos: random programs over several sponges, data split arbitrarily, against the trit-wise model.
use crate::eng::*;
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::spongos::{self, hash_data, hash_datas, Spongos};
use iota_mam::trits::{TritSlice, Trits};

pub fn groups() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 1, deep: 8, f: crate::p::marathon::sponge },
        g("program", 900, program),
        g("chunked", 900, chunked),
        g("alias", 700, alias),
        g("inverse", 500, inverse),
        g("inner", 400, inner),
        g("eq", 700, eq),
        g("hash", 400, hash),
        g("fork", 300, forks),
        g("join", 300, joins),
        g("long", 6, long),
        Group { name: "huge", n: 8, deep: 6, f: crate::p::huge::sponge },
    ]
}
fn pieces(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = match r.below(5) {
            0 => 1,
            1 => r.range(1, 9),
            2 => 486.min(left),
            3 => left,
            _ => r.range(1, left),
        }
        .min(left);
        v.push(k);
        left -= k;
        if r.chance(1, 6) {
            v.push(0);
        }
        if v.len() > 60 && left > 0 {
            v.push(left);
            left = 0;
        }
    }
    if v.is_empty() && r.chance(1, 2) {
        v.push(0);
    }
    v
}
fn absorb_p(r: &mut Rng, s: &mut Spongos, x: &[u8]) {
    let mut o = 0;
    for k in pieces(r, x.len()) {
        if r.chance(1, 3) {
            s.absorb_trits(&tr(&x[o..o + k]));
        } else {
            s.absorb(sl(x).drop(o).take(k));
        }
        o += k;
    }
}
fn squeeze_p(r: &mut Rng, s: &mut Spongos, n: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    for k in pieces(r, n) {
        if r.chance(1, 3) {
            out.extend(tvt(&s.squeeze_trits(k)));
        } else {
            let (a, b) = (r.below(5), r.below(5));
            let mut v = r.trits(a + k + b);
            let w = v.clone();
            s.squeeze(slm(&mut v).drop(a).take(k));
            ck!(v[..a] == w[..a] && v[a + k..] == w[a + k..], "squeeze of {} trits writes outside its window", k);
            out.extend_from_slice(&v[a..a + k]);
        }
    }
    Ok(out)
}
/// Encrypt (or decrypt) x in pieces, each piece through a random kind of buffers.
fn crypt_p(r: &mut Rng, s: &mut Spongos, x: &[u8], dec: bool) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut o = 0;
    for k in pieces(r, x.len()) {
        let p = &x[o..o + k];
        o += k;
        match r.below(5) {
            0 => {
                let t = tr(p);
                out.extend(tvt(&if dec { s.decr_trits(&t) } else { s.encr_trits(&t) }));
                ck!(tvt(&t) == p, "{} changes its input", nm(dec));
            }
            1 => {
                let mut t = tr(p);
                if dec {
                    s.decr_mut_trits(&mut t)
                } else {
                    s.encr_mut_trits(&mut t)
                }
                out.extend(tvt(&t));
            }
            2 => {
                // same window inside a bigger buffer
                let (a, b) = (r.below(6), r.below(6));
                let mut v = r.trits(a);
                v.extend_from_slice(p);
                v.extend(r.trits(b));
                let w = v.clone();
                let y = slm(&mut v).drop(a).take(k);
                if dec {
                    s.decr(y.as_const(), y)
                } else {
                    s.encr(y.as_const(), y)
                }
                ck!(v[..a] == w[..a] && v[a + k..] == w[a + k..], "{} in place writes outside its window", nm(dec));
                out.extend_from_slice(&v[a..a + k]);
            }
            3 => {
                // two disjoint windows of one buffer, either order, possibly adjacent
                let (a, m, b) = (r.below(4), r.below(4), r.below(4));
                let first = r.chance(1, 2);
                let mut v = r.trits(a + k + m + k + b);
                let (xo, yo) = if first { (a, a + k + m) } else { (a + k + m, a) };
                v[xo..xo + k].copy_from_slice(p);
                let w = v.clone();
                let all = slm(&mut v);
                let (xs, ys) = (all.drop(xo).take(k), all.drop(yo).take(k));
                if dec {
                    s.decr(xs.as_const(), ys)
                } else {
                    s.encr(xs.as_const(), ys)
                }
                let q = v[yo..yo + k].to_vec();
                let mut u = w.clone();
                u[yo..yo + k].copy_from_slice(&q);
                ck!(v == u, "{} between windows of one buffer writes outside its output ({} trits, {} to {})", nm(dec), k, xo, yo);
                out.extend(q);
            }
            _ => {
                // separate buffers, possibly at equal offsets
                let a = r.below(5);
                let b = if r.chance(1, 2) { a } else { r.below(5) };
                let mut u = r.trits(a);
                u.extend_from_slice(p);
                let keep = u.clone();
                let mut v = r.trits(b + k);
                let head = v[..b].to_vec();
                let (xs, ys) = (sl(&u).drop(a), slm(&mut v).drop(b));
                if dec {
                    s.decr(xs, ys)
                } else {
                    s.encr(xs, ys)
                }
                ck!(u == keep, "{} changes its input buffer", nm(dec));
                ck!(v[..b] == head[..], "{} writes outside its output", nm(dec));
                out.extend_from_slice(&v[b..]);
            }
        }
    }
    Ok(out)
}
fn nm(dec: bool) -> &'static str {
    if dec {
        "decryption"
    } else {
        "encryption"
    }
}
fn program(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut objs: Vec<(Spongos, RS)> = vec![(if r.chance(1, 2) { Spongos::init() } else { spongos::init() }, RS::new())];
    let steps = r.range(4, 22);
    let mut trace = String::new();
    for st in 0..steps {
        let i = r.below(objs.len());
        let big = r.chance(1, 8);
        let n = r.size(if big { 1500 } else { 520 });
        match r.below(12) {
            0 | 1 => {
                let x = r.trits_biased(n);
                absorb_p(&mut r, &mut objs[i].0, &x);
                objs[i].1.absorb(&x);
                trace += &format!(" absorb{}@{}", n, i);
                c.ev("absorb");
            }
            2 | 3 => {
                let a = squeeze_p(&mut r, &mut objs[i].0, n)?;
                let b = objs[i].1.squeeze(n);
                trace += &format!(" squeeze{}@{}", n, i);
                ck!(a == b, "squeezed trits differ after{}: {}", trace, diff_at(&a, &b));
                c.ev("squeeze");
            }
            4 | 5 => {
                let x = r.trits_biased(n);
                let dec = r.chance(1, 2);
                let a = crypt_p(&mut r, &mut objs[i].0, &x, dec)?;
                let b = if dec { objs[i].1.decr(&x) } else { objs[i].1.encr(&x) };
                trace += &format!(" {}{}@{}", if dec { "decr" } else { "encr" }, n, i);
                ck!(a == b, "output of {} differs after{}: {}", nm(dec), trace, diff_at(&a, &b));
                c.ev(nm(dec));
            }
            6 | 7 => {
                objs[i].0.commit();
                objs[i].1.commit();
                trace += &format!(" commit@{}", i);
                c.ev("commit");
            }
            8 => {
                if objs.len() < 4 {
                    let o = (objs[i].0.fork(), objs[i].1.clone());
                    objs.push(o);
                } else {
                    let j = r.below(objs.len());
                    if j != i {
                        let src = objs[i].0.clone();
                        src.fork_at(&mut objs[j].0);
                        objs[j].1 = objs[i].1.clone();
                    }
                }
                trace += &format!(" fork@{}", i);
                c.ev("fork");
            }
            9 => {
                let j = r.below(objs.len());
                if i != j {
                    let mut o = (objs[j].0.clone(), objs[j].1.clone());
                    objs[i].0.join(&mut o.0);
                    objs[i].1.join(&mut o.1);
                    objs[j] = o;
                    trace += &format!(" join{}<-{}", i, j);
                    c.ev("join");
                }
            }
            10 => {
                objs[i].0.commit();
                objs[i].1.commit();
                let v = tvt(&objs[i].0.to_inner_trits());
                ck!(v[..] == objs[i].1.st[RATE..], "inner state differs after{}: {}", trace, diff_at(&v, &objs[i].1.st[RATE..]));
                objs[i].0 = Spongos::from_inner(sl(&v));
                objs[i].1 = RS::from_inner(&v);
                trace += &format!(" inner@{}", i);
                c.ev("inner");
            }
            _ => {
                let y = objs[i].1.clone().squeeze(n);
                let mut y2 = y.clone();
                let bad = n > 0 && r.chance(1, 2);
                if bad {
                    let k = r.below(n);
                    y2[k] = (y2[k] + 1 + r.below(2) as u8) % 3;
                }
                let ok = objs[i].0.squeeze_eq(sl(&y2));
                objs[i].1.squeeze(n);
                trace += &format!(" squeeze_eq{}@{}", n, i);
                ck!(ok != bad, "squeeze_eq is {} for {} trits after{}", ok, n, trace);
                c.ev(if bad { "squeeze_eq refused" } else { "squeeze_eq accepted" });
            }
        }
        if st == steps - 1 || r.chance(1, 6) {
            for (k, o) in objs.iter().enumerate() {
                let (a, b) = (fp(&o.0), rfp(&o.1));
                ck!(a == b, "state of sponge {} differs after{}: {}", k, trace, diff_at(&a, &b));
                c.dig(&a);
                c.ev("state fingerprints compared");
            }
        }
    }
    c.seen_b(trace.as_bytes());
    c.sample(trace);
    Ok(())
}
/// The same data in one call and in pieces.
fn chunked(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let s0 = lib_state(&p);
    let n = r.tail(1600);
    let x = r.trits_biased(n);
    let (mut a, mut b) = (s0.fork(), s0.fork());
    let what;
    match c.idx % 4 {
        0 => {
            what = "absorb";
            a.absorb(sl(&x));
            absorb_p(&mut r, &mut b, &x);
        }
        1 => {
            what = "squeeze";
            let u = tvt(&a.squeeze_trits(n));
            let v = squeeze_p(&mut r, &mut b, n)?;
            ck!(u == v, "squeeze of {} trits depends on how it is split: {}", n, diff_at(&u, &v));
        }
        2 => {
            what = "encryption";
            let u = tvt(&a.encr_trits(&tr(&x)));
            let v = crypt_p(&mut r, &mut b, &x, false)?;
            ck!(u == v, "encryption of {} trits depends on splitting or buffers: {}", n, diff_at(&u, &v));
        }
        _ => {
            what = "decryption";
            let u = tvt(&a.decr_trits(&tr(&x)));
            let v = crypt_p(&mut r, &mut b, &x, true)?;
            ck!(u == v, "decryption of {} trits depends on splitting or buffers: {}", n, diff_at(&u, &v));
        }
    }
    ck!(fp(&a) == fp(&b), "state after {} of {} trits depends on splitting or buffers", what, n);
    c.ev(what);
    c.seen_b(&x);
    Ok(())
}
/// In place, disjoint in one buffer, separate: all alike, at every offset relation.
fn alias(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let s0 = lib_state(&p);
    let n = if r.chance(1, 2) { r.below(30) } else { r.size(1000) };
    let x = r.trits(n);
    let dec = c.idx % 2 == 1;
    let (mut m, rest) = {
        let mut q = ref_state(&p);
        let y = if dec { q.decr(&x) } else { q.encr(&x) };
        (y, rfp(&q))
    };
    for k in 0..6 {
        let mut s = s0.fork();
        let y = crypt_p(&mut r, &mut s, &x, dec)?;
        ck!(y == m, "{} of {} trits through buffers variant {}: {}", nm(dec), n, k, diff_at(&y, &m));
        ck!(fp(&s) == rest, "state after {} of {} trits depends on the buffers", nm(dec), n);
        c.ev(nm(dec));
    }
    // output window right before / after the input, and at every distance up to its size
    for d in [n, n + 1, n + 2] {
        let mut v = vec![0u8; 2 * n + 4];
        let (xo, yo) = if r.chance(1, 2) { (0, d) } else { (d, 0) };
        v[xo..xo + n].copy_from_slice(&x);
        let all = slm(&mut v);
        let mut s = s0.fork();
        let (xs, ys) = (all.drop(xo).take(n), all.drop(yo).take(n));
        if dec {
            s.decr(xs.as_const(), ys)
        } else {
            s.encr(xs.as_const(), ys)
        }
        ck!(v[yo..yo + n] == m[..] && v[xo..xo + n] == x[..], "{} of {} trits at distance {}", nm(dec), n, d);
        ck!(fp(&s) == rest, "state after {} at distance {}", nm(dec), d);
        c.ev(nm(dec));
    }
    m.clear();
    c.seen_b(&x);
    Ok(())
}
fn inverse(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let (mut a, mut b) = (lib_state(&p), lib_state(&p));
    for _ in 0..r.range(1, 4) {
        let n = r.size(900);
        let x = r.trits_biased(n);
        let y = crypt_p(&mut r, &mut a, &x, false)?;
        let z = crypt_p(&mut r, &mut b, &y, true)?;
        ck!(x == z, "decryption does not invert encryption of {} trits: {}", n, diff_at(&x, &z));
        ck!(fp(&a) == fp(&b), "states differ after encryption and decryption of {} trits", n);
        c.ev("encrypted and decrypted");
        c.seen_b(&x);
        if r.chance(1, 2) {
            a.commit();
            b.commit();
        }
    }
    Ok(())
}
/// Restoring a committed state from its inner part.
fn inner(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let mut a = lib_state(&p);
    a.commit();
    let v = a.to_inner_trits();
    let mut w = r.trits(250);
    a.to_inner(slm(&mut w).drop(3).take(243));
    ck!(w[3..246] == tvt(&v)[..], "to_inner and to_inner_trits differ");
    let mut q = ref_state(&p);
    q.commit();
    ck!(tvt(&v)[..] == q.st[RATE..], "inner state differs from the model");
    let mut b = if r.chance(1, 2) { Spongos::from_inner_trits(&v) } else { Spongos::from_inner(v.slice()) };
    ck!(fp(&b) == rfp(&RS::from_inner(&tvt(&v))), "state restored from its inner part differs from the model");
    // once the whole outer part has been overwritten both continue alike
    let x = r.trits(486);
    absorb_p(&mut r, &mut a, &x);
    absorb_p(&mut r, &mut b, &x);
    ck!(fp(&a) == fp(&b), "a state restored from its inner part continues differently");
    ck!(b.squeeze_eq_trits(&a.squeeze_trits(300)), "a restored state squeezes differently");
    c.evn("restored states compared", 3);
    c.seen_b(&tvt(&v));
    Ok(())
}
/// squeeze_eq accepts exactly what squeeze would produce.
fn eq(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let s0 = lib_state(&p);
    let n = r.tail(1300).max(1);
    let y = tvt(&s0.fork().squeeze_trits(n));
    let mut a = s0.fork();
    a.squeeze_trits(n);
    let want = fp(&a);
    let mut bad: Vec<Vec<usize>> = vec![vec![], vec![0], vec![n - 1], vec![0, n - 1]];
    for _ in 0..4 {
        bad.push(vec![r.below(n)]);
        // several at once, which must not make up for each other
        bad.push((0..r.range(2, 5)).map(|_| r.below(n)).collect());
    }
    for b in [485usize, 486, 487, 971, 972] {
        if b < n {
            bad.push(vec![b]);
        }
    }
    // the same place of several blocks
    let (at, step) = (r.below(n), *r.pick(&[1usize, 3, 27, 243, 486]));
    bad.push((at..n).step_by(step).collect());
    bad.push((at..n).step_by(step).take(2).collect());
    bad.push((0..n).collect());
    for mut k in bad {
        k.sort();
        k.dedup();
        let mut z = y.clone();
        let (by, alt) = (1 + r.below(2) as u8, r.chance(1, 2));
        for (j, i) in k.iter().enumerate() {
            z[*i] = (z[*i] + if alt && j % 2 == 1 { 3 - by } else { by }) % 3;
        }
        let mut s = s0.fork();
        let ok = if r.chance(1, 2) { s.squeeze_eq_trits(&tr(&z)) } else { s.squeeze_eq(sl(&z)) };
        ck!(ok == k.is_empty(), "squeeze_eq of {} trits with differences at {:?} is {}", n, &k[..k.len().min(9)], ok);
        ck!(fp(&s) == want, "state after squeeze_eq differs from the one after squeeze");
        c.ev(if ok { "squeeze_eq accepted" } else { "squeeze_eq refused" });
    }
    // in pieces
    let mut s = s0.fork();
    let mut o = 0;
    for k in pieces(&mut r, n) {
        ck!(s.squeeze_eq(sl(&y).drop(o).take(k)), "squeeze_eq in pieces refuses at {} of {}", o, n);
        o += k;
    }
    ck!(fp(&s) == want, "state after squeeze_eq in pieces");
    c.ev("squeeze_eq in pieces");
    c.seen_b(&y);
    Ok(())
}
fn hash(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let parts: Vec<Vec<u8>> = (0..r.below(5))
        .map(|_| {
            let n = r.size(700);
            r.trits_biased(n)
        })
        .collect();
    let n = r.size(700);
    let all: Vec<u8> = parts.concat();
    let want = hash_parts(&[&all], n);
    let mut y = vec![1u8; n];
    hash_data(sl(&all), slm(&mut y));
    ck!(y == want, "hash_data of {} trits: {}", all.len(), diff_at(&y, &want));
    let mut z = vec![2u8; n];
    let ss: Vec<TritSlice> = parts.iter().map(|p| sl(p)).collect();
    hash_datas(&ss, slm(&mut z));
    ck!(z == want, "hash_datas of {} pieces, {} trits: {}", parts.len(), all.len(), diff_at(&z, &want));
    // output over the input
    if all.len() >= n {
        let mut b = all.clone();
        let m = slm(&mut b);
        hash_data(m.as_const(), m.take(n));
        ck!(b[..n] == want[..] && b[n..] == all[n..], "hash_data onto its own input");
    }
    c.evn("hashes compared", 3);
    c.seen_b(&all);
    c.dig(&y);
    Ok(())
}
fn forks(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = gen_pre(&mut r);
    let mut a = lib_state(&p);
    let f0 = fp(&a);
    let mut b = a.fork();
    let mut d = Spongos::init();
    d.absorb_trits(&Trits::zero(r.below(600)));
    a.fork_at(&mut d);
    ck!(fp(&b) == f0 && fp(&d) == f0, "a fork differs from its origin");
    // work on one of them leaves the others alone
    let n = r.tail(1200).max(1);
    let x = r.trits(n);
    let objs: [&mut Spongos; 3] = [&mut a, &mut b, &mut d];
    let k = r.below(3);
    let mut objs = objs;
    match r.below(4) {
        0 => absorb_p(&mut r, objs[k], &x),
        1 => {
            squeeze_p(&mut r, objs[k], n)?;
        }
        2 => {
            crypt_p(&mut r, objs[k], &x, false)?;
        }
        _ => {
            crypt_p(&mut r, objs[k], &x, true)?;
            objs[k].commit();
        }
    }
    for (i, o) in objs.iter().enumerate() {
        if i != k {
            ck!(fp(o) == f0, "work on one fork changed another");
            c.ev("forks independent");
        }
    }
    c.seen_b(&x);
    Ok(())
}
fn joins(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (p, q) = (gen_pre(&mut r), gen_pre(&mut r));
    let (mut a, mut b) = (lib_state(&p), lib_state(&q));
    let (mut u, mut v) = (ref_state(&p), ref_state(&q));
    a.join(&mut b);
    u.join(&mut v);
    ck!(fp(&a) == rfp(&u), "joiner differs from the model");
    ck!(fp(&b) == rfp(&v), "joinee differs from the model");
    // any difference in the joined state shows
    let mut b2 = lib_state(&q);
    b2.absorb(sl(&[1, 2, 1]));
    b2.commit();
    let mut a2 = lib_state(&p);
    a2.join(&mut b2);
    ck!(fp(&a2) != fp(&a), "the joined state has no influence");
    c.evn("joins", 3);
    c.seen_b(&rfp(&u));
    Ok(())
}
fn long(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = 486 * r.range(20, 200) + r.below(486);
    let x = r.trits(n);
    let (mut s, mut m) = (Spongos::init(), RS::new());
    absorb_p(&mut r, &mut s, &x);
    m.absorb(&x);
    let y = crypt_p(&mut r, &mut s, &x, false)?;
    let z = m.encr(&x);
    ck!(y == z, "encryption of {} trits: {}", n, diff_at(&y, &z));
    let y = squeeze_p(&mut r, &mut s, n)?;
    let z = m.squeeze(n);
    ck!(y == z, "squeeze of {} trits: {}", n, diff_at(&y, &z));
    ck!(fp(&s) == rfp(&m), "state after a long history");
    c.evn("long histories", 3);
    c.seen_b(&x);
    Ok(())
}
