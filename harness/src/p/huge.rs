//! Very long operands for the operations that take any number of trits, in a thread with a stack that does not grow with them.
use crate::eng::*;
use crate::rmodel::{prng as rprng, unbal, RS};
use crate::rng::Rng;
use crate::rtroika;
use crate::util::*;
use iota_mam::prng::PRNG;
use iota_mam::spongos;
use iota_mam::trits::Trits;
use iota_mam::troika::TroikaSponge;

/// Run in a thread with a modest stack.
fn plain(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, || guarded(f));
        match h.map_err(|e| format!("HARNESS spawn: {}", e))?.join() {
            Ok(x) => x.and_then(|y| y),
            Err(_) => Err("the thread ended".into()),
        }
    })
}
fn len(c: &Ctx, r: &mut Rng) -> usize {
    if c.small {
        r.range(20_000, 60_000)
    } else if c.idx % 4 == 1 {
        r.range(3_000_000, 7_000_000)
    } else {
        r.range(270_000, 1_100_000)
    }
}
fn long(c: &Ctx, r: &mut Rng) -> usize {
    if c.small {
        r.range(20_000, 60_000)
    } else if c.idx % 5 < 2 {
        r.range(4_000_000, 9_000_000)
    } else {
        r.range(270_000, 800_000)
    }
}
fn unb(mut v: i64, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let t = v % 3;
            v /= 3;
            t as u8
        })
        .collect()
}
/// C07: values and text of very long arrays.
pub fn text(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = len(c, &mut r);
    let v = r.trits(n);
    let (off, tail) = (r.below(5), r.below(5));
    let mut g = r.clone();
    let mut b = r.trits(off);
    b.extend_from_slice(&v);
    b.extend(r.trits(tail));
    plain(|| {
        let w = crate::p::c07::to_text(&v);
        let s = sl(&b).drop(off).take(n);
        ck!(s.to_str() == w && tr(&v).to_str() == w, "to_str of {} trits differs", n);
        ck!(format!("{}", s) == w, "Display of {} trits differs", n);
        let mut p = v.clone();
        p.resize((n + 2) / 3 * 3, 0);
        let t = Trits::from_str(&w).ok_or_else(|| format!("from_str rejects the text of {} trits", n))?;
        ck!(tvt(&t) == p, "from_str of {} trits: {}", n, diff_at(&tvt(&t), &p));
        let mut q = vec![1u8; p.len() + 2];
        ck!(slm(&mut q).drop(1).take(p.len()).from_str(&w), "from_str into a slice of {} trits fails", p.len());
        ck!(q[1..p.len() + 1] == p[..] && q[0] == 1 && q[p.len() + 1] == 1, "from_str into a slice of {} trits differs", p.len());
        let mut y = vec![9u8; n];
        s.get_trits(&mut y);
        ck!(y == v, "get_trits of {} trits: {}", n, diff_at(&y, &v));
        let mut z = vec![9i8; n];
        s.get1s(&mut z);
        ck!(z.iter().zip(&v).all(|(a, b)| (*a as i32 + 3) % 3 == *b as i32), "get1s of {} trits differs", n);
        let mut x = vec![1u8; n + 2];
        slm(&mut x).drop(1).take(n).put_trits(&v);
        ck!(x[1..n + 1] == v[..] && x[0] == 1 && x[n + 1] == 1, "put_trits of {} trits differs", n);
        let mut x = vec![1u8; n + 2];
        slm(&mut x).drop(1).put1s(&z);
        ck!(x[1..n + 1] == v[..] && x[0] == 1 && x[n + 1] == 1, "put1s of {} trits differs", n);
        // numbers far from the start of the array
        let mut f = v.clone();
        for _ in 0..200 {
            let d = if g.chance(1, 2) { n - 18 - g.below(100) } else { g.below(n - 18) };
            let i = g.below(6);
            let k = [1usize, 3, 6, 9, 18, 3][i];
            let top = (3i64.pow(k as u32) - 1) / 2;
            let z = g.irange(-top, top);
            let w = slm(&mut f).drop(d);
            match i {
                0 => w.put1(z as i8),
                1 => w.put3(z as i8),
                2 => w.put6(z as i16),
                3 => w.put9(z as i16),
                4 => w.put18(z as i32),
                _ => w.put_tryte((z + 13) as u8),
            }
            let want = if i == 5 { unb(z + 13, 3) } else { unbal(z, k) };
            ck!(f[d..d + k] == want[..], "{} written as {} trits at offset {}: {}", z, k, d, diff_at(&f[d..d + k], &want));
            let y = sl(&f).drop(d);
            let got = match i {
                0 => y.get1() as i64,
                1 => y.get3() as i64,
                2 => y.get6() as i64,
                3 => y.get9() as i64,
                4 => y.get18() as i64,
                _ => y.get_tryte() as i64 - 13,
            };
            ck!(got == z, "{} of {} trits read at offset {} as {}", z, k, d, got);
            f[d..d + k].copy_from_slice(&v[d..d + k]);
            ck!(d == 0 || f[d - 1] == v[d - 1], "writing {} trits at offset {} changes the trit before", k, d);
            let e = g.range(1, 40).min(n - d);
            let w = slm(&mut f).drop(d).take(e);
            let full = v[d..d + e].iter().all(|t| *t == 2);
            ck!(w.inc() != full, "inc of {} trits at offset {}", e, d);
            let mut z = v[d..d + e].to_vec();
            for t in z.iter_mut() {
                *t = (*t + 1) % 3;
                if *t != 0 {
                    break;
                }
            }
            ck!(f[d..d + e] == z[..], "inc of {} trits at offset {}: {}", e, d, diff_at(&f[d..d + e], &z));
            f[d..d + e].copy_from_slice(&v[d..d + e]);
        }
        ck!(f == v, "work on a long array far from its start: {}", diff_at(&f, &v));
        // a carry through all trits
        slm(&mut x).drop(1).take(n).set_trit(2);
        ck!(x[1..n + 1].iter().all(|t| *t == 2) && x[0] == 1 && x[n + 1] == 1, "set_trit on {} trits", n);
        ck!(!slm(&mut x).drop(1).take(n).inc(), "inc of {} trits that are all 2 is not an overflow", n);
        ck!(x[1..n + 1].iter().all(|t| *t == 0) && x[0] == 1 && x[n + 1] == 1, "inc of {} trits that are all 2", n);
        x[1..n].fill(2);
        ck!(slm(&mut x).drop(1).take(n).inc(), "inc of {} trits overflows", n);
        ck!(x[1..n].iter().all(|t| *t == 0) && x[n] == 1, "inc with a carry through {} trits", n - 1);
        Ok(())
    })?;
    c.evn("operations on very long arrays", 12);
    c.seen_b(&v[..2000]);
    Ok(())
}
/// C08: windows, copies and combinations of very long arrays.
pub fn windows(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = len(c, &mut r);
    let off = |r: &mut Rng| if r.chance(1, 2) { r.below(9) } else { r.range(60_000, 140_000) };
    let (a, b, d) = (off(&mut r), off(&mut r), off(&mut r));
    let (x0, y0, z0) = (r.trits(n + a + 20), r.trits(n + b + 20), r.trits(n + d + 20));
    let k = r.range(1, 3000);
    let e = r.below(n);
    plain(|| {
        let (mut x, mut y, mut z) = (x0.clone(), y0.clone(), z0.clone());
        let add = |p: &[u8], q: &[u8]| -> Vec<u8> { p.iter().zip(q).map(|(s, t)| (s + t) % 3).collect() };
        let sub = |p: &[u8], q: &[u8]| -> Vec<u8> { p.iter().zip(q).map(|(s, t)| (3 + s - t) % 3).collect() };
        let outside = |v: &[u8], o: &[u8], at: usize| v[..at] == o[..at] && v[at + n..] == o[at + n..];
        let (wx, wy) = (x[a..a + n].to_vec(), y[b..b + n].to_vec());
        slm(&mut x).drop(a).take(n).swap_add(slm(&mut y).drop(b).take(n));
        ck!(x[a..a + n] == add(&wx, &wy)[..] && y[b..b + n] == wx[..], "swap_add of {} trits differs", n);
        let (wx, wy) = (x[a..a + n].to_vec(), y[b..b + n].to_vec());
        slm(&mut x).drop(a).take(n).swap_sub(slm(&mut y).drop(b).take(n));
        ck!(x[a..a + n] == sub(&wx, &wy)[..] && x[a..a + n] == y[b..b + n], "swap_sub of {} trits differs", n);
        y.copy_from_slice(&y0);
        let wx = x[a..a + n].to_vec();
        sl(&x).drop(a).take(n).copy_add(slm(&mut y).drop(b).take(n), slm(&mut z).drop(d).take(n));
        ck!(z[d..d + n] == add(&wx, &y0[b..b + n])[..] && y[b..b + n] == wx[..] && x[a..a + n] == wx[..], "copy_add of {} trits differs", n);
        y.copy_from_slice(&y0);
        sl(&x).drop(a).take(n).copy_sub(slm(&mut y).drop(b).take(n), slm(&mut z).drop(d).take(n));
        ck!(z[d..d + n] == sub(&wx, &y0[b..b + n])[..] && y[b..b + n] == z[d..d + n] && x[a..a + n] == wx[..], "copy_sub of {} trits differs", n);
        sl(&x).drop(a).take(n).copy(slm(&mut z).drop(d).take(n));
        ck!(z[d..d + n] == wx[..], "copy of {} trits differs", n);
        ck!(outside(&x, &x0, a) && outside(&y, &y0, b) && outside(&z, &z0, d), "work on {} trits writes outside its windows", n);
        // comparison up to the last trit
        ck!(sl(&x).drop(a).take(n).eq(sl(&z).drop(d).take(n)), "equal windows of {} trits compare as different", n);
        let last = n - 1;
        for at in [last, e] {
            z[d + at] = (z[d + at] + 1) % 3;
            ck!(!sl(&x).drop(a).take(n).eq(sl(&z).drop(d).take(n)), "windows of {} trits that differ at {} compare as equal", n, at);
            ck!(tr(&x[a..a + n]) != tr(&z[d..d + n]), "arrays of {} trits that differ at {} compare as equal", n, at);
            z[d + at] = (z[d + at] + 2) % 3;
        }
        let t = sl(&x).drop(a).take(n).clone_trits();
        ck!(t.size() == n && tvt(&t) == wx && t.clone() == t, "a copy of {} trits differs", n);
        // pieces
        let ch = sl(&x).drop(a).take(n).chunks(k);
        ck!(ch.len() == (n + k - 1) / k, "{} trits in pieces of {}: {} pieces", n, k, ch.len());
        ck!(ch.iter().zip(wx.chunks(k)).all(|(p, q)| tvt(p) == q), "pieces of {} of {} trits differ", k, n);
        let p = tr(&wx[..k.min(n)]);
        let cy = Trits::cycle_trits(n, &p);
        ck!(tvt(&cy).iter().enumerate().all(|(i, t)| *t == wx[i % k.min(n)]), "{} trits filled by a cycle of {}", n, k);
        slm(&mut z).drop(d).take(n).set_zero();
        ck!(z[d..d + n].iter().all(|t| *t == 0) && outside(&z, &z0, d), "set_zero on {} trits", n);
        Ok(())
    })?;
    c.evn("operations on very long windows", 13);
    c.seen_b(&x0[..2000]);
    Ok(())
}
/// C09: one call with a very long operand is the documented sponge.
pub fn sponge(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = long(c, &mut r);
    let pre = gen_pre(&mut r);
    let x = r.trits(n);
    let k = r.range(1, 1000);
    let how = c.idx % 4;
    plain(|| {
        let (mut s, mut m) = (lib_state(&pre), ref_state(&pre));
        match how {
            0 => {
                s.absorb(sl(&x));
                m.absorb(&x);
            }
            1 => {
                let (y, z) = (tvt(&s.squeeze_trits(n)), m.squeeze(n));
                ck!(y == z, "squeeze of {} trits: {}", n, diff_at(&y, &z));
                ck!(lib_state(&pre).squeeze_eq(sl(&y)), "squeeze_eq refuses the {} trits squeezed", n);
                let mut y = y;
                y[n - 1] = (y[n - 1] + 1) % 3;
                ck!(!lib_state(&pre).squeeze_eq(sl(&y)), "squeeze_eq accepts {} trits whose last one differs", n);
            }
            2 => {
                let mut y = vec![0u8; n];
                s.encr(sl(&x), slm(&mut y));
                let z = m.encr(&x);
                ck!(y == z, "encryption of {} trits: {}", n, diff_at(&y, &z));
                let mut t = tr(&x);
                lib_state(&pre).encr_mut_trits(&mut t);
                ck!(tvt(&t) == z, "encryption in place of {} trits: {}", n, diff_at(&tvt(&t), &z));
                let mut w = vec![0u8; n];
                lib_state(&pre).decr(sl(&y), slm(&mut w));
                ck!(w == x, "decryption of {} trits: {}", n, diff_at(&w, &x));
            }
            _ => {
                let mut t = tr(&x);
                s.decr_mut_trits(&mut t);
                let z = m.decr(&x);
                ck!(tvt(&t) == z, "decryption in place of {} trits: {}", n, diff_at(&tvt(&t), &z));
                let mut h = vec![0u8; n];
                spongos::hash_datas(&[sl(&x[..k]), sl(&x[k..])], slm(&mut h));
                let mut q = RS::new();
                q.absorb(&x);
                q.commit();
                let z = q.squeeze(n);
                ck!(h == z, "hash of {} trits to {}: {}", n, n, diff_at(&h, &z));
            }
        }
        ck!(fp(&s) == rfp(&m), "state after one operation on {} trits differs", n);
        Ok(())
    })?;
    c.evn("calls with a very long operand", 2);
    c.seen_b(&x[..2000]);
    Ok(())
}
/// C10: the same for the plain sponge.
pub fn troika(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = long(c, &mut r);
    let k = if c.idx % 2 == 0 { r.range(1, 500) } else { n };
    let x = r.trits(if c.idx % 2 == 0 { n } else { 300 });
    plain(|| {
        let mut s = TroikaSponge::default();
        s.absorb(&x);
        s.finalize();
        let mut y = vec![0u8; k];
        s.squeeze(&mut y);
        let w = rtroika::hash(&x, k);
        ck!(y == w, "hash of {} trits to {}: {}", x.len(), k, diff_at(&y, &w));
        Ok(())
    })?;
    c.evn("very long hashes", 1);
    c.seen_b(&x);
    Ok(())
}
/// C11: the same for the generator.
pub fn prng(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits(243);
    let n = long(c, &mut r);
    let (nn, k) = if c.idx % 2 == 0 { (r.below(200), n) } else { (n, r.range(1, 700)) };
    let x = r.trits(nn);
    plain(|| {
        let g = PRNG::init(sl(&key));
        let w = rprng(&key, &[&x], k);
        let y = tvt(&g.gen_trits(&tr(&x), k));
        ck!(y == w, "{} trits from a nonce of {}: {}", k, nn, diff_at(&y, &w));
        let h = nn / 3;
        let mut a = vec![0u8; k];
        g.gens(&[sl(&x[..h]), sl(&x[h..])], slm(&mut a));
        ck!(a == w, "{} trits from a nonce of {} in two parts: {}", k, nn, diff_at(&a, &w));
        Ok(())
    })?;
    c.evn("very long streams", 2);
    c.seen_b(&key);
    Ok(())
}
