//! C04 keyload reaches exactly its recipients.
use crate::eng::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::spongos::Spongos;

pub fn groups() -> Vec<Group> {
    vec![g("recipients", 260, recipients), g("bulk", 12, bulk), g("pkid", 40, pkid)]
}
type Psk = (Vec<u8>, Vec<u8>);
type Nk = (Vec<u8>, usize);

fn receive(r: &mut Rng, id: &[u8], s0: &Spongos, l0: &Spongos, v: &[u8], psks: Vec<Psk>, ntrus: Vec<Nk>) -> (Got, Vec<u8>) {
    let rx = Rx { want: Want::Keyload { psks, ntrus }, id: Some(id.to_vec()) };
    let mut t = s0.fork();
    let g = lib_unwrap_v(&rx, &mut t, l0, v, r);
    let f = fp(&t);
    (g, f)
}
fn foreign_psks(r: &mut Rng, n: usize) -> Vec<Psk> {
    (0..n).map(|_| (r.trits(81), r.trits(243))).collect()
}
/// Keys that are not listed, some with identities close to listed ones or with their secrets.
fn near_psks(r: &mut Rng, listed: &[Psk], n: usize) -> Vec<Psk> {
    let mut f = foreign_psks(r, n);
    for x in f.iter_mut() {
        if listed.is_empty() || !r.chance(1, 3) {
            continue;
        }
        let l = r.pick(listed);
        let mut id = l.0.clone();
        match r.below(4) {
            0 => {
                let k = r.below(81);
                id[k] = (id[k] + 1 + r.below(2) as u8) % 3;
            }
            1 => {
                let k = r.range(1, 80);
                id[..k].copy_from_slice(&x.0[..k]);
            }
            2 => {
                let k = r.range(1, 80);
                id[k..].copy_from_slice(&x.0[k..]);
            }
            _ => {
                // another identity, a listed secret
                x.1 = l.1.clone();
                continue;
            }
        }
        if !listed.iter().any(|p| p.0 == id) {
            x.0 = id;
        }
    }
    f
}
fn run(c: &mut Ctx, r: &mut Rng, m: &Body, every: usize) -> R {
    let (id, psks, ntrus) = match m {
        Body::Keyload { id, psks, ntrus, .. } => (id, psks, ntrus),
        _ => return Ok(()),
    };
    let s0 = lib_state(&gen_pre(r));
    let l0 = lib_state(&gen_pre(r));
    let mut s = s0.fork();
    let v = lib_wrap(m, &mut s, &mut l0.fork(), (3, 3), 1)?;
    let want = fp(&s);
    c.seen_b(&v);
    c.dig(&v);
    let d = describe(m);
    let ok = |c: &mut Ctx, what: &str, g: (Got, Vec<u8>)| -> R {
        if let Err(e) = g.0.res {
            return Err(format!("{}: {} cannot open it: {}", d, what, e));
        }
        ck!(g.0.used == v.len(), "{}: {} consumed {} of {} trits", d, what, g.0.used, v.len());
        ck!(g.1 == want, "{}: {} reaches another state than the sender", d, what);
        c.ev("entitled receivers reached the sender's state");
        Ok(())
    };
    for (i, p) in psks.iter().enumerate() {
        if i % every != 0 && i + 1 != psks.len() {
            continue;
        }
        ok(c, &format!("holder of psk {}", i), receive(r, id, &s0, &l0, &v, vec![p.clone()], vec![]))?;
        let mut k = near_psks(r, psks, 3);
        k.push(p.clone());
        r.shuffle(&mut k);
        let spare: Vec<Nk> = (0..NNTRU).filter(|j| !ntrus.contains(j)).take(2).map(|j| (ntrup(j).id(), j)).collect();
        ok(c, &format!("holder of psk {} and foreign keys", i), receive(r, id, &s0, &l0, &v, k, spare))?;
        // listed identity, wrong secret
        let mut w = p.clone();
        let j = r.below(w.1.len());
        w.1[j] = (w.1[j] + 1 + r.below(2) as u8) % 3;
        let g = receive(r, id, &s0, &l0, &v, vec![w], vec![]);
        ck!(g.0.res.is_err() || g.1 != want, "{}: psk {} with an altered secret reaches the sender's state", d, i);
        c.ev("wrong-secret receivers excluded");
        // secret right, identity altered
        let mut w = p.clone();
        let j = r.below(w.0.len());
        w.0[j] = (w.0[j] + 1 + r.below(2) as u8) % 3;
        if !psks.iter().any(|x| x.0 == w.0) {
            let g = receive(r, id, &s0, &l0, &v, vec![w], vec![]);
            ck!(g.0.res.is_err(), "{}: receiver with an unlisted psk identity is accepted", d);
            c.ev("unlisted receivers refused");
        }
    }
    for (i, n) in ntrus.iter().enumerate() {
        ok(c, &format!("holder of ntru key {}", i), receive(r, id, &s0, &l0, &v, vec![], vec![(ntrup(*n).id(), *n)]))?;
        let np = r.below(3);
        let mut k: Vec<Nk> = (0..NNTRU).filter(|j| !ntrus.contains(j)).map(|j| (ntrup(j).id(), j)).collect();
        k.push((ntrup(*n).id(), *n));
        let f = near_psks(r, psks, np);
        ok(c, &format!("holder of ntru key {} and foreign keys", i), receive(r, id, &s0, &l0, &v, f, k))?;
        let w = (n + 1 + r.below(NNTRU - 1)) % NNTRU;
        let g = receive(r, id, &s0, &l0, &v, vec![], vec![(ntrup(*n).id(), w)]);
        ck!(g.0.res.is_err() || g.1 != want, "{}: a wrong ntru private key reaches the sender's state", d);
        c.ev("wrong-secret receivers excluded");
    }
    if !psks.is_empty() || !ntrus.is_empty() {
        ok(
            c,
            "holder of all listed keys",
            receive(r, id, &s0, &l0, &v, psks.clone(), ntrus.iter().map(|n| (ntrup(*n).id(), *n)).collect()),
        )?;
        // a random subset of the listed keys
        let p: Vec<Psk> = psks.iter().filter(|_| r.chance(1, 3)).cloned().collect();
        let n: Vec<Nk> = ntrus.iter().filter(|_| r.chance(1, 2)).map(|n| (ntrup(*n).id(), *n)).collect();
        if !p.is_empty() || !n.is_empty() {
            ok(c, "holder of several listed keys", receive(r, id, &s0, &l0, &v, p, n))?;
        }
    }
    let nf = r.below(4);
    let f = near_psks(r, psks, nf);
    let spare: Vec<Nk> = (0..NNTRU).filter(|j| !ntrus.contains(j)).map(|j| (ntrup(j).id(), j)).collect();
    let g = receive(r, id, &s0, &l0, &v, f, spare);
    ck!(g.0.res.is_err(), "{}: receiver without any listed identity is accepted", d);
    let g = receive(r, id, &s0, &l0, &v, vec![], vec![]);
    ck!(g.0.res.is_err(), "{}: receiver without any key is accepted", d);
    c.evn("unlisted receivers refused", 2);
    Ok(())
}
fn recipients(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let np = match r.below(4) {
        0 => *r.pick(&[12usize, 13, 14, 15, 20]),
        1 => 0,
        _ => r.below(6),
    };
    let nn = r.below(5);
    let mut m = gen_keyload(&mut r, np, nn);
    if let Body::Keyload { psks, ntrus, .. } = &mut m {
        // identities that differ in a single trit, and repeated entries
        if psks.len() > 2 && r.chance(1, 3) {
            let j = r.below(81);
            let mut x = psks[0].0.clone();
            x[j] = (x[j] + 1) % 3;
            psks[1].0 = x;
        }
        if psks.len() > 1 && r.chance(1, 8) {
            let x = psks[0].clone();
            psks.push(x);
        }
        if !ntrus.is_empty() && r.chance(1, 8) {
            let x = ntrus[0];
            ntrus.push(x);
        }
        if !psks.is_empty() && r.chance(1, 10) {
            // structured identities
            let v = r.below(3) as u8;
            psks[0].0 = vec![v; 81];
            if r.chance(1, 2) {
                psks[0].1 = vec![v; 243];
            }
        }
        if psks.len() > 1 && r.chance(1, 8) {
            let x = psks[0].1.clone();
            psks[1].1 = x;
        }
        r.shuffle(psks);
    }
    c.sample(describe(&m));
    run(c, &mut r, &m, 1)
}
fn bulk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // (the number of entries takes one tryte more from 365 and from 9842 on)
    let (np, nn) = if c.idx % 16 == 15 { *r.pick(&[(9841usize, 0usize), (9842, 1)]) } else { *r.pick(&[(364usize, 0usize), (365, 1), (100, 2), (40, 6)]) };
    let mut m = gen_keyload(&mut r, np, nn);
    if r.chance(1, 2) {
        if let Body::Keyload { ntrus, .. } = &mut m {
            // more than 13 entries: each key several times
            for i in 0..14 {
                ntrus.push(i % NNTRU);
            }
        }
    }
    run(c, &mut r, &m, if np > 1000 { 4000 } else { 61 })
}
/// Public key identifiers as advertised by the key itself are what the keyload carries.
fn pkid(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let i = r.below(NNTRU);
    let k = ntrup(i);
    ck!(tv(k.pk.id()) == k.id(), "public key identifier is not the first 81 trits of the key");
    let m = gen_keyload(&mut r, 0, 0);
    if let Body::Keyload { id, nonce, psks, prng, key, .. } = m {
        let m = Body::Keyload { id, nonce, psks, prng, key, ntrus: vec![i] };
        run(c, &mut r, &m, 1)?;
    }
    Ok(())
}
