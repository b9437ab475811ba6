//! C16 NTRU key encapsulation succeeds for the right key; C17 it refuses everything else.
use crate::eng::*;
use crate::msg::{ntrup, NNTRU};
use crate::rmodel::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::ntru::{self, PrivateKey, PublicKey};
use iota_mam::pb3::{Absorb, Mask};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;

pub fn groups16() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 1, deep: 4, f: crate::p::marathon::ntru_ },
        g("gen", 220, gen),
        g("encap", 260, encap),
        g("bulk", 160, bulk),
        g("export", 120, export),
    ]
}
pub fn groups17() -> Vec<Group> {
    vec![
        g("altered", 300, altered),
        g("noncanonical", 160, noncanonical),
        g("wrong", 160, wrong),
        g("random", 240, random),
        g("crafted", 160, crafted),
        g("import", 360, import),
    ]
}
struct Pair {
    key: Vec<u8>,
    nonce: Vec<u8>,
    sk: PrivateKey,
    pk: PublicKey,
    pkt: Vec<u8>,
}
fn pair(r: &mut Rng) -> Pair {
    let key = r.trits_biased(243);
    let n = r.tail(600);
    let nonce = r.trits_biased(n);
    let (sk, pk) = ntru::gen(&PRNG::init(sl(&key)), sl(&nonce));
    let pkt = ntrupk_v(&pk);
    Pair { key, nonce, sk, pk, pkt }
}
fn gen(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pair(&mut r);
    let m = ntru_gen(&p.key, &p.nonce);
    ck!(p.pkt == m.pk, "public key generated after {} attempts differs from the documented scheme: {}", m.tries, diff_at(&p.pkt, &m.pk));
    c.ev(match m.tries {
        1 => "keys compared (first attempt)",
        2 => "keys compared (second attempt)",
        _ => "keys compared (later attempt)",
    });
    let (_, pk2) = ntru::gen(&PRNG::init(sl(&p.key)), sl(&p.nonce));
    ck!(pk2 == p.pk, "key generation is not deterministic");
    ck!(pfrom(&p.pkt).is_some(), "generated public key has coefficients out of range");
    // a capsule made by the model opens with the generated private key, and with the model's
    let k = r.trits_biased(243);
    let rnd = r.trits_biased(1024);
    let mut rs = RS::new();
    let y = ntru_encr_r(&mut rs, &m.pk, &rnd, &k).unwrap();
    let mut got = r.trits(243);
    let mut s = Spongos::init();
    ck!(p.sk.decr_with_s(&mut s, sl(&y), slm(&mut got)), "private key does not open a capsule for its public key");
    ck!(got == k, "decapsulated key: {}", diff_at(&got, &k));
    ck!(fp(&s) == rfp(&rs), "state after decapsulation differs from the encapsulating one");
    let mut got = r.trits(243);
    ck!(ntru::decr_sk(&mut Spongos::init(), sl(&m.sk), sl(&y), slm(&mut got)) && got == k, "decr_sk with the private polynomial fails");
    c.evn("capsules opened", 2);
    c.seen_b(&p.pkt);
    Ok(())
}
/// encapsulate into a window of a larger buffer
fn enc(r: &mut Rng, pk: &PublicKey, s: Option<&mut Spongos>, prng: &PRNG, nonce: &[u8], k: &[u8]) -> Result<Vec<u8>, String> {
    let (a, z) = (r.below(9), r.below(9));
    let mut buf = r.trits(a + ntru::EKEY_SIZE + z);
    let orig = buf.clone();
    let w = slm(&mut buf).drop(a).take(ntru::EKEY_SIZE);
    match s {
        Some(s) => pk.encr_with_s(s, prng, sl(nonce), sl(k), w),
        None => pk.encr(prng, sl(nonce), sl(k), w),
    }
    let e = a + ntru::EKEY_SIZE;
    ck!(buf[..a] == orig[..a] && buf[e..] == orig[e..], "encapsulation writes outside of the capsule");
    Ok(buf[a..e].to_vec())
}
fn dec(r: &mut Rng, sk: &PrivateKey, s: Option<&mut Spongos>, y: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let (a, z, b) = (r.below(9), r.below(9), r.below(9));
    let mut buf = r.trits(a + ntru::KEY_SIZE + z);
    let orig = buf.clone();
    let mut yb = r.trits(b);
    yb.extend_from_slice(y);
    let ys = sl(&yb).drop(b);
    let w = slm(&mut buf).drop(a).take(ntru::KEY_SIZE);
    let ok = match s {
        Some(s) => sk.decr_with_s(s, ys, w),
        None => sk.decr(ys, w),
    };
    let e = a + ntru::KEY_SIZE;
    ck!(buf[..a] == orig[..a] && buf[e..] == orig[e..], "decapsulation writes outside of the key");
    ck!(yb[b..] == *y, "decapsulation modifies the capsule");
    Ok(if ok { Some(buf[a..e].to_vec()) } else { None })
}
fn encap(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let fresh;
    let (sk, pk, pkt) = if r.chance(1, 4) {
        fresh = pair(&mut r);
        (&fresh.sk, &fresh.pk, &fresh.pkt)
    } else {
        let p = ntrup(r.below(NNTRU));
        (&p.sk, &p.pk, &p.pkt)
    };
    let key = r.trits_biased(243);
    let prng = PRNG::init(sl(&key));
    let n = r.tail(400);
    let nonce = r.trits_biased(n);
    let k = r.trits_biased(243);
    let pre = gen_pre(&mut r);
    let (mut s, mut rs) = (lib_state(&pre), ref_state(&pre));
    let y = enc(&mut r, pk, Some(&mut s), &prng, &nonce, &k)?;
    let w = ntru_encr(&mut rs, &key, pkt, &nonce, &k).unwrap();
    ck!(y == w, "capsule differs from the documented scheme: {}", diff_at(&y, &w));
    ck!(fp(&s) == rfp(&rs), "state after encapsulation differs from the documented scheme");
    let mut t = lib_state(&pre);
    let got = dec(&mut r, sk, Some(&mut t), &y)?;
    ck!(got.is_some(), "decapsulation with the matching key and state fails");
    ck!(got.as_ref() == Some(&k), "decapsulated key differs");
    ck!(fp(&t) == fp(&s), "states differ after encapsulation and decapsulation");
    c.evn("capsules compared and opened", 3);
    // the shortcuts with a new sponge
    let y = enc(&mut r, pk, None, &prng, &nonce, &k)?;
    let mut rs = RS::new();
    ck!(Some(&y) == ntru_encr(&mut rs, &key, pkt, &nonce, &k).as_ref(), "capsule in a new sponge differs from the documented scheme");
    ck!(dec(&mut r, sk, None, &y)? == Some(k), "decapsulation in a new sponge fails");
    c.ev("capsules opened");
    c.seen_b(&y);
    Ok(())
}
fn bulk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pair(&mut r);
    let sk2 = p.sk.clone();
    for i in 0..12 {
        let key = r.trits_biased(243);
        let prng = PRNG::init(sl(&key));
        let n = r.size(100);
        let nonce = r.trits(n);
        let k = r.trits_biased(243);
        let mut s = Spongos::init();
        let x = r.trits(i);
        s.absorb(sl(&x));
        let mut t = s.fork();
        let y = enc(&mut r, &p.pk, Some(&mut s), &prng, &nonce, &k)?;
        let got = dec(&mut r, if i % 2 == 0 { &p.sk } else { &sk2 }, Some(&mut t), &y)?;
        ck!(got == Some(k), "decapsulation {} fails or returns another key ({})", i, got.is_some());
        ck!(fp(&t) == fp(&s), "states differ after encapsulation and decapsulation {}", i);
        c.ev("capsules opened");
        c.seen_b(&y);
    }
    Ok(())
}
/// A valid public key that differs from `v` in one coefficient (not in the identifier if `same_id`).
fn near(r: &mut Rng, v: &[u8], same_id: bool) -> Option<PublicKey> {
    for _ in 0..20 {
        let i = if same_id { r.range(9, 1023) } else { r.below(1024) };
        let i = if r.chance(1, 4) { *r.pick(&[9usize, 10, 512, 1022, 1023]) } else { i };
        let mut w = v.to_vec();
        w[9 * i..9 * i + 9].copy_from_slice(&unbal(r.irange(-6144, 6144), 9));
        if w != v {
            if let Some(k) = PublicKey::from_trits(tr(&w)) {
                return Some(k);
            }
        }
    }
    None
}
fn export(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pair(&mut r);
    ck!(p.pkt.len() == ntru::PK_SIZE && tv(p.pk.id()) == p.pkt[..ntru::PKID_SIZE], "identifier is not the first {} trits", ntru::PKID_SIZE);
    let a = r.below(9);
    let mut b = r.trits(a);
    b.extend_from_slice(&p.pkt);
    let mut all = vec![];
    all.push(("from_trits", PublicKey::from_trits(tr(&p.pkt))));
    all.push(("from_slice", PublicKey::from_slice(sl(&b).drop(a))));
    let mut w = vec![0u8; ntru::PK_SIZE];
    let mut s = Spongos::init();
    p.pk.wrap_absorb(&mut s, &mut slm(&mut w));
    ck!(w == p.pkt, "wrapped public key: {}", diff_at(&w, &p.pkt));
    all.push(("unwrap", PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(&w)).ok()));
    // into objects that hold another key, the same key, or a key that differs little
    let pre = gen_pre(&mut r);
    let m = ref_state(&pre).encr(&p.pkt);
    let mut olds = vec![ntrup(r.below(NNTRU)).pk.clone(), p.pk.clone()];
    olds.extend(near(&mut r, &p.pkt, true));
    olds.extend(near(&mut r, &p.pkt, false));
    for old in olds {
        let mut k = old.clone();
        let ok = k.unwrap_absorb(&mut Spongos::init(), &mut sl(&w)).is_ok();
        all.push(("unwrap into an object", if ok { Some(k) } else { None }));
        let mut k = old;
        let ok = k.unwrap_mask(&mut lib_state(&pre), &mut sl(&m)).is_ok();
        all.push(("unmask into an object", if ok { Some(k) } else { None }));
    }
    let key = r.trits(243);
    let prng = PRNG::init(sl(&key));
    let (nonce, k) = (r.trits(81), r.trits(243));
    let y = enc(&mut r, &p.pk, None, &prng, &nonce, &k)?;
    for (n, q) in all {
        let Some(q) = q else { return Err(format!("{}: a generated public key is refused", n)) };
        ck!(q == p.pk && ntrupk_v(&q) == p.pkt && tv(q.id()) == tv(p.pk.id()), "{}: imported public key differs", n);
        let z = enc(&mut r, &q, None, &prng, &nonce, &k)?;
        ck!(z == y, "{}: imported public key encapsulates differently: {}", n, diff_at(&z, &y));
        ck!(dec(&mut r, &p.sk, None, &z)? == Some(k.clone()), "{}: capsule for the imported key does not open", n);
        c.ev("imported keys used");
    }
    c.seen_b(&p.pkt);
    Ok(())
}

// ---------------------------------------------------------------- C17
struct Cap {
    i: usize,
    pre: Pre,
    k: Vec<u8>,
    y: Vec<u8>,
}
fn cap(r: &mut Rng) -> Result<Cap, String> {
    let i = r.below(NNTRU);
    let key = r.trits(243);
    let nonce = r.trits(81);
    let k = r.trits_biased(243);
    let pre = gen_pre(r);
    let mut s = lib_state(&pre);
    let y = enc(r, &ntrup(i).pk, Some(&mut s), &PRNG::init(sl(&key)), &nonce, &k)?;
    Ok(Cap { i, pre, k, y })
}
/// Decapsulate in the crate; in the model too if `m`. Both agree.
fn both(c: &mut Ctx, r: &mut Rng, i: usize, pre: &Pre, y: &[u8], m: bool) -> Result<Option<Vec<u8>>, String> {
    let mut s = lib_state(pre);
    let got = dec(r, &ntrup(i).sk, Some(&mut s), y)?;
    if m {
        let mut rs = ref_state(pre);
        let w = ntru_decr(&mut rs, &ntrup(i).model().sk, y);
        ck!(got.is_some() == w.is_some(), "decapsulation accepts: {}, the documented scheme: {}", got.is_some(), w.is_some());
        if w.is_some() {
            ck!(got == w, "decapsulated key differs from the documented scheme");
            ck!(fp(&s) == rfp(&rs), "state after decapsulation differs from the documented scheme");
        }
        c.ev("decisions compared with the scheme");
    }
    Ok(got)
}
fn altered(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = cap(&mut r)?;
    ck!(both(c, &mut r, p.i, &p.pre, &p.y, false)? == Some(p.k.clone()), "genuine capsule refused");
    for t in 0..10 {
        let mut y = p.y.clone();
        let mut at = vec![];
        let n = if t < 7 { 1 } else { r.range(2, 40) };
        for j in 0..n {
            let i = match (t, j) {
                (0, 0) => 0,
                (1, 0) => 9215,
                (2, 0) => 9 * 243 + r.below(18) - 9,
                (3, 0) => 9 * 1023 + r.below(9),
                (4, 0) => 9 * (244 + r.below(780)) + r.below(2),
                _ => r.below(9216),
            };
            y[i] = (y[i] + 1 + r.below(2) as u8) % 3;
            at.push(i);
        }
        if y == p.y {
            continue;
        }
        let got = both(c, &mut r, p.i, &p.pre, &y, t == 5 || t == 9)?;
        ck!(got.is_none(), "capsule altered at trits {:?} is accepted", &at[..at.len().min(6)]);
        c.ev("altered capsules refused");
    }
    // whole coefficients exchanged or shifted by multiples of 3 (which decryption rounds away)
    for _ in 0..4 {
        let mut y = p.y.clone();
        let (i, j) = (r.below(1024), r.below(1024));
        if r.chance(1, 2) {
            for x in 0..9 {
                y.swap(9 * i + x, 9 * j + x);
            }
        } else {
            let v = bal(&y[9 * i..9 * i + 9]) + 3 * *r.pick(&[1i64, -1, 2, -2, 9, -9, 81, 1000]);
            if v.abs() <= 6144 {
                y[9 * i..9 * i + 9].copy_from_slice(&unbal(v, 9));
            }
        }
        if y == p.y {
            continue;
        }
        ck!(both(c, &mut r, p.i, &p.pre, &y, false)?.is_none(), "capsule with changed coefficients {} and {} is accepted", i, j);
        c.ev("altered capsules refused");
    }
    for _ in 0..4 {
        let mut y = p.y.clone();
        let what = mangle(&mut r, &mut y);
        if y != p.y {
            ck!(both(c, &mut r, p.i, &p.pre, &y, false)?.is_none(), "capsule altered ({}) is accepted", what);
            c.ev("altered capsules refused");
        }
    }
    c.seen_b(&p.y);
    Ok(())
}
/// Coefficients plus or minus q: the same polynomial, but out of range.
fn noncanonical(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = cap(&mut r)?;
    let pkt = &ntrup(p.i).pkt;
    for (what, src) in [("capsule", &p.y), ("public key", pkt)] {
        for t in 0..6 {
            let mut y = src.clone();
            let mut n = 0;
            for _ in 0..if t < 4 { 1 } else { 50 } {
                // the coefficients whose alternative still fits 9 trits
                let start = match t {
                    0 => 0,
                    1 => 1000,
                    _ => r.below(1024),
                };
                let f = (0..1024).map(|d| (start + d) % 1024).find(|i| {
                    let v = bal(&y[9 * i..9 * i + 9]);
                    v.abs() > Q - 9842 && v.abs() <= 6144
                });
                if let Some(i) = f {
                    let v = bal(&y[9 * i..9 * i + 9]);
                    y[9 * i..9 * i + 9].copy_from_slice(&unbal(if v > 0 { v - Q } else { v + Q }, 9));
                    n += 1;
                }
            }
            if n == 0 {
                continue;
            }
            if what == "capsule" {
                ck!(both(c, &mut r, p.i, &p.pre, &y, t == 0)?.is_none(), "capsule with {} coefficients shifted by q is accepted", n);
            } else {
                ck!(PublicKey::from_trits(tr(&y)).is_none(), "from_trits accepts a public key with {} coefficients shifted by q", n);
                ck!(PublicKey::from_slice(sl(&y)).is_none(), "from_slice accepts a public key with {} coefficients shifted by q", n);
            }
            c.ev("alternative encodings refused");
        }
    }
    c.seen_b(&p.y);
    Ok(())
}
fn wrong(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = cap(&mut r)?;
    for _ in 0..3 {
        let j = (p.i + 1 + r.below(NNTRU - 1)) % NNTRU;
        ck!(both(c, &mut r, j, &p.pre, &p.y, false)?.is_none(), "capsule for key {} opens with key {}", p.i, j);
        c.ev("other private keys refused");
    }
    let q = pair(&mut r);
    ck!(dec(&mut r, &q.sk, Some(&mut lib_state(&p.pre)), &p.y)?.is_none(), "capsule opens with an unrelated private key");
    c.ev("other private keys refused");
    // a private polynomial differing in a few trits
    let msk = &ntrup(p.i).model().sk;
    for t in 0..3 {
        let mut sk = msk.clone();
        let i = if t == 0 { 1023 } else { r.below(1024) };
        sk[i] = (sk[i] + 1 + r.below(2) as u8) % 3;
        let mut k = vec![0u8; 243];
        ck!(!ntru::decr_sk(&mut lib_state(&p.pre), sl(&sk), sl(&p.y), slm(&mut k)), "capsule opens with the private key altered at trit {}", i);
        c.ev("other private keys refused");
    }
    // another state: a piece of the history altered
    for _ in 0..4 {
        let mut pre = p.pre.clone();
        let n = 1 + r.below(500);
        let x = r.trits(n);
        match r.below(3) {
            0 => pre.insert(0, POp::Absorb(x)),
            1 => {
                pre.push(POp::Commit);
                pre.push(POp::Absorb(x));
                pre.push(POp::Commit);
            }
            _ => pre = gen_pre(&mut r),
        }
        if fp(&lib_state(&pre)) == fp(&lib_state(&p.pre)) {
            continue;
        }
        // (an uncommitted piece may be overwritten by what follows: the model decides)
        let mut rs = ref_state(&pre);
        if ntru_decr(&mut rs, msk, &p.y).is_some() {
            c.ev("state difference without effect");
            continue;
        }
        ck!(both(c, &mut r, p.i, &pre, &p.y, false)?.is_none(), "capsule opens in another sponge state");
        c.ev("other states refused");
    }
    c.seen_b(&p.y);
    Ok(())
}
fn coeffs(r: &mut Rng) -> Vec<u8> {
    let m = r.below(7);
    let one = r.irange(-9841, 9841);
    (0..1024)
        .flat_map(|i| {
            let v = match m {
                0 => r.irange(-6144, 6144),
                1 => r.irange(-9841, 9841),
                2 => *r.pick(&[6144i64, -6144, 6143, -6143, 0, 1, -1]),
                3 => *r.pick(&[6144i64, -6144, 6145, -6145, 9841, -9841]),
                4 => one,
                5 => r.irange(-1, 1),
                _ => {
                    if i == (one.unsigned_abs() as usize) % 1024 {
                        *r.pick(&[6145i64, -6145, 9841, -9841, 6144, -6144])
                    } else {
                        r.irange(-6144, 6144)
                    }
                }
            };
            unbal(v, 9)
        })
        .collect()
}
fn random(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    for t in 0..4 {
        let y = match (c.idx, t) {
            (0, 0) => vec![0u8; 9216],
            (0, 1) => vec![1u8; 9216],
            (0, 2) => vec![2u8; 9216],
            (_, 3) => r.trits_biased(9216),
            _ => coeffs(&mut r),
        };
        let pre = gen_pre(&mut r);
        let i = r.below(NNTRU);
        ck!(both(c, &mut r, i, &pre, &y, t == 0)?.is_none(), "an arbitrary string is accepted as a capsule");
        c.ev("arbitrary strings refused");
        // import of the same string as a public key
        let want = ntru_pk_ok(&y);
        ck!(PublicKey::from_trits(tr(&y)).is_some() == want, "import of an arbitrary string: expected acceptance {}", want);
        c.ev(if want { "arbitrary public keys imported" } else { "arbitrary public keys refused" });
        c.seen_b(&y);
    }
    Ok(())
}
/// Capsules with chosen (not generated) randomness: the extreme noise polynomials among them.
fn crafted(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let i = r.below(NNTRU);
    let p = ntrup(i);
    for t in 0..3 {
        let rnd = match r.below(5) {
            0 => vec![0u8; 1024],
            1 => vec![1 + r.below(2) as u8; 1024],
            2 => p.model().sk.clone(),
            3 => {
                let mut v = vec![0u8; 1024];
                v[r.below(1024)] = 1;
                v
            }
            _ => r.trits(1024),
        };
        let k = r.trits_biased(243);
        let pre = gen_pre(&mut r);
        let mut rs = ref_state(&pre);
        let mut y = ntru_encr_r(&mut rs, &p.pkt, &rnd, &k).unwrap();
        if t == 2 {
            // the rest of the noise replaced: no longer consistent with the sponge
            let i = 9 * (243 + r.below(781));
            let v = cmod(bal(&y[i..i + 9]) + 1, Q);
            y[i..i + 9].copy_from_slice(&unbal(v, 9));
        }
        let got = both(c, &mut r, i, &pre, &y, true)?;
        if got.is_some() {
            c.ev("crafted capsules opened");
        }
        c.seen_b(&y);
    }
    Ok(())
}
fn import(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let v: Vec<u8> = match r.below(8) {
        0 => {
            // wrong size
            let n = *r.pick(&[0usize, 1, 9, 81, 243, 1024, 9207, 9215, 9217, 9225, 18432]);
            let mut v = ntrup(r.below(NNTRU)).pkt.clone();
            v.resize(n, 0);
            v
        }
        1 | 2 => {
            // singular at one or a few roots
            let mut e: P = (0..1024).map(|_| r.irange(1, Q - 1)).collect();
            for _ in 0..if r.chance(1, 2) { 1 } else { r.range(1, 5) } {
                let k = *r.pick(&[0usize, 1, 511, 512, 1022, 1023, 9999]);
                e[if k == 9999 { r.below(1024) } else { k }] = 0;
            }
            ptrits(&interp(&e))
        }
        3 => {
            // single out-of-range coefficient in a valid key
            let mut v = ntrup(r.below(NNTRU)).pkt.clone();
            let i = *r.pick(&[0usize, 1023, 8, 500, 1022]);
            let b = *r.pick(&[6145i64, -6145, 6146, -6146, 9841, -9841, 6144, -6144, 7000, -8191, 8192]);
            v[9 * i..9 * i + 9].copy_from_slice(&unbal(b, 9));
            v
        }
        4 => {
            // constants and monomials
            let mut p = vec![0i64; 1024];
            let i = r.below(1024);
            p[i] = r.irange(-2, 2);
            if r.chance(1, 2) {
                p[0] = r.irange(-6144, 6144);
            }
            ptrits(&p)
        }
        5 => {
            let v: P = (0..1024).map(|_| r.irange(-6144, 6144)).collect();
            ptrits(&v)
        }
        6 => {
            // a generated key with an altered trit
            let mut v = ntrup(r.below(NNTRU)).pkt.clone();
            let i = r.below(v.len());
            v[i] = (v[i] + 1 + r.below(2) as u8) % 3;
            v
        }
        _ => coeffs(&mut r),
    };
    let want = v.len() == ntru::PK_SIZE && ntru_pk_ok(&v);
    let a = PublicKey::from_trits(tr(&v));
    ck!(a.is_some() == want, "from_trits of {} trits accepts: {}, expected {}", v.len(), a.is_some(), want);
    let o = r.below(9);
    let mut b = r.trits(o);
    b.extend_from_slice(&v);
    let b = PublicKey::from_slice(sl(&b).drop(o));
    ck!(b.is_some() == want, "from_slice of {} trits accepts: {}, expected {}", v.len(), b.is_some(), want);
    let mut cur = sl(&v);
    let u = PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut cur);
    let uw = v.len() >= ntru::PK_SIZE && ntru_pk_ok(&v[..ntru::PK_SIZE]);
    ck!(u.is_ok() == uw, "unwrapping a public key from {} trits accepts: {}, expected {}", v.len(), u.is_ok(), uw);
    // absorbed or unmasked, into a new or an existing key
    if v.len() == ntru::PK_SIZE {
        let pre = gen_pre(&mut r);
        let mut old = match r.below(3) {
            0 => near(&mut r, &v, true),
            1 => near(&mut r, &v, false),
            _ => None,
        }
        .unwrap_or_else(|| ntrup(r.below(NNTRU)).pk.clone());
        let mut cur = sl(&v);
        let mut s = lib_state(&pre);
        let res = old.unwrap_absorb(&mut s, &mut cur);
        ck!(res.is_ok() == want, "unwrapping a public key into an existing one accepts: {}, expected {}", res.is_ok(), want);
        let mut rs = ref_state(&pre);
        rs.absorb(&v);
        if want {
            ck!(ntrupk_v(&old) == v && cur.size() == 0 && fp(&s) == rfp(&rs), "public key unwrapped into an existing one: key, position or state is wrong");
        }
        // the key in use is the one read
        let mut m = ref_state(&pre).encr(&v);
        let mut enc = old.clone();
        for fresh in [false, true] {
            let mut cur = sl(&m);
            let mut s = lib_state(&pre);
            let res = if fresh {
                PublicKey::unwrap_mask_sized(&mut s, &mut cur).map(|k| enc = k)
            } else {
                enc.unwrap_mask(&mut s, &mut cur)
            };
            ck!(res.is_ok() == want, "unmasking a public key (existing object: {}) accepts: {}, expected {}", !fresh, res.is_ok(), want);
            let mut rs = ref_state(&pre);
            rs.encr(&v);
            if want {
                ck!(ntrupk_v(&enc) == v && cur.size() == 0 && fp(&s) == rfp(&rs), "unmasked public key: key, position or state is wrong");
            }
        }
        m.clear();
        if want {
            let (pk, nonce, k) = (r.trits(243), r.trits(40), r.trits(243));
            let y = ntru_encr(&mut RS::new(), &pk, &v, &nonce, &k);
            for q in [&old, &enc] {
                let mut o = vec![0u8; ntru::EKEY_SIZE];
                q.encr_with_s(&mut Spongos::init(), &PRNG::init(sl(&pk)), sl(&nonce), sl(&k), slm(&mut o));
                ck!(Some(&o) == y.as_ref(), "encapsulation for a key read into an object differs from the documented scheme");
            }
        }
        c.evn("keys read into objects", 3);
    }
    for q in [a, b].into_iter().flatten() {
        ck!(ntrupk_v(&q) == v, "imported key exports differently");
    }
    c.evn(if want { "valid keys imported" } else { "invalid keys refused" }, 3);
    c.seen_b(&v);
    Ok(())
}
