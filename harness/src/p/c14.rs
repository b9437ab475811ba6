//! C14 verification of MSS signatures of every height: forged trees (random authentication paths) make
//! genuine signatures of heights 0..20 and any key number affordable.
use crate::eng::*;
use crate::msg::mssp;
use crate::p::c12::hash;
use crate::rmodel::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::mss::{self, PublicKey};
use iota_mam::prng::PRNG;
use iota_mam::wots;

pub fn groups() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 4, deep: 4, f: crate::p::marathon::verify },
        g("accept", 126, accept),
        g("alter", 84, alter),
        g("skn", 84, skn_fields),
        g("sizes", 84, sizes),
        g("heads", 162, heads),
        g("real", 24, real),
        g("random", 42, random),
    ]
}
struct S {
    height: usize,
    skn: usize,
    h: Vec<u8>,
    sig: Vec<u8>,
    pk: Vec<u8>,
}
/// A genuine signature: a one-time key at leaf `skn` of a tree of which only the path is known.
fn genuine(r: &mut Rng, height: usize) -> S {
    let max = (1usize << height) - 1;
    let skn = match r.below(5) {
        0 => 0,
        1 => max,
        2 => (1usize << r.below(height + 1)).min(max),
        3 => max / 3 & max,
        _ => r.below(max + 1),
    };
    genuine_at(r, height, skn)
}
fn genuine_at(r: &mut Rng, height: usize, skn: usize) -> S {
    let key = r.trits(243);
    let sk = wots::PrivateKey::gen(&PRNG::init(sl(&key)), &[sl(&r.trits(18))]);
    let mut leaf = vec![0u8; 243];
    sk.calc_pk(slm(&mut leaf));
    let h = hash(r);
    let mut sig = mss_skn(height, skn);
    let mut ws = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&h), slm(&mut ws));
    sig.extend(ws);
    let ap = r.trits_biased(243 * height);
    sig.extend_from_slice(&ap);
    let pk = fold(skn, leaf, &ap);
    S { height, skn, h, sig, pk }
}
/// All four entry points on an exactly sized copy of the signature.
fn judge(pk: &[u8], h: &[u8], sig: &[u8]) -> Result<(bool, Option<(Vec<u8>, usize)>), String> {
    let (pk, h, sig) = (pk.to_vec(), h.to_vec(), sig.to_vec());
    let v = mss::verify(sl(&pk), sl(&h), sl(&sig));
    let mut out = vec![0u8; 243];
    let n = mss::recover(slm(&mut out), sl(&h), sl(&sig));
    let o = PublicKey::recover(sl(&h), sl(&sig));
    let obj = o.map(|(k, n)| (msspk_v(&k), n));
    let raw = n.map(|n| (out, n));
    ck!(obj == raw, "the two forms of recover differ");
    if let Some(k) = msspk(&pk) {
        ck!(k.verify(sl(&h), sl(&sig)) == v, "the two forms of verify differ");
    }
    Ok((v, raw))
}
fn accept(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = genuine(&mut r, c.idx % 21);
    let d = format!("height {} key {}", s.height, s.skn);
    c.sample(d.clone());
    ck!(mss::sig_size(s.height) == s.sig.len(), "sig_size({}) = {}", s.height, mss::sig_size(s.height));
    ck!(mss::apath_size(s.height) == 243 * s.height, "apath_size({}) = {}", s.height, mss::apath_size(s.height));
    let (v, rec) = judge(&s.pk, &s.h, &s.sig)?;
    ck!(v, "genuine signature of {} does not verify", d);
    ck!(rec == Some((s.pk.clone(), s.sig.len())), "recovery from a genuine signature of {} is {}", d, show(&rec));
    c.evn("genuine signatures accepted", 4);
    c.seen_b(&s.sig[..400]);
    c.seen((s.height as u64) << 32 | s.skn as u64);
    // trailing data: recovery ignores it, verification does not
    let mut t = s.sig.clone();
    let n = r.range(1, 300);
    t.extend(r.trits_biased(n));
    let (v, rec) = judge(&s.pk, &s.h, &t)?;
    ck!(!v, "signature of {} extended by {} trits verifies", d, n);
    ck!(rec == Some((s.pk.clone(), s.sig.len())), "recovery with trailing data of {} is {}", d, show(&rec));
    c.evn("extended signatures", 4);
    Ok(())
}
fn show(r: &Option<(Vec<u8>, usize)>) -> String {
    match r {
        None => "none".into(),
        Some((k, n)) => format!("key {} size {}", hexs(&k[..20]), n),
    }
}
fn bad(c: &mut Ctx, what: &'static str, s: &S, pk: &[u8], h: &[u8], sig: &[u8], d: String) -> R {
    let (v, rec) = judge(pk, h, sig)?;
    ck!(!v, "height {} key {}: {} ({}) verifies", s.height, s.skn, what, d);
    if let Some((k, _)) = rec {
        if what != "another key" {
            ck!(k != s.pk, "height {} key {}: {} ({}) recovers the same key", s.height, s.skn, what, d);
        }
    }
    c.evn(what, 4);
    Ok(())
}
fn alter(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = genuine(&mut r, c.idx % 21);
    ck!(mss::verify(sl(&s.pk), sl(&s.h), sl(&s.sig)), "genuine signature of height {} key {} does not verify", s.height, s.skn);
    for q in 0..6 {
        let mut t = s.sig.clone();
        let i = match q {
            0 => r.below(18),
            1 => 18 + r.below(wots::SIG_SIZE),
            2 | 3 if s.height > 0 => 18 + wots::SIG_SIZE + r.below(243 * s.height),
            4 => t.len() - 1,
            _ => r.below(t.len()),
        };
        t[i] = (t[i] + 1 + r.below(2) as u8) % 3;
        bad(c, "altered trit", &s, &s.pk, &s.h, &t, format!("trit {} of {}", i, t.len()))?;
        c.seen(i as u64 ^ crate::rng::fnv(&s.pk));
    }
    if s.height > 1 {
        // nodes of the path exchanged
        let (i, j) = (r.below(s.height), r.below(s.height));
        let mut t = s.sig.clone();
        for q in 0..243 {
            t.swap(18 + wots::SIG_SIZE + 243 * i + q, 18 + wots::SIG_SIZE + 243 * j + q);
        }
        if t != s.sig {
            bad(c, "exchanged nodes", &s, &s.pk, &s.h, &t, format!("nodes {} and {}", i, j))?;
        }
    }
    // several changes at once
    for q in 0..6 {
        let (mut h, mut t) = (s.h.clone(), s.sig.clone());
        let what = match q {
            0 => mangle(&mut r, &mut h),
            1 => mangle(&mut r, &mut t[..18]),
            2 => mangle(&mut r, &mut t[18 + wots::SIG_SIZE..]),
            _ => mangle(&mut r, &mut t),
        };
        if h != s.h || t != s.sig {
            bad(c, "several changes", &s, &s.pk, &h, &t, what)?;
        }
    }
    let mut k = s.pk.clone();
    let what = mangle(&mut r, &mut k);
    if k != s.pk {
        bad(c, "another key", &s, &k, &s.h, &s.sig, what)?;
    }
    let mut h = s.h.clone();
    let i = r.below(234);
    h[i] = (h[i] + 1 + r.below(2) as u8) % 3;
    bad(c, "another hash", &s, &s.pk, &h, &s.sig, format!("trit {}", i))?;
    let mut k = s.pk.clone();
    let i = r.below(243);
    k[i] = (k[i] + 1 + r.below(2) as u8) % 3;
    bad(c, "another key", &s, &k, &s.h, &s.sig, format!("trit {}", i))?;
    Ok(())
}
/// Wrong key numbers and heights in an otherwise genuine signature.
fn skn_fields(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = genuine(&mut r, c.idx % 21);
    let max = 1usize << s.height;
    let mut alt: Vec<Vec<u8>> = vec![];
    // one bit of the path at a time, and numbers out of range
    for _ in 0..4 {
        let k = if s.height > 0 { s.skn ^ (1 << r.below(s.height)) } else { 1 };
        alt.push(mss_skn(s.height, k));
    }
    alt.push(mss_skn(s.height, max));
    alt.push(mss_skn(s.height, (s.skn + max).min(2_391_484)));
    let mut neg = unbal(s.height as i64, 4);
    neg.extend(unbal(-1 - r.below(max) as i64, 14));
    alt.push(neg);
    let mut neg = unbal(s.height as i64, 4);
    neg.extend(unbal(-(s.skn as i64), 14));
    if s.skn > 0 {
        alt.push(neg);
    }
    if s.height > 0 {
        alt.push(mss_skn(s.height - 1, s.skn));
    }
    alt.push(mss_skn(s.height + 1, s.skn));
    let mut neg = unbal(-(s.height as i64) - 1, 4);
    neg.extend(unbal(s.skn as i64, 14));
    alt.push(neg);
    for head in alt {
        let mut t = s.sig.clone();
        t[..18].copy_from_slice(&head);
        if t == s.sig {
            continue;
        }
        bad(c, "wrong height or key number", &s, &s.pk, &s.h, &t, format!("{:?}", (bal(&head[..4]), bal(&head[4..]))))?;
        // recovery follows the documented scheme
        if bal(&head[..4]) <= 20 {
            let m = mss_recover(&s.h, &t);
            let (_, l) = judge(&s.pk, &s.h, &t)?;
            ck!(m == l, "height {} key {} claimed as {:?}: recovery is {} instead of {}", s.height, s.skn, (bal(&head[..4]), bal(&head[4..])), show(&l), show(&m));
            c.ev("recoveries compared with the model");
        }
        c.seen_b(&head);
    }
    Ok(())
}
fn sizes(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = genuine(&mut r, c.idx % 21);
    let n = s.sig.len();
    let mut cut = vec![0, 1, 17, 18, 19, 17 + wots::SIG_SIZE, 18 + wots::SIG_SIZE, n - 1];
    for _ in 0..4 {
        cut.push(r.below(n));
        cut.push(n - 1 - r.below(243.min(n)));
    }
    if s.height > 0 {
        cut.push(18 + wots::SIG_SIZE + 243 * r.below(s.height));
    }
    for k in cut {
        if k >= n {
            continue;
        }
        let (v, rec) = judge(&s.pk, &s.h, &s.sig[..k])?;
        ck!(!v, "signature of height {} truncated to {} of {} trits verifies", s.height, k, n);
        ck!(rec.is_none(), "signature of height {} truncated to {} of {} trits is recovered", s.height, k, n);
        c.evn("truncated signatures refused", 4);
        c.seen((s.height * 100_000 + k) as u64);
    }
    for k in [1usize, 2, 18, 243] {
        let mut t = s.sig.clone();
        t.extend(r.trits_biased(k));
        ck!(!mss::verify(sl(&s.pk), sl(&s.h), sl(&t)), "signature of height {} extended by {} trits verifies", s.height, k);
        c.ev("extended signatures refused");
    }
    // hashes of another size
    for k in [0usize, 3, 233, 235, 237, 243, 486] {
        let mut h = s.h.clone();
        h.resize(k, 0);
        let (v, rec) = judge(&s.pk, &h, &s.sig)?;
        ck!(!v && rec.is_none(), "a hash of {} trits is accepted", k);
        c.evn("hashes of another size refused", 4);
    }
    Ok(())
}
/// Every value of the height field with assorted key numbers, on strings of assorted sizes.
fn heads(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let hv = (c.idx % 81) as i64 - 40;
    let pk = r.trits(243);
    let h = r.trits(234);
    for q in 0..3 {
        let kv = match q {
            0 => r.irange(-2_391_484, 2_391_484),
            1 if (0..22).contains(&hv) => (1i64 << hv) - r.irange(0, 2) * r.irange(0, 1),
            _ => r.irange(-3, 3),
        };
        let mut t = unbal(hv, 4);
        t.extend(unbal(kv, 14));
        let full = 18 + wots::SIG_SIZE + 243 * hv.max(0) as usize;
        let n = match q {
            0 => r.below(200),
            1 => full,
            _ => full - 1 - r.below(243),
        };
        let n = n.max(18);
        t.extend(r.trits(n - 18));
        let legal = hv >= 0 && kv >= 0 && kv < 1i64 << hv.clamp(0, 40) && n >= full;
        let (v, rec) = judge(&pk, &h, &t)?;
        ck!(!v, "arbitrary string with height {} and key {} verifies", hv, kv);
        if !legal {
            ck!(rec.is_none(), "height {} key {} of {} trits ({} needed) is recovered", hv, kv, n, full);
            c.ev("malformed heads refused");
        } else if hv <= 20 {
            ck!(rec == mss_recover(&h, &t), "height {} key {}: recovery differs from the model", hv, kv);
            c.ev("well-formed heads recovered");
        }
        c.seen((hv + 100) as u64 ^ ((kv as u64) << 8));
    }
    Ok(())
}
/// Signatures of real private keys, crossed.
fn real(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let i = r.below(6);
    let k = mssp(i);
    let skn = r.below(1 << k.height);
    let h = hash(&mut r);
    let m = k.model();
    let sig = m.sign(skn, &h);
    let (v, rec) = judge(&k.pk, &h, &sig)?;
    ck!(v && rec == Some((k.pk.clone(), sig.len())), "genuine signature {} of a key of height {} is refused", skn, k.height);
    c.evn("genuine signatures accepted", 4);
    for j in 0..6 {
        if mssp(j).pk != k.pk {
            ck!(!mss::verify(sl(&mssp(j).pk), sl(&h), sl(&sig)), "signature verifies under another key");
            c.ev("other keys");
        }
    }
    c.seen_b(&sig[..300]);
    Ok(())
}
fn random(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(19000);
    let t = r.trits_biased(n);
    let (pk, h) = (r.trits(243), hash(&mut r));
    let (v, rec) = judge(&pk, &h, &t)?;
    ck!(!v, "arbitrary string of {} trits verifies", n);
    let m = mss_recover(&h, &t);
    match mss_parse(&t) {
        Some((hv, _)) if hv > 20 => {}
        _ => ck!(rec == m, "recovery from an arbitrary string of {} trits: {} instead of {}", n, show(&rec), show(&m)),
    }
    c.evn("arbitrary strings", 4);
    c.seen_b(&t[..t.len().min(300)]);
    Ok(())
}
