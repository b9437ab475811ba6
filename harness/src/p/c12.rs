//! C12 one-time signatures.
use crate::eng::*;
use crate::rmodel::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::prng::PRNG;
use iota_mam::trits::{TritSlice, TritSliceMut};
use iota_mam::wots::{self, PrivateKey, PublicKey};

pub fn groups() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 4, deep: 4, f: crate::p::marathon::wots_ },
        g("sign", 160, sign),
        g("alter", 120, alter),
        g("advance", 120, advance),
        g("keys", 60, keys),
        g("random", 60, random),
    ]
}
/// Hashes with extreme digits and checksums among them.
pub fn hash(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; 234],
        1 => vec![1; 234],
        2 => vec![2; 234],
        3 => {
            // digits near the limits
            let mut v = vec![];
            for _ in 0..78 {
                let d = *r.pick(&[13i64, -13, 12, -12, 0]);
                v.extend(unbal(d, 3));
            }
            v
        }
        4 => {
            // digit sums near the multiples of 27 (carries of the checksum)
            let mut v = vec![0u8; 234];
            let mut left = 27 * r.irange(-30, 30) + r.irange(-1, 1) + if r.chance(1, 2) { 13 } else { 0 };
            for k in 0..78 {
                let d = left.clamp(-13, 13);
                v[3 * k..3 * k + 3].copy_from_slice(&unbal(d, 3));
                left -= d;
            }
            v
        }
        _ => r.trits(234),
    }
}
struct K {
    key: Vec<u8>,
    nonces: Vec<Vec<u8>>,
    sk: PrivateKey,
    pk: PublicKey,
    pkv: Vec<u8>,
}
fn key(r: &mut Rng) -> K {
    let key = r.trits_biased(243);
    key_of(r, key)
}
fn key_of(r: &mut Rng, key: Vec<u8>) -> K {
    let nonces: Vec<Vec<u8>> = (0..r.below(4))
        .map(|_| {
            let n = r.tail(300);
            r.trits(n)
        })
        .collect();
    let p = PRNG::init(sl(&key));
    let ss: Vec<TritSlice> = nonces.iter().map(|x| sl(x)).collect();
    let sk = PrivateKey::gen(&p, &ss);
    let pk = PublicKey::gen(&sk);
    let mut pkv = vec![0u8; 243];
    sk.calc_pk(slm(&mut pkv));
    K { key, nonces, sk, pk, pkv }
}
impl K {
    fn sk_model(&self) -> Vec<u8> {
        let refs: Vec<&[u8]> = self.nonces.iter().map(|x| &x[..]).collect();
        prng(&self.key, &refs, wots::SK_SIZE)
    }
    fn sign(&self, h: &[u8]) -> Vec<u8> {
        let mut v = vec![0u8; wots::SIG_SIZE];
        self.sk.sign(sl(h), slm(&mut v));
        v
    }
}
fn recover(h: &[u8], s: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 243];
    wots::recover(sl(h), sl(s), slm(&mut v));
    v
}
fn sign(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = key(&mut r);
    let skm = k.sk_model();
    ck!(k.pkv == wots_pk(&skm), "public key differs from the documented scheme");
    for _ in 0..2 {
        let h = hash(&mut r);
        // windows inside bigger buffers
        let (a, b) = (r.below(5), r.below(5));
        let mut buf = r.trits(a + wots::SIG_SIZE + b);
        let keep = buf.clone();
        let mut hb = r.trits(a);
        hb.extend_from_slice(&h);
        hb.extend(r.trits(b));
        let hs = sl(&hb).drop(a).take(234);
        let m: TritSliceMut = slm(&mut buf).drop(a).take(wots::SIG_SIZE);
        k.sk.sign(hs, m);
        ck!(buf[..a] == keep[..a] && buf[a + wots::SIG_SIZE..] == keep[a + wots::SIG_SIZE..], "sign writes outside the signature");
        let s = buf[a..a + wots::SIG_SIZE].to_vec();
        let w = wots_sign(&skm, &h);
        ck!(s == w, "signature of {} differs from the documented scheme: {}", hexs(&h), diff_at(&s, &w));
        ck!(k.pk.verify(hs, sl(&s)), "genuine signature of {} does not verify", hexs(&h));
        ck!(recover(&h, &s) == k.pkv, "key recovered from a genuine signature of {} differs", hexs(&h));
        ck!(k.sign(&h) == s, "signing is not deterministic");
        c.evn("signatures compared, verified, recovered", 5);
        c.seen_b(&h);
        c.dig(&s);
        // another hash
        let mut h2 = h.clone();
        let i = r.below(234);
        h2[i] = (h2[i] + 1 + r.below(2) as u8) % 3;
        ck!(!k.pk.verify(sl(&h2), sl(&s)), "signature verifies for a hash differing at trit {}", i);
        ck!(recover(&h2, &s) != k.pkv, "recovery for a hash differing at trit {} returns the same key", i);
        let h3 = hash(&mut r);
        if h3 != h {
            ck!(!k.pk.verify(sl(&h3), sl(&s)), "signature verifies for another hash");
        }
        c.evn("other hashes refused", 3);
    }
    Ok(())
}
fn alter(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = key(&mut r);
    let h = hash(&mut r);
    let s = k.sign(&h);
    ck!(k.pk.verify(sl(&h), sl(&s)), "genuine signature does not verify");
    for q in 0..6 {
        let mut t = s.clone();
        let i = match q {
            0 => r.below(162),
            1 => wots::SIG_SIZE - 1 - r.below(162),
            2 => 162 * r.below(81),
            _ => r.below(wots::SIG_SIZE),
        };
        t[i] = (t[i] + 1 + r.below(2) as u8) % 3;
        ck!(!k.pk.verify(sl(&h), sl(&t)), "signature altered at trit {} verifies", i);
        c.ev("altered signatures refused");
        c.seen(i as u64 ^ crate::rng::fnv(&s));
    }
    // several changes at once
    for q in 0..9 {
        let (mut hh, mut t) = (h.clone(), s.clone());
        let what = match q % 3 {
            0 => format!("hash: {}", mangle(&mut r, &mut hh)),
            1 => format!("signature: {}", mangle(&mut r, &mut t)),
            _ => {
                // digits of the hash exchanged (the checksum stays), with or without their parts
                let (i, j) = (r.below(78), r.below(78));
                let with = r.chance(1, 2);
                for x in 0..3 {
                    hh.swap(3 * i + x, 3 * j + x);
                }
                for x in 0..162 * with as usize {
                    t.swap(162 * i + x, 162 * j + x);
                }
                format!("digits {} and {} exchanged{}", i, j, if with { " with their parts" } else { "" })
            }
        };
        if hh == h && (t == s || q % 3 == 2) {
            continue;
        }
        ck!(!k.pk.verify(sl(&hh), sl(&t)), "altered ({}) signature verifies", what);
        ck!(recover(&hh, &t) != k.pkv, "altered ({}) signature recovers the same key", what);
        c.ev("altered signatures refused");
    }
    // parts exchanged
    let (i, j) = (r.below(81), r.below(81));
    let mut t = s.clone();
    for q in 0..162 {
        t.swap(162 * i + q, 162 * j + q);
    }
    if t != s {
        ck!(!k.pk.verify(sl(&h), sl(&t)), "signature with parts {} and {} exchanged verifies", i, j);
        c.ev("altered signatures refused");
    }
    Ok(())
}
/// Forgeries that only advance hash chains of a genuine signature.
fn advance(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = key(&mut r);
    let h = hash(&mut r);
    let s = k.sign(&h);
    let d: Vec<i64> = h.chunks(3).map(bal).collect();
    for q in 0..4 {
        // raise one or several digits and advance their chains accordingly
        let mut h2 = h.clone();
        let mut t = s.clone();
        let cnt = if q == 3 { r.range(2, 27) } else { 1 };
        let mut raised = 0;
        for _ in 0..cnt {
            let i = r.below(78);
            let cur = bal(&h2[3 * i..3 * i + 3]);
            if cur == 13 {
                continue;
            }
            let up = match r.below(3) {
                0 => 1,
                1 => 13 - cur,
                _ => r.irange(1, 13 - cur),
            };
            h2[3 * i..3 * i + 3].copy_from_slice(&unbal(cur + up, 3));
            let v = chain(&t[162 * i..162 * i + 162], up);
            t[162 * i..162 * i + 162].copy_from_slice(&v);
            raised += up;
        }
        if raised == 0 {
            continue;
        }
        ck!(!k.pk.verify(sl(&h2), sl(&t)), "a signature made by advancing chains by {} steps verifies", raised);
        c.ev("chain-advance forgeries refused");
        // and with the checksum chains advanced as far as the new checksum asks, where it rises
        let e = wots_digits(&h);
        let f = wots_digits(&h2);
        for j in 78..81 {
            if f[j] > e[j] {
                let v = chain(&t[162 * j..162 * j + 162], f[j] - e[j]);
                t[162 * j..162 * j + 162].copy_from_slice(&v);
            }
        }
        ck!(!k.pk.verify(sl(&h2), sl(&t)), "a signature made by advancing data and checksum chains verifies");
        c.ev("chain-advance forgeries refused");
        c.seen_b(&h2);
    }
    // a digit raised and another lowered by the same amount keeps the checksum
    let (i, j) = (r.below(78), r.below(78));
    if i != j && d[i] < 13 && d[j] > -13 {
        let mut h2 = h.clone();
        h2[3 * i..3 * i + 3].copy_from_slice(&unbal(d[i] + 1, 3));
        h2[3 * j..3 * j + 3].copy_from_slice(&unbal(d[j] - 1, 3));
        let mut t = s.clone();
        let v = chain(&t[162 * i..162 * i + 162], 1);
        t[162 * i..162 * i + 162].copy_from_slice(&v);
        ck!(!k.pk.verify(sl(&h2), sl(&t)), "a digit lowered without the private key verifies");
        c.ev("chain-advance forgeries refused");
    }
    Ok(())
}
fn keys(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let a = key(&mut r);
    let mut bk = r.trits_biased(243);
    if bk == a.key {
        let i = r.below(243);
        bk[i] = (bk[i] + 1) % 3;
    }
    let b = key_of(&mut r, bk);
    let h = hash(&mut r);
    let s = a.sign(&h);
    ck!(!b.pk.verify(sl(&h), sl(&s)), "signature verifies under another key");
    ck!(a.pk.verify(sl(&h), sl(&s)), "genuine signature does not verify");
    // the same seed and nonces give the same key, other ones another
    let p = PRNG::init(sl(&a.key));
    let ss: Vec<TritSlice> = a.nonces.iter().map(|x| sl(x)).collect();
    let again = PublicKey::gen(&PrivateKey::gen(&p, &ss));
    ck!(again.verify(sl(&h), sl(&s)), "key generation is not deterministic");
    let mut n = a.nonces.concat();
    if n.is_empty() {
        return Ok(());
    }
    // (of the same length: the sponge does not pad, so a longer nonce may denote the same input)
    let i = r.below(n.len());
    n[i] = (n[i] + 1 + r.below(2) as u8) % 3;
    let other = PublicKey::gen(&PrivateKey::gen(&p, &[sl(&n)]));
    ck!(!other.verify(sl(&h), sl(&s)), "another nonce gives the same key");
    c.evn("other keys refused", 4);
    c.seen_b(&s);
    Ok(())
}
/// Arbitrary strings: recovery equals the documented scheme and nothing verifies.
fn random(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = key(&mut r);
    let h = hash(&mut r);
    let s = r.trits_biased(wots::SIG_SIZE);
    let a = recover(&h, &s);
    let b = wots_recover(&h, &s);
    ck!(a == b, "key recovered from an arbitrary string differs from the documented scheme: {}", diff_at(&a, &b));
    ck!(!k.pk.verify(sl(&h), sl(&s)), "arbitrary string verifies");
    c.evn("arbitrary strings", 2);
    c.seen_b(&s);
    Ok(())
}
