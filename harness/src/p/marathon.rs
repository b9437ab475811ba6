//! One object used very many times: enough for a counter of 16 bits that it might carry (8 bits where a use is costly).
use crate::eng::*;
use crate::msg::*;
use crate::p::c12::hash;
use crate::rmodel::*;
use crate::rtroika::{self, State};
use crate::util::*;
use iota_mam::mss::{self, PrivateKeyMTComplete, PrivateKeyMTTraversal};
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::Trits;
use iota_mam::troika::{Troika, TroikaSponge};
use iota_mam::wots;

fn uses(c: &Ctx, n: usize) -> usize {
    match c.build.as_str() {
        // (the first cases go through every kind of use)
        _ if c.idx >= 20 && !c.thorough => n / 40 + 20,
        "rel" | "chk" => n,
        "miri" => 30,
        _ => n / 40 + 20,
    }
}
/// C09: a sponge with very many commits, joins, forks or restarts behind it.
pub fn sponge(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 66_000 + r.below(600));
    // (half the time nothing has happened before, so that the number of uses counts from the start)
    let pre = if r.chance(1, 2) { vec![] } else { gen_pre(&mut r) };
    let (mut s, mut m) = (lib_state(&pre), ref_state(&pre));
    let data = r.trits(4096);
    let how = c.idx % 10;
    let name = ["absorb", "squeeze", "encrypt", "decrypt in place", "compare", "join", "fork", "save and restore", "mixture", "joined"][how];
    for i in 0..n {
        let k = 1 + i % 3;
        let x = &data[(i * 5) % 4000..][..k];
        let op = if how == 8 { r.below(8) } else { how };
        match op {
            0 => {
                s.absorb(sl(x));
                m.absorb(x);
            }
            1 => {
                let (y, z) = (tvt(&s.squeeze_trits(k)), m.squeeze(k));
                ck!(y == z, "squeeze number {} of one sponge ({}): {}", i, name, diff_at(&y, &z));
            }
            2 => {
                let mut y = [0u8; 3];
                s.encr(sl(x), slm(&mut y[..k]));
                let z = m.encr(x);
                ck!(y[..k] == z[..], "encryption number {} of one sponge ({})", i, name);
            }
            3 => {
                let mut y = tr(x);
                s.decr_mut_trits(&mut y);
                let z = m.decr(x);
                ck!(tvt(&y) == z, "decryption number {} of one sponge ({})", i, name);
            }
            4 => {
                let mut z = m.squeeze(k);
                let good = i % 5 != 0;
                if !good {
                    z[i % k] = (z[i % k] + 1) % 3;
                }
                ck!(s.squeeze_eq(sl(&z)) == good, "comparison number {} of one sponge ({}) is not {}", i, name, good);
            }
            5 => {
                // (the joinee is new and uncommitted: nothing is transformed for it)
                let mut j = Spongos::init();
                j.absorb(sl(x));
                s.join(&mut j);
                let mut j = RS::new();
                j.absorb(x);
                m.join(&mut j);
            }
            6 => {
                let mut t = s.fork();
                if i % 2 == 0 {
                    s.fork_at(&mut t);
                }
                t.absorb(sl(x));
                s = t;
                m.absorb(x);
            }
            7 => {
                s.commit();
                s = Spongos::from_inner_trits(&s.to_inner_trits());
                s.absorb(sl(&data[..486]));
                m.commit();
                m.absorb(&data[..486]);
            }
            _ => {
                let mut j = Spongos::init();
                j.join(&mut s);
                let mut j2 = RS::new();
                j2.join(&mut m);
                if i % 512 == 0 {
                    ck!(fp(&j) == rfp(&j2), "sponge joined with another ({} times)", i);
                }
            }
        }
        if how != 6 || i % 40 == 0 {
            s.commit();
            m.commit();
        }
        if matches!(i + 1, 254..=258 | 65_534..=65_538) {
            // everything else that can be done with it
            let (mut a, mut b) = (s.fork(), RS { st: m.st, pos: m.pos });
            a.commit();
            b.commit();
            let z: Vec<u8> = b.st[486..].to_vec();
            ck!(tvt(&a.to_inner_trits()) == z, "inner state after {} uses ({}) of one sponge differs", i + 1, name);
            let mut j = Spongos::init();
            j.absorb(sl(x));
            let mut k = RS::new();
            k.absorb(x);
            j.join(&mut a);
            k.join(&mut b);
            ck!(fp(&j) == rfp(&k) && fp(&a) == rfp(&b), "join with a sponge after {} uses ({})", i + 1, name);
            let mut t = Spongos::init();
            s.fork_at(&mut t);
            ck!(fp(&t) == rfp(&m), "fork after {} uses ({}) of one sponge differs", i + 1, name);
        }
        if i % 4096 == 0 {
            ck!(fp(&s) == rfp(&m), "state after {} uses ({}) of one sponge differs", i + 1, name);
        }
    }
    ck!(fp(&s) == rfp(&m), "state after {} uses ({}) of one sponge differs", n, name);
    c.evn("uses of one sponge in a row", n);
    c.seen_b(&rfp(&m));
    Ok(())
}
/// C10: the permutation iterated, a sponge reset and fed very often.
pub fn troika(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 66_000 + r.below(600));
    let how = c.idx % 5;
    let data = r.trits(4096);
    let what: Vec<u8>;
    match how {
        0 => {
            let mut t = Troika::default();
            let mut st: State = [0u8; 729];
            for i in 0..n {
                t.permutation();
                rtroika::perm(&mut st);
                let k = (i * 7) % 729;
                ck!(t.get1(k) == st[k], "trit {} after {} permutations of one state", k, i + 1);
                if i % 3 == 0 {
                    let v = data[i % 4096];
                    t.set1(k, v);
                    st[k] = v;
                }
            }
            let got: Vec<u8> = (0..729).map(|i| t.get1(i)).collect();
            ck!(got[..] == st[..], "state after {} permutations: {}", n, diff_at(&got, &st[..]));
            what = got;
        }
        1 => {
            let mut s = TroikaSponge::default();
            let mut y = [0u8; 5];
            for i in 0..n {
                let x = &data[(i * 5) % 4000..][..i % 50];
                s.absorb(x);
                s.finalize();
                s.squeeze(&mut y);
                ck!(y[..] == rtroika::hash(x, 5)[..], "hash number {} of one sponge that is reset after each", i + 1);
                s.reset();
            }
            what = y.to_vec();
        }
        2 => {
            let mut s = TroikaSponge::default();
            let mut x = vec![];
            for i in 0..n {
                let k = 1 + i % 2;
                s.absorb(&data[i % 4000..][..k]);
                x.extend_from_slice(&data[i % 4000..][..k]);
            }
            s.finalize();
            let mut y = vec![0u8; 300];
            s.squeeze(&mut y);
            let w = rtroika::hash(&x, 300);
            ck!(y == w, "hash absorbed in {} pieces: {}", n, diff_at(&y, &w));
            what = w;
        }
        4 => {
            // a reset after exactly so many permutations
            let mut s = TroikaSponge::default();
            let k = if c.idx >= 20 || n < 60_000 { 254 + c.idx % 5 } else { *r.pick(&[65_535usize, 65_536, 65_536, 65_537]) };
            for a in [1usize, 255, 256, 257, k] {
                let x = r.trits(243 * (a - 1) + 7);
                s.absorb(&x);
                s.finalize();
                let mut y = vec![0u8; 9];
                s.squeeze(&mut y);
                let w = rtroika::hash(&x, 9);
                ck!(y == w, "hash of {} blocks after a reset", a);
                s.reset();
                let mut y = vec![0u8; 40];
                s.absorb(&data[..50]);
                s.finalize();
                s.squeeze(&mut y);
                let w = rtroika::hash(&data[..50], 40);
                ck!(y == w, "a sponge reset after {} permutations is not new: {}", a, diff_at(&y, &w));
                s.reset();
            }
            what = data[..300].to_vec();
        }
        _ => {
            let x = &data[..300];
            let mut s = TroikaSponge::default();
            s.absorb(x);
            s.finalize();
            let mut y = vec![0u8; n * 3 / 2 + 2];
            let mut at = 0;
            for i in 0..n {
                let k = 1 + i % 2;
                s.squeeze(&mut y[at..at + k]);
                at += k;
            }
            let w = rtroika::hash(x, at);
            ck!(y[..at] == w[..], "output taken in {} pieces: {}", n, diff_at(&y[..at], &w));
            what = x.to_vec();
        }
    }
    c.evn("uses of one permutation state or hash sponge in a row", n);
    c.seen_b(&what);
    Ok(())
}
/// C11: one generator asked very often, and a long line of clones.
pub fn prng_(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 66_000 + r.below(600));
    let key = r.trits(243);
    let data = r.trits(4096);
    let mut g = PRNG::init(sl(&key));
    let how = c.idx % 3;
    for i in 0..n {
        let x = &data[(i * 5) % 4000..][..i % 40];
        let k = 1 + i % 5;
        match how {
            0 => {
                let mut y = [0u8; 5];
                g.gen(sl(x), slm(&mut y[..k]));
                ck!(y[..k] == prng(&key, &[x], k)[..], "request number {} to one generator", i + 1);
            }
            1 => {
                let (mut a, mut b) = ([0u8; 5], [0u8; 3]);
                let h = x.len() / 2;
                g.genss(&[sl(&x[..h]), sl(&x[h..])], &[slm(&mut a[..k]), slm(&mut b)]);
                let w = prng(&key, &[x], k + 3);
                ck!(a[..k] == w[..k] && b[..] == w[k..], "request number {} in two parts to one generator", i + 1);
            }
            _ => {
                g = g.clone();
                if i % 8 == 0 {
                    let mut y = [0u8; 5];
                    g.gens(&[sl(x)], slm(&mut y[..k]));
                    ck!(y[..k] == prng(&key, &[x], k)[..], "clone number {} of a generator", i + 1);
                }
            }
        }
    }
    c.evn("uses of one generator in a row", n);
    c.seen_b(&key);
    Ok(())
}
/// C12: one key object signs and verifies very often.
pub fn wots_(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 280);
    let key = r.trits(243);
    let sk = wots::PrivateKey::gen(&PRNG::init(sl(&key)), &[]);
    let pk = wots::PublicKey::gen(&sk);
    let pkv = {
        let mut v = vec![0u8; 243];
        sk.calc_pk(slm(&mut v));
        v
    };
    let skm = prng(&key, &[], wots::SK_SIZE);
    let hs: Vec<Vec<u8>> = (0..5).map(|_| hash(&mut r)).collect();
    let ss: Vec<Vec<u8>> = hs.iter().map(|h| wots_sign(&skm, h)).collect();
    for i in 0..n {
        let j = if i % 3 == 0 { i % 5 } else { 0 };
        match (c.idx + i / 300) % 2 {
            0 => {
                let mut v = vec![0u8; wots::SIG_SIZE];
                sk.sign(sl(&hs[j]), slm(&mut v));
                ck!(v == ss[j], "signature number {} by one key object differs: {}", i + 1, diff_at(&v, &ss[j]));
            }
            _ => {
                ck!(pk.verify(sl(&hs[j]), sl(&ss[j])), "verification number {} with one key object refuses", i + 1);
                ck!(!pk.verify(sl(&hs[j]), sl(&ss[(j + 1) % 5])) || hs[j] == hs[(j + 1) % 5], "verification number {} with one key object accepts another signature", i + 1);
            }
        }
    }
    let mut v = vec![0u8; 243];
    sk.calc_pk(slm(&mut v));
    ck!(v == pkv && v == wots_pk(&skm), "public key after {} uses of the key object", n);
    c.evn("uses of one one-time key object in a row", n);
    c.seen_b(&key);
    Ok(())
}
/// C13: one private key signs very often without being advanced, and is looked at in between.
pub fn mss_(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 270 + r.below(10));
    let height = r.range(0, 3);
    let key = r.trits(243);
    let p = PRNG::init(sl(&key));
    let m = RMss::gen(&key, &[], height);
    let skn = r.below(1 << height);
    let mut a = PrivateKeyMTComplete::gen(&p, sl(&[]), height);
    let mut b = PrivateKeyMTTraversal::gen(&p, sl(&[]), height);
    for _ in 0..skn {
        a.next();
        b.next();
    }
    let hs: Vec<Vec<u8>> = (0..3).map(|_| hash(&mut r)).collect();
    let ss: Vec<Vec<u8>> = hs.iter().map(|h| m.sign(skn, h)).collect();
    for i in 0..n {
        let j = if i % 3 == 0 { i / 3 % 3 } else { 0 };
        let mut v = vec![0u8; mss::sig_size(height)];
        if c.idx % 2 == 0 {
            a.sign(sl(&hs[j]), slm(&mut v));
        } else {
            b.sign(sl(&hs[j]), slm(&mut v));
        }
        ck!(v == ss[j], "signature number {} without advancing differs from the documented scheme: {}", i + 1, diff_at(&v, &ss[j]));
        ck!(a.skn() == skn && b.skn() == skn && a.skn_left() == (1 << height) - skn, "signing {} times changes the key number", i + 1);
        ck!(msspk_v(a.public_key()) == m.pk() && msspk_v(b.public_key()) == m.pk(), "signing {} times changes the public key", i + 1);
    }
    c.evn("signatures in a row without advancing", n);
    c.seen_b(&key);
    Ok(())
}
/// C14: one public key object verifies very often.
pub fn verify(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 270);
    let height = r.range(0, 3);
    let key = r.trits(243);
    let m = RMss::gen(&key, &[], height);
    let pk = msspk(m.pk()).ok_or("HARNESS: public key")?;
    let h = hash(&mut r);
    let v = m.sign(r.below(1 << height), &h);
    let mut w = v.clone();
    let at = 18 + r.below(w.len() - 18);
    w[at] = (w[at] + 1) % 3;
    for i in 0..n {
        let bad = i % 4 == 1;
        ck!(pk.verify(sl(&h), sl(if bad { &w } else { &v })) != bad, "verification number {} with one key object: {} signature", i + 1, if bad { "accepts an altered" } else { "refuses a genuine" });
        if i % 8 == 0 {
            let x = mss::PublicKey::recover(sl(&h), sl(&v));
            ck!(x.map(|(k, z)| (k == pk, z)) == Some((true, v.len())), "recovery number {}", i + 1);
        }
    }
    c.evn("verifications in a row", n);
    c.seen_b(&key);
    Ok(())
}
/// C16, C17: one key pair used very often.
pub fn ntru_(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 700);
    let k = ntrup(r.below(NNTRU));
    let key = r.trits(243);
    let pkey = r.trits(243);
    let nonce = r.trits(33);
    let p = PRNG::init(sl(&pkey));
    let y = ntru_encr(&mut RS::new(), &pkey, &k.pkt, &nonce, &key).ok_or("HARNESS: encapsulation")?;
    let mut bad = y.clone();
    let at = r.below(bad.len());
    bad[at] = (bad[at] + 1) % 3;
    for i in 0..n {
        let mut z = vec![1u8; 9216];
        k.pk.encr(&p, sl(&nonce), sl(&key), slm(&mut z));
        ck!(z == y, "encapsulation number {} with one public key: {}", i + 1, diff_at(&z, &y));
        let mut q = vec![1u8; 243];
        ck!(k.sk.decr(sl(&y), slm(&mut q)) && q == key, "decapsulation number {} with one private key", i + 1);
        if i % 4 == 2 {
            ck!(!k.sk.decr(sl(&bad), slm(&mut q)), "decapsulation number {} with one private key accepts an altered capsule", i + 1);
        }
    }
    c.evn("uses of one key pair in a row", n);
    c.seen_b(&key);
    Ok(())
}
/// C22: a message of very many fields.
pub fn fields(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = uses(c, 66_000 + r.below(600));
    let pre = gen_pre(&mut r);
    let (mut s, mut m) = (lib_state(&pre), ref_state(&pre));
    let mut kinds: Vec<(usize, i64)> = vec![];
    let only = if c.idx % 2 == 0 { Some(c.idx / 2 % 6) } else { None };
    for _ in 0..n {
        kinds.push((only.unwrap_or_else(|| r.below(7)), r.irange(-13, 13)));
    }
    let mut want = vec![];
    for (k, v) in &kinds {
        match k {
            0 => put(Md::Absorb, &unbal(*v, 3), &mut m, &mut want),
            1 => put(Md::Mask, &unbal(*v, 3), &mut m, &mut want),
            2 => put_size(Md::Absorb, v.unsigned_abs(), &mut m, &mut want),
            3 => put_size(Md::Mask, v.unsigned_abs(), &mut m, &mut want),
            4 => put_trytes(Md::Absorb, &[], &mut m, &mut want),
            5 => {
                m.absorb(&unbal(*v, 3));
                m.commit();
            }
            _ => put(Md::Absorb, &unbal(*v, 6), &mut m, &mut want),
        }
    }
    let mut buf = Trits::zero(want.len());
    {
        let mut b = buf.slice_mut();
        for (k, v) in &kinds {
            match k {
                0 => pb3::Trint3(*v as i8).wrap_absorb(&mut s, &mut b),
                1 => pb3::Trint3(*v as i8).wrap_mask(&mut s, &mut b),
                2 => pb3::Size(v.unsigned_abs() as usize).wrap_absorb(&mut s, &mut b),
                3 => pb3::Size(v.unsigned_abs() as usize).wrap_mask(&mut s, &mut b),
                4 => pb3::Trytes(Trits::zero(0)).wrap_absorb(&mut s, &mut b),
                5 => {
                    s.absorb(sl(&unbal(*v, 3)));
                    s.commit();
                }
                _ => pb3::Trint6(*v as i16).wrap_absorb(&mut s, &mut b),
            }
        }
        ck!(b.is_empty(), "{} fields leave {} of {} trits", n, b.size(), want.len());
    }
    let got = tvt(&buf);
    ck!(got == want, "a message of {} fields: {}", n, diff_at(&got, &want));
    ck!(fp(&s) == rfp(&m), "state after wrapping {} fields", n);
    let mut t = lib_state(&pre);
    let mut b = sl(&want);
    for (i, (k, v)) in kinds.iter().enumerate() {
        let u = v.unsigned_abs() as usize;
        let ok = match k {
            0 => pb3::Trint3::unwrap_absorb_sized(&mut t, &mut b) == Ok(pb3::Trint3(*v as i8)),
            1 => pb3::Trint3::unwrap_mask_sized(&mut t, &mut b) == Ok(pb3::Trint3(*v as i8)),
            2 => pb3::Size::unwrap_absorb_sized(&mut t, &mut b) == Ok(pb3::Size(u)),
            3 => pb3::Size::unwrap_mask_sized(&mut t, &mut b) == Ok(pb3::Size(u)),
            4 => pb3::Trytes::unwrap_absorb_sized(&mut t, &mut b).map(|x| x.size()) == Ok(0),
            5 => {
                t.absorb(sl(&unbal(*v, 3)));
                t.commit();
                true
            }
            _ => pb3::Trint6::unwrap_absorb_sized(&mut t, &mut b) == Ok(pb3::Trint6(*v as i16)),
        };
        ck!(ok, "field {} of {} (kind {}, value {}) does not unwrap", i, n, k, v);
    }
    ck!(b.is_empty(), "{} trits left after {} fields", b.size(), n);
    ck!(fp(&t) == rfp(&m), "state after unwrapping {} fields", n);
    c.evn("fields of very long messages", n);
    c.seen_b(&want[..want.len().min(3000)]);
    Ok(())
}
