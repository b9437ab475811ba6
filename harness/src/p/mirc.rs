//! Small workloads for the undefined-behaviour interpreter (a permutation takes it about half a second).
use crate::eng::*;
use crate::msg::*;
use crate::util::*;
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::TritSliceMut;
use iota_mam::{ntru, troika};

pub fn groups() -> Vec<Group> {
    vec![g("sponge", 8, sponge), g("troika", 4, trk), g("poly", 3, poly), g("ntru", 1, ntr), g("tagged", 3, tagged), g("keyload", 2, keyload), g("prng", 3, prn)]
}
fn sponge(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.range(1, 60);
    let x = r.trits(n);
    let mut s = Spongos::init();
    s.absorb(sl(&x));
    s.commit();
    let mut t = s.fork();
    let m = r.trits(n + 7);
    let mut y = m.clone();
    // in place, in a window of the buffer
    let w: TritSliceMut = slm(&mut y).drop(3).take(n);
    s.encr(w.as_const(), w);
    ck!(y[..3] == m[..3] && y[3 + n..] == m[3 + n..], "encryption writes outside of its window");
    let mut z = vec![1u8; n];
    t.decr(sl(&y).drop(3).take(n), slm(&mut z));
    ck!(z[..] == m[3..3 + n], "decryption does not invert encryption");
    let q = tvt(&s.squeeze_trits(9));
    ck!(t.squeeze_eq(sl(&q)), "states differ");
    s.commit();
    let mut inner = vec![1u8; 243];
    s.to_inner(slm(&mut inner));
    Spongos::from_inner(sl(&inner));
    c.ev("sponge programs");
    c.seen_b(&y);
    Ok(())
}
fn trk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut t = troika::Troika::default();
    let v = r.trits(729);
    for (i, x) in v.iter().enumerate() {
        t.set1(i, *x);
    }
    for (i, x) in v.iter().enumerate() {
        ck!(t.get1(i) == *x, "trit {} of the state", i);
    }
    t.permutation();
    c.ev("permutations");
    c.seen_b(&v);
    Ok(())
}
fn poly(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let v: Vec<i64> = (0..1024).map(|_| r.irange(-6144, 6144)).collect();
    let t = crate::rmodel::ptrits(&v);
    let mut p = Poly::new();
    ck!(p.from_trits(sl(&t)), "in-range polynomial refused");
    p.ntt();
    p.intt();
    let mut o = vec![0u8; 9216];
    p.to_trits(slm(&mut o));
    ck!(o == t, "transform and back");
    let mut k = vec![0u8; 1024];
    p.round_to_trits(slm(&mut k));
    p.sub_small(sl(&k));
    c.ev("transforms");
    c.seen_b(&t);
    Ok(())
}
fn ntr(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits(243);
    let p = PRNG::init(sl(&key));
    let (sk, pk) = ntru::gen(&p, sl(&key[..9]));
    let k = r.trits(243);
    let mut y = vec![0u8; ntru::EKEY_SIZE];
    pk.encr(&p, sl(&key[..3]), sl(&k), slm(&mut y));
    let mut d = vec![0u8; 243];
    ck!(sk.decr(sl(&y), slm(&mut d)) && d == k, "decapsulation fails");
    ck!(ntru::PublicKey::from_trits(tr(&ntrupk_v(&pk))).is_some(), "own public key refused");
    c.ev("encapsulations");
    c.seen_b(&y);
    Ok(())
}
fn tagged(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.below(14);
    let m = Body::Tagged { id: r.trits(81), public: r.trits(3 * n), masked: r.trits(30) };
    unit(c, &m, Want::Tagged)
}
fn keyload(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let m = gen_keyload(&mut r, 2, 0);
    let w = match &m {
        Body::Keyload { psks, .. } => Want::Keyload { psks: vec![psks[c.idx % 2].clone()], ntrus: vec![] },
        _ => Want::Tagged,
    };
    unit(c, &m, w)
}
fn unit(c: &mut Ctx, m: &Body, want: Want) -> R {
    let mut s = Spongos::init();
    let l = Spongos::init();
    let v = lib_wrap(m, &mut s, &mut l.fork(), (1, 2), 1)?;
    let rx = Rx { want, id: body_id(m).cloned() };
    let g = lib_unwrap_exact(&rx, &mut Spongos::init(), &l, &v);
    ck!(g.res.is_ok() && g.used == v.len(), "{} does not unwrap", describe(m));
    // hostile: truncated within the first field
    let g = lib_unwrap_exact(&rx, &mut Spongos::init(), &l, &v[..40]);
    ck!(g.res.is_err(), "a truncated message is accepted");
    c.ev("messages");
    c.seen_b(&v);
    Ok(())
}
fn prn(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits(243);
    let p = PRNG::init(sl(&key));
    let mut v = vec![0u8; 60];
    let n = r.trits(20);
    let (a, b) = v.split_at_mut(23);
    p.genss(&[sl(&n), sl(&n)], &[slm(a), slm(b)]);
    let mut w = vec![0u8; 60];
    p.gens(&[sl(&n), sl(&n)], slm(&mut w));
    ck!(v == w, "pieces of a stream");
    c.ev("streams");
    c.seen_b(&w);
    Ok(())
}
