//! C11 PRNG: deterministic keyed stream.
use crate::eng::*;
use crate::rmodel::prng as rprng;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::prng::{self, PRNG};
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

pub fn groups() -> Vec<Group> {
    vec![Group { name: "marathon", n: 1, deep: 4, f: crate::p::marathon::prng_ }, g("stream", 1500, stream), g("split", 900, split), g("distinct", 800, distinct), g("dbg", 60, dbg), g("history", 300, history), Group { name: "huge", n: 4, deep: 6, f: crate::p::huge::prng }]
}
fn nonces(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..r.below(5))
        .map(|_| {
            let n = r.tail(600);
            r.trits_biased(n)
        })
        .collect()
}
fn mk(r: &mut Rng, key: &[u8]) -> PRNG {
    match r.below(4) {
        0 => PRNG::init(sl(key)),
        1 => PRNG::init_trits(&tr(key)),
        2 => prng::init(sl(key)),
        _ => prng::init_trits(&tr(key)),
    }
}
fn gens(p: &PRNG, ns: &[Vec<u8>], n: usize) -> Vec<u8> {
    let ss: Vec<TritSlice> = ns.iter().map(|x| sl(x)).collect();
    let mut v = vec![1u8; n];
    p.gens(&ss, slm(&mut v));
    v
}
fn stream(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits_biased(243);
    let p = mk(&mut r, &key);
    let ns = nonces(&mut r);
    let refs: Vec<&[u8]> = ns.iter().map(|x| &x[..]).collect();
    let n = r.tail(1500);
    let want = rprng(&key, &refs, n);
    let a = gens(&p, &ns, n);
    ck!(a == want, "gens of {} trits from {} nonces: {}", n, ns.len(), diff_at(&a, &want));
    let cat: Vec<u8> = ns.concat();
    let mut b = r.trits(n + 7);
    let b0 = b.clone();
    p.gen(sl(&cat), slm(&mut b).drop(3).take(n));
    ck!(b[3..3 + n] == want[..], "gen of {} trits: {}", n, diff_at(&b[3..3 + n], &want));
    ck!(b[..3] == b0[..3] && b[n + 3..] == b0[n + 3..], "gen writes outside its output");
    ck!(tvt(&p.gen_trits(&tr(&cat), n)) == want, "gen_trits of {} trits", n);
    let k = r.below(n + 1);
    ck!(gens(&p, &ns, k) == want[..k], "a shorter request of {} trits is no prefix of {}", k, n);
    // the generator and a clone are unchanged
    ck!(gens(&p.clone(), &ns, n) == want, "a clone generates other trits");
    ck!(gens(&p, &ns, n) == want, "a repeated request generates other trits");
    c.evn("streams compared", 6);
    c.seen_b(&want);
    c.dig(&want);
    Ok(())
}
/// Several buffers in one request; other splits of the nonces.
fn split(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits(243);
    let p = mk(&mut r, &key);
    let ns = nonces(&mut r);
    let cat: Vec<u8> = ns.concat();
    let sizes: Vec<usize> = (0..r.below(6)).map(|_| r.size(600)).collect();
    let total: usize = sizes.iter().sum();
    let want = rprng(&key, &[&cat], total);
    let mut bufs: Vec<Trits> = sizes.iter().map(|n| tr(&r.trits(*n))).collect();
    {
        let ms: Vec<TritSliceMut> = bufs.iter_mut().map(|b| b.slice_mut()).collect();
        let ss: Vec<TritSlice> = ns.iter().map(|x| sl(x)).collect();
        p.genss(&ss, &ms);
    }
    let got: Vec<u8> = bufs.iter().flat_map(|b| tvt(b)).collect();
    ck!(got == want, "genss into {:?}: {}", sizes, diff_at(&got, &want));
    // other split of the same nonces
    let mut cut: Vec<Vec<u8>> = vec![];
    let mut o = 0;
    while o < cat.len() {
        let k = r.range(0, cat.len() - o);
        cut.push(cat[o..o + k].to_vec());
        o += k;
    }
    let a = gens(&p, &cut, total);
    ck!(a == want, "nonces in {} pieces: {}", cut.len(), diff_at(&a, &want));
    c.evn("requests compared", 2);
    c.seen_b(&want);
    Ok(())
}
fn distinct(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let key = r.trits_biased(243);
    let ns = nonces(&mut r);
    let cat: Vec<u8> = ns.concat();
    let a = tvt(&mk(&mut r, &key).gen_trits(&tr(&cat), 300));
    let mut k2 = key.clone();
    let i = r.below(243);
    k2[i] = (k2[i] + 1 + r.below(2) as u8) % 3;
    let b = tvt(&mk(&mut r, &k2).gen_trits(&tr(&cat), 300));
    ck!(a != b, "keys differing at trit {} generate the same stream", i);
    c.ev("different keys");
    if !cat.is_empty() {
        let mut n2 = cat.clone();
        let i = if r.chance(1, 3) { n2.len() - 1 } else { r.below(n2.len()) };
        n2[i] = (n2[i] + 1 + r.below(2) as u8) % 3;
        let b = tvt(&mk(&mut r, &key).gen_trits(&tr(&n2), 300));
        ck!(a != b, "nonces of {} trits differing at trit {} generate the same stream", cat.len(), i);
        c.ev("different nonces");
    }
    c.seen_b(&a);
    Ok(())
}
fn dbg(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = *r.pick(&["", "A", "PRNG", "9", "SECRETKEY", "PRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEYPRNGKEY"]);
    let key = tvt(&Trits::cycle_str(243, s));
    let p = prng::dbg_init_str(s);
    let n = r.tail(300);
    let x = r.trits(n);
    ck!(tvt(&p.gen_trits(&tr(&x), 300)) == rprng(&key, &[&x], 300), "dbg_init_str({}) is another generator", s);
    c.ev("debug keys");
    c.seen_b(&x);
    Ok(())
}
/// Many requests of several generators, interleaved: each answer depends on its own arguments only.
fn history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let keys: Vec<Vec<u8>> = (0..3).map(|_| r.trits(243)).collect();
    let mut ps: Vec<PRNG> = keys.iter().map(|k| mk(&mut r, k)).collect();
    for _ in 0..20 {
        let i = r.below(3);
        if r.chance(1, 5) {
            ps[i] = ps[i].clone();
        }
        let ns = nonces(&mut r);
        let refs: Vec<&[u8]> = ns.iter().map(|x| &x[..]).collect();
        let n = r.tail(500);
        let a = gens(&ps[i], &ns, n);
        ck!(a == rprng(&keys[i], &refs, n), "request of {} trits in a history differs", n);
        c.ev("interleaved requests");
        c.seen_b(&a);
    }
    Ok(())
}
