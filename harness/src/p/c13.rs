//! C13 life cycle of MSS private keys, both tree implementations side by side.
use crate::eng::*;
use crate::p::c12::hash;
use crate::rmodel::*;
use crate::util::*;
use crate::rng::Rng;
use iota_mam::mss::mt::{max_skn, APath, GenLeaf, Height, Idx, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, PrivateKeyMTComplete, PrivateKeyMTTraversal, PrivateKeyT};
use iota_mam::prng::PRNG;
use iota_mam::trits::Trits;
use std::collections::HashMap;

pub fn groups() -> Vec<Group> {
    vec![
        Group { name: "marathon", n: 4, deep: 4, f: crate::p::marathon::mss_ },
        Group { name: "life", n: 24, deep: 8, f: life },
        Group { name: "herd", n: 20, deep: 8, f: herd },
        Group { name: "tall", n: 2, deep: 4, f: tall },
        Group { name: "numbers", n: 63, deep: 12, f: numbers },
        Group { name: "count", n: 21, deep: 3, f: count },
        Group { name: "leaves", n: 24, deep: 12, f: leaves },
        Group { name: "walk", n: 16, deep: 8, f: walk },
        Group { name: "exhausted", n: 12, deep: 8, f: exhausted },
        Group { name: "distinct", n: 10, deep: 8, f: distinct },
    ]
}
/// One signature, checked: format, key number, validity, leaf key.
#[allow(clippy::too_many_arguments)]
fn one_sig(c: &mut Ctx, s: &[u8], h: &[u8], height: usize, skn: usize, pk: &[u8], seen: &mut HashMap<usize, Vec<u8>>) -> R {
    ck!(s.len() == mss::sig_size(height), "signature size");
    ck!(mss_parse(s) == Some((height, skn)), "signature number {} of height {} claims {:?}", skn, height, mss_parse(s));
    ck!(mss::verify(sl(pk), sl(h), sl(s)), "signature number {} of height {} does not verify under the public key", skn, height);
    let leaf = wots_recover(h, &s[18..18 + 13122]);
    for (k, l) in seen.iter() {
        ck!((*l == leaf) == (*k == skn), "signatures {} and {} of height {} share or change the one-time key", k, skn, height);
    }
    seen.insert(skn, leaf);
    c.ev("signatures checked");
    c.dig(s);
    Ok(())
}
fn life(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = *r.pick(&[0usize, 0, 1, 1, 2, 2, 3, 3, if c.thorough { 4 } else { 2 }]);
    let key = r.trits_biased(243);
    let nn = r.tail(200);
    let nonce = r.trits_biased(nn);
    let p = PRNG::init(sl(&key));
    let mut a = PrivateKeyMTComplete::gen(&p, sl(&nonce), height);
    let mut b = PrivateKeyMTTraversal::gen(&p, sl(&nonce), height);
    let pk = msspk_v(a.public_key());
    let m = RMss::gen(&key, &nonce, height);
    ck!(pk == m.pk(), "public key of height {} differs from the documented scheme", height);
    let total = 1usize << height;
    let mut skn = 0;
    let mut seen = HashMap::new();
    let mut stepped = 0;
    c.sample(format!("height {} nonce of {} trits", height, nn));
    while skn < total || stepped < 3 {
        ck!(msspk_v(a.public_key()) == pk && msspk_v(b.public_key()) == pk, "public key changed at key number {} of {}", skn, total);
        ck!(a.height() == height && b.height() == height, "height changed at key number {}", skn);
        ck!(a.skn() == skn && b.skn() == skn, "key number {} or {} instead of {}", a.skn(), b.skn(), skn);
        ck!(a.skn_left() == total - skn && b.skn_left() == total - skn, "keys left {} or {} instead of {}", a.skn_left(), b.skn_left(), total - skn);
        c.evn("states of a key checked", 2);
        if skn < total {
            for _ in 0..r.below(3).max(if r.chance(1, 2) { 1 } else { 0 }) {
                let h = hash(&mut r);
                let mut s = vec![0u8; mss::sig_size(height)];
                let mut t = vec![1u8; mss::sig_size(height)];
                a.sign(sl(&h), slm(&mut s));
                b.sign(sl(&h), slm(&mut t));
                ck!(s == t, "the tree implementations sign differently (key {} of {}): {}", skn, total, diff_at(&s, &t));
                ck!(s == m.sign(skn, &h), "signature differs from the documented scheme (key {} of {})", skn, total);
                one_sig(c, &s, &h, height, skn, &pk, &mut seen)?;
                ck!(a.public_key().verify(sl(&h), sl(&s)), "the key object does not verify its own signature");
                ck!(a.skn() == skn && b.skn() == skn, "signing changed the key number");
                c.seen_b(&s[..400]);
            }
        }
        if r.chance(1, 6) {
            // a clone lives on independently
            let (mut a2, mut b2) = (a.clone(), b.clone());
            a2.next();
            b2.next();
            ck!(a.skn() == skn && b.skn() == skn, "advancing a clone changed the original");
            if r.chance(1, 2) {
                (a, b) = (a.clone(), b.clone());
            }
        }
        let (x, y) = (a.next(), b.next());
        if skn < total {
            skn += 1;
        } else {
            stepped += 1;
        }
        if skn == total && stepped == 0 {
            stepped = 1;
        }
        ck!(x == (skn < total) && y == (skn < total), "advancing to {} of {} reports {} and {}", skn, total, x, y);
        c.ev("advances checked");
    }
    Ok(())
}
/// Copies of private keys at different key numbers, of several origins, used in turn.
fn herd(c: &mut Ctx) -> R {
    enum K {
        A(PrivateKeyMTComplete),
        B(PrivateKeyMTTraversal),
    }
    let mut r = c.rng.clone();
    let ms: Vec<RMss> = (0..r.range(1, 2))
        .map(|_| {
            let h = r.range(1, 3);
            let (key, nonce) = (r.trits_biased(243), r.trits(h * 9));
            RMss::gen(&key, &nonce, h)
        })
        .collect();
    let mut ks: Vec<(K, usize, usize)> = vec![];
    for (i, m) in ms.iter().enumerate() {
        let p = PRNG::init(sl(&m.key));
        ks.push((K::A(PrivateKeyMTComplete::gen(&p, sl(&m.nonce), m.height)), i, 0));
        ks.push((K::B(PrivateKeyMTTraversal::gen(&p, sl(&m.nonce), m.height)), i, 0));
    }
    let mut hs: Vec<Vec<u8>> = (0..2).map(|_| hash(&mut r)).collect();
    for step in 0..r.range(25, 50) {
        let j = r.below(ks.len());
        let (i, at) = (ks[j].1, ks[j].2);
        let total = 1usize << ms[i].height;
        match r.below(8) {
            0 if ks.len() < 9 => {
                let k = match &ks[j].0 {
                    K::A(a) => K::A(a.clone()),
                    K::B(b) => K::B(b.clone()),
                };
                ks.push((k, i, at));
                c.ev("copies of private keys made");
            }
            1 if ks.len() > 5 => {
                ks.swap_remove(j);
            }
            2 | 3 => {
                let more = match &mut ks[j].0 {
                    K::A(a) => a.next(),
                    K::B(b) => b.next(),
                };
                ks[j].2 = (at + 1).min(total);
                ck!(more == (ks[j].2 < total), "step {}: advancing a copy from {} of {} reports {}", step, at, total, more);
            }
            _ if at < total => {
                let h = if r.chance(1, 2) { r.pick(&hs).clone() } else { hash(&mut r) };
                let mut s = vec![1u8; mss::sig_size(ms[i].height)];
                let (n, l, pk) = match &ks[j].0 {
                    K::A(a) => {
                        a.sign(sl(&h), slm(&mut s));
                        (a.skn(), a.skn_left(), msspk_v(a.public_key()))
                    }
                    K::B(b) => {
                        b.sign(sl(&h), slm(&mut s));
                        (b.skn(), b.skn_left(), msspk_v(b.public_key()))
                    }
                };
                ck!(n == at && l == total - at, "step {}: a copy at {} of {} reports number {} and {} left", step, at, total, n, l);
                ck!(pk == ms[i].pk(), "step {}: public key of a copy differs", step);
                ck!(s == ms[i].sign(at, &h), "step {}: signature number {} by a copy of a key of height {} differs from the documented scheme", step, at, ms[i].height);
                ck!(mss::verify(sl(&pk), sl(&h), sl(&s)), "step {}: signature number {} by a copy does not verify", step, at);
                c.ev("signatures by copies checked");
                c.seen_b(&s[..400]);
                hs[r.below(2)] = h;
            }
            _ => {}
        }
    }
    Ok(())
}
/// Taller trees: the walk is compared with the model only at the public key.
fn tall(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = if c.thorough { r.range(5, 7) } else { 5 };
    let key = r.trits(243);
    let nonce = r.trits(30);
    let p = PRNG::init(sl(&key));
    let mut a = PrivateKeyMTComplete::gen(&p, sl(&nonce), height);
    let mut b = PrivateKeyMTTraversal::gen(&p, sl(&nonce), height);
    let pk = msspk_v(a.public_key());
    let total = 1usize << height;
    let mut seen = HashMap::new();
    for skn in 0..total {
        let h = hash(&mut r);
        let mut s = vec![0u8; mss::sig_size(height)];
        let mut t = vec![0u8; mss::sig_size(height)];
        ck!(a.skn() == skn && b.skn() == skn, "key number {} or {} instead of {}", a.skn(), b.skn(), skn);
        b.sign(sl(&h), slm(&mut t));
        one_sig(c, &t, &h, height, skn, &pk, &mut seen)?;
        a.sign(sl(&h), slm(&mut s));
        ck!(s == t, "the tree implementations sign differently (key {} of {}): {}", skn, total, diff_at(&s, &t));
        c.seen_b(&t[..400]);
        ck!(a.next() == (skn + 1 < total), "advance at {}", skn);
        ck!(b.next() == (skn + 1 < total), "advance at {}", skn);
    }
    ck!(msspk_v(a.public_key()) == pk && msspk_v(b.public_key()) == pk, "public key changed after exhaustion");
    Ok(())
}
/// Keys skipped without signing.
fn walk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = r.range(1, if c.thorough { 5 } else { 4 });
    let key = r.trits(243);
    let p = PRNG::init(sl(&key));
    let total = 1usize << height;
    let mut b = PrivateKeyMTTraversal::gen(&p, sl(&[]), height);
    let mut a = PrivateKeyMTComplete::gen(&p, sl(&[]), height);
    let pk = msspk_v(b.public_key());
    ck!(pk == msspk_v(a.public_key()), "the tree implementations have different public keys");
    let mut seen = HashMap::new();
    let picks: Vec<usize> = (0..3).map(|_| r.below(total)).collect();
    for skn in 0..total {
        if picks.contains(&skn) {
            let h = hash(&mut r);
            let mut t = vec![0u8; mss::sig_size(height)];
            let mut s = t.clone();
            b.sign(sl(&h), slm(&mut t));
            a.sign(sl(&h), slm(&mut s));
            ck!(s == t, "signatures of key {} of {} differ", skn, total);
            one_sig(c, &t, &h, height, skn, &pk, &mut seen)?;
            c.seen_b(&t[..400]);
        }
        ck!(b.next() == (skn + 1 < total), "advance at {}", skn);
        ck!(a.next() == (skn + 1 < total), "advance at {}", skn);
    }
    Ok(())
}
/// An exhausted key yields nothing that verifies, for any hash.
fn exhausted(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = r.range(0, 2);
    let key = r.trits(243);
    let p = PRNG::init(sl(&key));
    let total = 1usize << height;
    macro_rules! kind {
        ($t:ty) => {{
            let mut a = <$t>::gen(&p, sl(&[1, 2]), height);
            let pk = msspk_v(a.public_key());
            let h = hash(&mut r);
            let mut old = vec![0u8; mss::sig_size(height)];
            for i in 0..total {
                a.sign(sl(&h), slm(&mut old));
                ck!(a.next() == (i + 1 < total), "advance at {} of {}", i, total);
            }
            for _ in 0..r.range(0, 3) {
                ck!(!a.next(), "an exhausted key of height {} advances", height);
            }
            ck!(a.skn_left() == 0, "an exhausted key has {} keys left", a.skn_left());
            ck!(msspk_v(a.public_key()) == pk, "public key changed after exhaustion");
            let h = hash(&mut r);
            let mut s = vec![0u8; mss::sig_size(height)];
            let out = guarded(|| a.sign(sl(&h), slm(&mut s)));
            let n = s.len();
            if out.is_ok() || s[18..].iter().any(|t| *t != 0) {
                ck!(!mss::verify(sl(&pk), sl(&h), sl(&s[..n])), "an exhausted key of height {} yields a valid signature", height);
                for k in 0..total {
                    let mut t = s.clone();
                    t[..18].copy_from_slice(&mss_skn(height, k));
                    ck!(!mss::verify(sl(&pk), sl(&h), sl(&t)), "an exhausted key of height {} yields a valid signature of key {}", height, k);
                }
            }
            // a buffer that holds the last signature of the same hash: signing must fail visibly
            let out = guarded(|| a.sign(sl(&h), slm(&mut old)));
            ck!(out.is_err() || !mss::verify(sl(&pk), sl(&h), sl(&old)), "an exhausted key of height {} signs without failure and leaves a valid signature", height);
            ck!(msspk_v(a.public_key()) == pk, "public key changed by signing with an exhausted key");
            c.ev("exhausted keys");
            c.seen_b(&pk);
        }};
    }
    kind!(PrivateKeyMTComplete);
    kind!(PrivateKeyMTTraversal);
    Ok(())
}
/// A stand-in for a Merkle tree of any height (the trait is public): it stands at a chosen key number
/// with a chosen path and calls no leaf, so that the private key can be observed at any of its numbers.
#[derive(Clone)]
struct Fake {
    height: usize,
    skn: usize,
    nodes: Vec<Trits>,
    root: Trits,
}
#[derive(Clone, Default)]
struct FakeSpec {
    skn: usize,
    nodes: Vec<Vec<u8>>,
    root: Vec<u8>,
    ask: Vec<usize>,
}
thread_local! {
    static SPEC: std::cell::RefCell<FakeSpec> = std::cell::RefCell::new(FakeSpec::default());
    static ASKED: std::cell::RefCell<Vec<(usize, Vec<u8>)>> = const { std::cell::RefCell::new(Vec::new()) };
}
impl TraversableMerkleTree<Trits> for Fake {
    fn gen<G, M>(g: &G, _m: &M, height: Height) -> Self
    where
        G: GenLeaf<Trits>,
        M: MergeNodes<Trits>,
    {
        let sp = SPEC.with(|s| s.borrow().clone());
        let asked: Vec<(usize, Vec<u8>)> = sp.ask.iter().map(|i| (*i, tvt(&g.gen_leaf(*i)))).collect();
        ASKED.with(|a| *a.borrow_mut() = asked);
        Fake { height, skn: sp.skn, nodes: sp.nodes.iter().map(|n| tr(n)).collect(), root: tr(&sp.root) }
    }
    fn next<G, M>(&mut self, _g: &G, _m: &M) -> bool
    where
        G: GenLeaf<Trits>,
        M: MergeNodes<Trits>,
    {
        if self.skn < max_skn(self.height) {
            self.skn += 1;
        }
        self.skn < max_skn(self.height)
    }
    fn root(&self) -> &Trits {
        &self.root
    }
    fn height(&self) -> Height {
        self.height
    }
    fn skn(&self) -> Idx {
        self.skn
    }
    fn apath(&self) -> APath<Trits> {
        let mut a = APath::new(self.height);
        for n in self.nodes.iter() {
            a.push(n.clone());
        }
        a
    }
    fn store(&self) -> (Height, Idx, Vec<Trits>) {
        (self.height, self.skn, self.nodes.clone())
    }
    fn load(_height: Height, _skn: Idx, _nodes: Vec<Trits>) -> Option<Self> {
        None
    }
}
/// Key numbers of special form below 2^height.
fn number(r: &mut Rng, height: usize) -> usize {
    let total = 1usize << height;
    let p3 = [1usize, 3, 9, 13, 14, 27, 40, 41, 121, 122, 364, 365, 729, 1093, 1094, 9841, 9842, 19682, 19683, 29524, 29525, 265720, 265721, 531441, 797161, 797162];
    (match r.below(7) {
        0 => 0,
        1 => total - 1,
        2 => total - 1 - r.below(total.min(30)),
        3 => (1usize << r.below(height + 1)) - r.below(2),
        4 => (p3[r.below(p3.len())] + r.below(3)).saturating_sub(1),
        _ => r.below(total),
    }) % total
}
/// The private key of every height, at key numbers no walk could reach: the signature is the documented one,
/// claims its number, verifies, and no other number has its one-time key.
fn numbers(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = c.idx % 21;
    let key = r.trits_biased(243);
    let nn = r.tail(120);
    let nonce = r.trits_biased(nn);
    let p = PRNG::init(sl(&key));
    let total = 1usize << height;
    let mut seen: HashMap<usize, Vec<u8>> = HashMap::new();
    for k in 0..3 {
        let first = number(&mut r, height);
        let nodes: Vec<Vec<u8>> = (0..height).map(|_| r.trits(243)).collect();
        let leaf = wots_pk(&mss_leaf_sk(&key, &nonce, first));
        let root = fold(first, leaf, &nodes.concat());
        SPEC.with(|s| *s.borrow_mut() = FakeSpec { skn: first, nodes: nodes.clone(), root: root.clone(), ask: vec![] });
        let mut a = PrivateKeyT::<Fake>::gen(&p, sl(&nonce), height);
        ck!(a.height() == height && a.skn() == first && a.skn_left() == total - first, "key at number {} of height {} reports {} with {} left", first, height, a.skn(), a.skn_left());
        ck!(msspk_v(a.public_key()) == root, "public key is not the root");
        // at `first` the path fits; at the next numbers of the same key only the leaf is judged
        for step in 0..2usize {
            let skn = first + step;
            if skn == total {
                break;
            }
            let h = hash(&mut r);
            let mut s = vec![0u8; mss::sig_size(height)];
            a.sign(sl(&h), slm(&mut s));
            let mut want = mss_skn(height, skn);
            want.extend(wots_sign(&mss_leaf_sk(&key, &nonce, skn), &h));
            want.extend(nodes.concat());
            ck!(s == want, "signature of key number {} of height {} differs from the documented one: {}", skn, height, diff_at(&s, &want));
            if step == 0 {
                one_sig(c, &s, &h, height, skn, &root, &mut seen)?;
            } else {
                let leaf = wots_recover(&h, &s[18..18 + 13122]);
                ck!(seen.iter().all(|(n, l)| (*n == skn) == (*l == leaf)), "number {} of height {} shares its one-time key", skn, height);
                seen.insert(skn, leaf);
            }
            c.seen_b(&s[..400]);
            let more = a.next();
            ck!(more == (skn + 1 < total) && a.skn() == skn + 1 && a.skn_left() == total - skn - 1, "advance at {} of {}", skn, total);
        }
        let _ = k;
        c.ev("keys at chosen numbers");
    }
    Ok(())
}
/// Every step of the life of keys of every height: key number, keys left, end.
fn count(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = c.idx % 21;
    let total = 1usize << height;
    let key = r.trits(243);
    SPEC.with(|s| *s.borrow_mut() = FakeSpec { skn: 0, nodes: vec![], root: vec![0; 243], ask: vec![] });
    let mut a = PrivateKeyT::<Fake>::gen(&PRNG::init(sl(&key)), sl(&[]), height);
    for i in 0..total {
        ck!(a.skn() == i && a.skn_left() == total - i && a.height() == height, "key {} of {} reports number {} with {} left", i, total, a.skn(), a.skn_left());
        let more = a.next();
        ck!(more == (i + 1 < total), "advance from {} of {} reports {}", i, total, more);
    }
    for _ in 0..3 {
        ck!(a.skn_left() == 0 && !a.next(), "an exhausted key of height {} has {} keys left or advances", height, a.skn_left());
    }
    c.evn("advances checked", total);
    c.seen(crate::rng::mix(height as u64));
    Ok(())
}
/// Leaves of the tree as the key generates them: the documented one-time keys, all different.
fn leaves(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = 20 - c.idx % 12;
    let key = r.trits(243);
    let nn = r.tail(120);
    let nonce = r.trits_biased(nn);
    let mut ask: Vec<usize> = vec![];
    let a = number(&mut r, height);
    // numbers that coincide when some part of the number is lost
    for d in [0usize, 1, 2, 3, 9, 27, 81, 243, 729, 2187, 6561, 19683, 59049, 177147, 531441, 4, 16, 256, 1024, 4096, 32768, 65536, 131072, 262144, 524288] {
        let b = a ^ d;
        let e = a + d;
        if r.chance(1, 3) && b < 1 << height {
            ask.push(b);
        }
        if r.chance(1, 2) && e < 1 << height {
            ask.push(e);
        }
    }
    ask.push(a);
    ask.sort();
    ask.dedup();
    SPEC.with(|s| *s.borrow_mut() = FakeSpec { skn: 0, nodes: vec![], root: vec![0; 243], ask });
    let _ = PrivateKeyT::<Fake>::gen(&PRNG::init(sl(&key)), sl(&nonce), height);
    let got = ASKED.with(|a| a.borrow().clone());
    for (n, (i, l)) in got.iter().enumerate() {
        for (j, m) in got[..n].iter() {
            ck!(l != m, "leaves {} and {} of height {} are the same", j, i, height);
        }
        if n % 4 == 0 || n + 1 == got.len() {
            ck!(*l == wots_pk(&mss_leaf_sk(&key, &nonce, *i)), "leaf {} of height {} differs from the documented one", i, height);
        }
        c.seen_b(l);
    }
    c.evn("leaves compared", got.len());
    Ok(())
}
/// Other seeds and nonces give other keys; the same give the same.
fn distinct(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let height = r.range(0, 2);
    let key = r.trits(243);
    let nonce = r.trits(27);
    let pk = |k: &[u8], n: &[u8]| msspk_v(mss::PrivateKey::gen(&PRNG::init(sl(k)), sl(n), height).public_key());
    let a = pk(&key, &nonce);
    ck!(a == pk(&key, &nonce), "key generation is not deterministic");
    let mut k2 = key.clone();
    let i = r.below(243);
    k2[i] = (k2[i] + 1) % 3;
    ck!(a != pk(&k2, &nonce), "seeds differing at trit {} give the same key", i);
    let mut n2 = nonce.clone();
    let i = r.below(27);
    n2[i] = (n2[i] + 1) % 3;
    ck!(a != pk(&key, &n2), "nonces differing at trit {} give the same key", i);
    c.evn("key pairs compared", 3);
    c.seen_b(&a);
    Ok(())
}
