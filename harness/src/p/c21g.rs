//! C21, continued: the library used from within its own callbacks, callbacks that give up half-way, objects that move
//! from thread to thread.
use crate::eng::*;
use crate::msg::*;
use crate::p::c21::{run_job, warm, CHEAP};
use crate::rng::{fnv, mix, Rng};
use crate::util::*;
use iota_mam::app::channel::msg::{keyload, signed_packet, tagged_packet};
use iota_mam::app::core::MsgId;
use iota_mam::mss;
use iota_mam::mss::mt::{GenLeaf, TraversableMerkleTree};
use iota_mam::pb3::{Absorb, Trytes};
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::{TritSlice, Trits};
use iota_mam::troika::{Troika, TroikaSponge};
use iota_mam::{ntru, wots};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What happens inside a callback: nothing, other uses of the library, or a panic at one of the calls.
struct Inner {
    jobs: Vec<(usize, u64, u64)>,
    at: Cell<usize>,
    stop: Option<usize>,
    got: RefCell<Vec<(usize, u64)>>,
}
impl Inner {
    fn new(jobs: Vec<(usize, u64, u64)>, stop: Option<usize>) -> Self {
        Inner { jobs, at: Cell::new(0), stop, got: RefCell::new(vec![]) }
    }
    fn call(&self) {
        let k = self.at.get();
        self.at.set(k + 1);
        if Some(k) == self.stop {
            panic!("callback gives up");
        }
        if !self.jobs.is_empty() && (k < 24 || k % 37 == 0) {
            let i = k % self.jobs.len();
            let x = run_job(self.jobs[i]);
            self.got.borrow_mut().push((i, x));
        }
    }
}
fn h243(v: &[u8]) -> Trits {
    let mut o = Trits::zero(243);
    spongos::hash_data(sl(v), o.slice_mut());
    o
}
fn mid(id: &[u8]) -> Result<MsgId, String> {
    <MsgId as Absorb>::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(id)).map_err(|e| format!("message id: {}", e))
}
/// a walk over a tree whose leaf and merge functions call back
fn tree<T: TraversableMerkleTree<Trits>>(seed: u64, h: usize, nested: bool, inn: &Inner) -> Vec<u8> {
    let leaf = |i: usize| -> Trits {
        inn.call();
        let x = mix(seed ^ i as u64).to_le_bytes().iter().map(|b| b % 3).collect::<Vec<u8>>();
        if nested {
            // the leaf is itself the root of a tree
            let l2 = |j: usize| h243(&[x.clone(), vec![(j % 3) as u8; j + 1]].concat());
            let m2 = |a: &Trits, b: &Trits| h243(&[tvt(a), tvt(b)].concat());
            let t = T::gen(&l2, &m2, 1 + (i % 2));
            t.root().clone()
        } else {
            h243(&x)
        }
    };
    let merge = |a: &Trits, b: &Trits| -> Trits {
        inn.call();
        h243(&[tvt(a), tvt(b)].concat())
    };
    let mut o = vec![];
    let mut t = T::gen(&leaf, &merge, h);
    o.extend(tvt(t.root()));
    for i in 0..1usize << h {
        let a = t.apath();
        o.push((a.fold(&merge, &leaf.gen_leaf(i)) == *t.root()) as u8);
        if h > 0 {
            o.extend(tvt(&t.store().2[0]));
        }
        t.next(&leaf, &merge);
    }
    o
}
/// a message whose link lookup, or whose recipient lists, call back
fn message(seed: u64, kind: usize, inn: &Inner) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let id = r.trits(81);
    let m = match mid(&id) {
        Ok(m) => m,
        Err(e) => return e.into_bytes(),
    };
    let mut l = Spongos::init();
    l.absorb(sl(&r.trits(300)));
    l.commit();
    let (p, q) = (Trytes(tr(&r.trits(60))), Trytes(tr(&r.trits(90))));
    let look = |_: TritSlice| {
        inn.call();
        Some((l.clone(), ()))
    };
    let (mut s, mut t) = (Spongos::init(), Spongos::init());
    let mut o = vec![];
    match kind {
        0 => {
            let mut b = vec![0u8; tagged_packet::sizeof(20, 30)];
            tagged_packet::wrap(&m, &mut l.fork(), &p, &q, &mut s, &mut slm(&mut b));
            match tagged_packet::unwrap(look, &mut t, &mut sl(&b)) {
                Ok((x, y)) => o.extend([tvt(&x.0), tvt(&y.0)].concat()),
                Err(e) => o.extend(e.to_string().bytes()),
            }
            o.extend(b);
        }
        1 => {
            let k = mssp(1);
            let mut b = vec![0u8; signed_packet::sizeof(20, 30, &k.at[0])];
            signed_packet::wrap(&m, &mut l.fork(), &p, &q, &k.at[0], &mut s, &mut slm(&mut b));
            match signed_packet::unwrap_recover(look, &mut t, &mut sl(&b)) {
                Ok((k, x, y)) => o.extend([tvt(&x.0), tvt(&y.0), msspk_v(&k)].concat()),
                Err(e) => o.extend(e.to_string().bytes()),
            }
            o.extend(b);
        }
        _ => {
            let psks: Vec<(Trits, Trits)> = (0..3).map(|_| (tr(&r.trits(81)), tr(&r.trits(243)))).collect();
            let n = ntrup(0);
            let npk = [(n.pk.id().clone_trits(), n.pk.clone())];
            let (key, nonce) = (tr(&r.trits(243)), tr(&r.trits(81)));
            let prng = PRNG::init(sl(&r.trits(243)));
            let mut pi = psks.iter().map(|x| {
                inn.call();
                (&x.0, &x.1)
            });
            let mut ni = npk.iter().map(|x| {
                inn.call();
                (&x.0, &x.1)
            });
            let mut b = vec![0u8; keyload::sizeof(&mut psks.iter().map(|x| (&x.0, &x.1)), &mut npk.iter().map(|x| (&x.0, &x.1)))];
            keyload::wrap(sl(&id), &mut l.fork(), &nonce, &mut pi, &mut ni, &prng, &key, &mut s, &mut slm(&mut b));
            let pm: HashMap<Trits, Trits> = if seed % 2 == 0 { HashMap::new() } else { psks[1..].iter().cloned().collect() };
            let nm: HashMap<Trits, ntru::PrivateKey> = [(n.pk.id().clone_trits(), n.sk.clone())].into_iter().collect();
            if let Err(e) = keyload::unwrap(look, &pm, &nm, &mut t, &mut sl(&b)) {
                o.extend(e.to_string().bytes());
            }
            o.extend(b);
        }
    }
    o.extend(fp(&s));
    o.extend(fp(&t));
    o
}
/// a packet whose link lookup reads a packet whose link lookup ... `left` levels down
fn deep(seed: u64, left: &mut usize) -> Result<(), String> {
    let mut r = Rng::new(seed ^ *left as u64);
    let m = mid(&r.trits(81))?;
    let mut l = Spongos::init();
    l.absorb(sl(&r.trits(30)));
    l.commit();
    let (p, q) = (Trytes(tr(&r.trits(6))), Trytes(tr(&r.trits(9))));
    let mut b = vec![0u8; tagged_packet::sizeof(2, 3)];
    tagged_packet::wrap(&m, &mut l.fork(), &p, &q, &mut Spongos::init(), &mut slm(&mut b));
    if *left == 0 {
        return Ok(());
    }
    *left -= 1;
    let at = *left;
    let cell = RefCell::new(left);
    let look = |_: TritSlice| deep(seed, *cell.borrow_mut()).ok().map(|_| (l.clone(), ()));
    match tagged_packet::unwrap(look, &mut Spongos::init(), &mut sl(&b)) {
        Ok((x, y)) if x == p && y == q => Ok(()),
        Ok(_) => Err(format!("other contents at {}", at)),
        Err(e) => Err(format!("refused at {}: {}", at, e)),
    }
}
pub fn reenter(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    warm();
    let base = r.below(1000) as u64;
    let n = r.range(1, 4);
    let jobs: Vec<(usize, u64, u64)> = (0..n).map(|_| (r.below(CHEAP), base + r.below(4) as u64, base + r.below(4) as u64)).collect();
    let want: Vec<u64> = jobs.iter().map(|j| run_job(*j)).collect();
    let (seed, h) = (r.u64(), r.below(4));
    let kind = c.idx % 7;
    let name = ["complete tree", "traversal tree", "complete tree of trees", "traversal tree of trees", "tagged packet", "signed packet", "keyload"][kind];
    let op = |inn: &Inner| -> Vec<u8> {
        match kind {
            0 => tree::<mss::mtcomplete::MT<Trits>>(seed, h, false, inn),
            1 => tree::<mss::mttraversal::MT<Trits>>(seed, h, false, inn),
            2 => tree::<mss::mtcomplete::MT<Trits>>(seed, h, true, inn),
            3 => tree::<mss::mttraversal::MT<Trits>>(seed, h, true, inn),
            k => message(seed, k - 4, inn),
        }
    };
    // the operation by itself
    let plain = Inner::new(vec![], None);
    let w = op(&plain);
    let calls = plain.at.get();
    ck!(calls > 0, "HARNESS {} without callbacks", name);
    // other uses of the library within its callbacks
    let busy = Inner::new(jobs.clone(), None);
    ck!(op(&busy) == w, "{}: another result when its callbacks use the library", name);
    for (i, x) in busy.got.borrow().iter() {
        ck!(*x == want[*i], "{}: job {:?} gives another result inside a callback", name, jobs[*i]);
        c.ev("results inside callbacks compared");
    }
    // callbacks that give up, many times in a row
    if kind >= 4 {
        let inn = || Inner::new(vec![], Some(0));
        for k in 0..r.range(40, 140) {
            ck!(catch_unwind(AssertUnwindSafe(|| op(&inn()))).is_err(), "{}: attempt {} in a row does not reach its callback", name, k);
        }
        let _ = guarded(|| ());
        ck!(op(&Inner::new(vec![], None)) == w, "{}: another result after many attempts that were given up", name);
        c.ev("rows of attempts given up");
        // lookups within lookups
        let d = r.range(20, 90);
        let mut left = d;
        ck!(deep(seed, &mut left) == Ok(()), "lookups {} deep: {:?} at {}", d, deep(seed, &mut { d }), left);
        c.evn("nested lookups", d);
    }
    // callbacks that give up
    for stop in [0, r.below(calls), calls - 1] {
        let inn = Inner::new(if r.chance(1, 2) { jobs.clone() } else { vec![] }, Some(stop));
        let x = catch_unwind(AssertUnwindSafe(|| op(&inn)));
        ck!(x.is_err(), "HARNESS {}: callback {} of {} was not reached", name, stop, calls);
        let _ = guarded(|| ());
        ck!(op(&Inner::new(vec![], None)) == w, "{}: another result after an attempt that was given up in callback {}", name, stop);
        let i = r.below(n);
        ck!(run_job(jobs[i]) == want[i], "job {:?} gives another result after a {} that was given up", jobs[i], name);
        c.ev("attempts given up half-way");
    }
    c.seen_b(&w);
    Ok(())
}

/// An object and its script: what it does at each step is a function of the parameter and the step.
pub enum Obj {
    Sponge(Spongos),
    Prng(PRNG),
    Mss(mss::PrivateKey),
    Wots(wots::PrivateKey, wots::PublicKey),
    Ntru(ntru::PrivateKey, ntru::PublicKey),
    Poly(Poly),
    Troika(Troika),
    Tsponge(TroikaSponge),
    Tree(mss::mttraversal::MT<Trits>),
    Full(mss::mtcomplete::MT<Trits>),
    Own(Trits),
}
pub const OBJS: usize = 11;
const STEPS: usize = 6;
/// One owner at a time: objects are moved, never shared.
struct Mv(Obj);
unsafe impl Send for Mv {}

pub fn make(kind: usize, p: u64) -> Obj {
    let mut r = Rng::new(mix(p) ^ kind as u64);
    let key = r.trits(243);
    let g = PRNG::init(sl(&key));
    let leaf = move |i: usize| h243(&Rng::new(p ^ i as u64).trits(50));
    let merge = |a: &Trits, b: &Trits| h243(&[tvt(a), tvt(b)].concat());
    match kind {
        0 => Obj::Sponge(lib_state(&gen_pre(&mut r))),
        1 => Obj::Prng(g),
        2 => Obj::Mss(mss::PrivateKey::gen(&g, sl(&r.trits(27)), 1)),
        3 => {
            let sk = wots::PrivateKey::gen(&g, &[sl(&r.trits(30))]);
            let pk = wots::PublicKey::gen(&sk);
            Obj::Wots(sk, pk)
        }
        4 => {
            let (a, b) = ntru::gen(&g, sl(&r.trits(27)));
            Obj::Ntru(a, b)
        }
        5 => {
            let mut x = Poly::new();
            x.small_from_trits(sl(&r.trits(1024)));
            Obj::Poly(x)
        }
        6 => {
            let mut t = Troika::default();
            for (i, x) in r.trits(729).iter().enumerate() {
                t.set1(i, *x);
            }
            Obj::Troika(t)
        }
        7 => Obj::Tsponge(TroikaSponge::default()),
        8 => Obj::Tree(TraversableMerkleTree::gen(&leaf, &merge, 4)),
        9 => Obj::Full(TraversableMerkleTree::gen(&leaf, &merge, 4)),
        _ => {
            let n = 1 + r.below(400);
            Obj::Own(tr(&r.trits(n)))
        }
    }
}
pub fn step(o: &mut Obj, p: u64, k: usize) -> Vec<u8> {
    let mut r = Rng::new(mix(p ^ 77) ^ k as u64);
    let leaf = move |i: usize| h243(&Rng::new(p ^ i as u64).trits(50));
    let merge = |a: &Trits, b: &Trits| h243(&[tvt(a), tvt(b)].concat());
    let mut out = vec![];
    match o {
        Obj::Sponge(s) => {
            let n = 1 + r.below(700);
            match r.below(4) {
                0 => s.absorb(sl(&r.trits(n))),
                1 => out = tvt(&s.squeeze_trits(n)),
                2 => s.commit(),
                _ => out = tvt(&s.encr_trits(&tr(&r.trits(n)))),
            }
            out.extend(fp(s));
        }
        Obj::Prng(g) => out = tvt(&g.gen_trits(&tr(&r.trits(81)), 500)),
        Obj::Mss(sk) => {
            let h = r.trits(234);
            if sk.skn_left() > 0 {
                let mut s = vec![0u8; mss::sig_size(1)];
                sk.sign(sl(&h), slm(&mut s));
                out.push(sk.public_key().verify(sl(&h), sl(&s)) as u8);
                out.extend(s);
                if k % 2 == 1 {
                    out.push(sk.next() as u8);
                }
            }
            out.extend(msspk_v(sk.public_key()));
            out.push(sk.skn() as u8);
        }
        Obj::Wots(sk, pk) => {
            let h = r.trits(234);
            let mut s = vec![0u8; wots::SIG_SIZE];
            sk.sign(sl(&h), slm(&mut s));
            out.push(pk.verify(sl(&h), sl(&s)) as u8);
            out.extend(s);
        }
        Obj::Ntru(sk, pk) => {
            let mut y = vec![0u8; ntru::EKEY_SIZE];
            pk.encr(&PRNG::init(sl(&r.trits(243))), sl(&r.trits(81)), sl(&r.trits(243)), slm(&mut y));
            let mut d = vec![0u8; 243];
            out.push(sk.decr(sl(&y), slm(&mut d)) as u8);
            out.extend(d);
            out.extend(y);
        }
        Obj::Poly(x) => {
            match k % 3 {
                0 => x.ntt(),
                1 => {
                    let y = *x;
                    x.conv(&y);
                }
                _ => x.intt(),
            }
            let mut v = vec![0u8; 9216];
            x.to_trits(slm(&mut v));
            out = v;
        }
        Obj::Troika(t) => {
            t.permutation();
            out = (0..729).map(|i| t.get1(i)).collect();
        }
        Obj::Tsponge(t) => {
            if k < 3 {
                t.absorb(&r.trits(10 + 100 * k));
            } else {
                if k == 3 {
                    t.finalize();
                }
                out = vec![0u8; 50 + 100 * k];
                t.squeeze(&mut out);
            }
        }
        Obj::Tree(t) => {
            out = tvt(t.root());
            out.extend(t.store().2.iter().flat_map(|x| tvt(x)));
            out.push(t.next(&leaf, &merge) as u8);
        }
        Obj::Full(t) => {
            out = tvt(&t.apath().fold(&merge, &leaf(t.skn())));
            out.push(t.next(&leaf, &merge) as u8);
        }
        Obj::Own(t) => {
            out.push(t.slice_mut().inc() as u8);
            let v = t.clone();
            *t = v;
            out.extend(tvt(t));
            out.extend(t.slice().to_str().bytes());
        }
    }
    out
}
/// Objects made in one thread and used in others, one step each.
pub fn migrate(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % OBJS;
    let p = r.u64();
    let mut o = make(kind, p);
    let want: Vec<u64> = (0..STEPS).map(|k| fnv(&step(&mut o, p, k))).collect();
    let q = if r.chance(1, 2) { p ^ 1 } else { p };
    let mut cur = {
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || guarded(|| Mv(make(kind, p))));
        h.map_err(|e| format!("HARNESS spawn: {}", e))?.join().unwrap_or(Err("thread ended".into()))?
    };
    let here = r.below(STEPS);
    for k in 0..STEPS {
        if k == here {
            ck!(fnv(&step(&mut cur.0, p, k)) == want[k], "step {} of an object of kind {} made in another thread gives another result", k, kind);
        } else {
            let before = r.chance(1, 2);
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                guarded(move || {
                    let m: Mv = cur;
                    let mut m = m;
                    if before {
                        // a similar object used in that thread first
                        let mut x = make(kind, q);
                        step(&mut x, q, k);
                    }
                    let f = fnv(&step(&mut m.0, p, k));
                    (m, f)
                })
            });
            let (m, f) = h.map_err(|e| format!("HARNESS spawn: {}", e))?.join().unwrap_or(Err("thread ended".into()))?;
            ck!(f == want[k], "step {} of an object of kind {} that moves between threads gives another result", k, kind);
            cur = m;
        }
        c.ev("steps of migrating objects compared");
        c.seen(want[k]);
    }
    Ok(())
}
