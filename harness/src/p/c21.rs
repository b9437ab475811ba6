//! C21 no hidden shared state: a pool of jobs (each a function of its parameters, using only its
//! own objects) run alone, repeated, shuffled, interleaved step by step and concurrently.
use crate::eng::*;
use crate::msg::*;
use crate::rng::{fnv, mix, Rng};
use crate::util::*;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::{TritSlice, Trits};
use iota_mam::troika::Troika;
use iota_mam::wots;
use std::sync::{Barrier, Mutex};

pub fn groups() -> Vec<Group> {
    vec![g("order", 60, order), g("interleave", 90, interleave), g("threads", 60, threads), g("messages", 30, messages), g("pieces", 60, pieces), g("calls", 120, crate::p::c21f::calls), g("many", 34, crate::p::c21f::many), g("cold", 120, crate::p::c21f::cold), g("receive", 60, crate::p::c21f::receive), g("reenter", 70, crate::p::c21g::reenter), g("migrate", 110, crate::p::c21g::migrate)]
}
/// Kind of work and two small parameters: jobs differing in one of them share most of their inputs.
type Job = (usize, u64, u64);
pub const CHEAP: usize = 9;
const KINDS_N: usize = 13;
fn data(tag: u64, p: u64, n: usize) -> Vec<u8> {
    Rng::new(mix(tag) ^ mix(p).rotate_left(5)).trits(n)
}
/// Inputs of two jobs with nearby parameters differ in a single place.
fn near(tag: u64, p: u64, n: usize) -> Vec<u8> {
    let mut v = data(tag, p / 3, n);
    if n > 0 && p % 3 != 0 {
        let i = if p % 3 == 1 { n - 1 } else { n / 2 };
        v[i] = (v[i] + 1) % 3;
    }
    v
}
pub fn run_job(j: Job) -> u64 {
    let (k, a, b) = j;
    let mut out: Vec<u8> = vec![];
    match k {
        0 => {
            // sponge program
            let mut s = Spongos::init();
            s.absorb(sl(&near(1, a, 300)));
            if b % 2 == 0 {
                s.commit();
            }
            out.extend(tvt(&s.encr_trits(&tr(&near(2, b, 500)))));
            let mut f = s.fork();
            out.extend(tvt(&f.squeeze_trits(243)));
            out.extend(tvt(&s.decr_trits(&tr(&near(3, b, 700)))));
            s.commit();
            out.extend(tvt(&s.to_inner_trits()));
            let mut t = Spongos::from_inner_trits(&s.to_inner_trits());
            t.join(&mut f);
            out.extend(fp(&t));
            out.push(t.squeeze_eq(sl(&near(4, a, 81))) as u8);
        }
        1 => {
            let p = PRNG::init(sl(&near(5, a, 243)));
            let n = near(6, b, 81);
            let mut v = vec![0u8; 900];
            p.gens(&[sl(&n), sl(&n)], slm(&mut v));
            out.extend(v);
            out.extend(tvt(&p.clone().gen_trits(&tr(&n), 300)));
        }
        2 => {
            let x = near(7, a, 600);
            let mut v = vec![0u8; 243];
            spongos::hash_data(sl(&x), slm(&mut v));
            out.extend_from_slice(&v);
            spongos::hash_datas(&[sl(&x[..300]), sl(&near(7, b, 243))], slm(&mut v));
            out.extend(v);
        }
        3 => {
            let mut t = Troika::default();
            for (i, x) in near(8, a, 729).iter().enumerate() {
                t.set1(i, *x);
            }
            for _ in 0..1 + b % 3 {
                t.permutation();
            }
            for i in 0..729 {
                out.push(t.get1(i));
            }
        }
        4 => {
            // polynomials
            let (mut p, mut q) = (Poly::new(), Poly::new());
            let f = |x: u64| -> Vec<u8> {
                let mut r = Rng::new(x / 2);
                let mut c: Vec<i64> = (0..1024).map(|_| r.irange(-6144, 6144)).collect();
                if x % 2 == 1 {
                    c[1023] = -c[1023];
                }
                crate::rmodel::ptrits(&c)
            };
            out.push(p.from_trits(sl(&f(a))) as u8);
            out.push(q.from_trits(sl(&f(b + 100))) as u8);
            p.ntt();
            q.ntt();
            p.conv(&q);
            if q.has_inv() {
                q.inv();
                q.conv(&p);
            }
            p.intt();
            let mut v = vec![0u8; 9216];
            p.to_trits(slm(&mut v));
            out.extend_from_slice(&v);
            q.to_trits(slm(&mut v));
            out.extend(v);
        }
        5 => {
            let p = PRNG::init(sl(&near(9, a, 243)));
            let (sk, pk) = ntru::gen(&p, sl(&near(10, b, 27)));
            out.extend(ntrupk_v(&pk));
            let mut y = vec![0u8; ntru::EKEY_SIZE];
            let k = near(11, a + b, 243);
            pk.encr(&p, sl(&near(10, a, 81)), sl(&k), slm(&mut y));
            let mut d = vec![0u8; 243];
            out.push(sk.decr(sl(&y), slm(&mut d)) as u8);
            out.extend(d);
            out.extend(y);
        }
        6 => {
            // the shared keys of the pool, in two sponge states
            let n = ntrup(a as usize % NNTRU);
            let mut s = lib_state(&vec![POp::Absorb(near(12, b, 243))]);
            let mut t = s.fork();
            let mut y = vec![0u8; ntru::EKEY_SIZE];
            n.pk.encr_with_s(&mut s, &PRNG::init(sl(&near(9, b, 243))), sl(&near(10, b, 81)), sl(&near(13, b, 243)), slm(&mut y));
            let mut d = vec![0u8; 243];
            out.push(n.sk.decr_with_s(&mut t, sl(&y), slm(&mut d)) as u8);
            out.extend(d);
            out.extend(fp(&s));
            out.extend(fp(&t));
            let o = ntrup((a as usize + 1) % NNTRU);
            out.push(o.sk.decr_with_s(&mut t, sl(&y), slm(&mut vec![0u8; 243])) as u8);
        }
        7 => {
            // conversions
            let t = tr(&near(14, a, 3 * (20 + b as usize % 7)));
            let s = t.to_str();
            out.extend(s.as_bytes());
            out.extend(Trits::from_str(&s).map(|x| tvt(&x)).unwrap_or_default());
            out.extend(tvt(&Trits::cycle_str(100 + b as usize, &s)));
            let mut i = near(15, b, 30);
            out.push(slm(&mut i).inc() as u8);
            out.extend(i);
            for k in 0..6 {
                out.extend(t.slice().drop(k).get9().to_le_bytes());
                out.extend(t.slice().drop(k).get18().to_le_bytes());
            }
        }
        8 => {
            let id = near(16, a, 81);
            let m = Body::Tagged { id: id.clone(), public: near(17, b, 90), masked: near(18, a, 120) };
            unit(&mut out, &m, near(19, b, 243), Want::Tagged, id);
        }
        9 => {
            let p = PRNG::init(sl(&near(9, a, 243)));
            let n = near(20, b, 81);
            let ss: Vec<TritSlice> = vec![sl(&n)];
            let sk = wots::PrivateKey::gen(&p, &ss);
            let pk = wots::PublicKey::gen(&sk);
            let h = near(21, a, 234);
            let mut sig = vec![0u8; wots::SIG_SIZE];
            sk.sign(sl(&h), slm(&mut sig));
            out.push(pk.verify(sl(&h), sl(&sig)) as u8);
            out.push(pk.verify(sl(&near(21, a + 1, 234)), sl(&sig)) as u8);
            out.extend(sig);
        }
        10 => {
            let p = PRNG::init(sl(&near(9, a, 243)));
            let mut sk = mss::PrivateKey::gen(&p, sl(&near(20, b, 81)), 1);
            out.extend(msspk_v(sk.public_key()));
            let h = near(21, b, 234);
            let n = sk.skn();
            out.extend((n as u64).to_le_bytes());
            let mut sig = vec![0u8; mss::sig_size(1)];
            sk.sign(sl(&h), slm(&mut sig));
            out.push(sk.public_key().verify(sl(&h), sl(&sig)) as u8);
            out.extend_from_slice(&sig);
            out.push(sk.next() as u8);
            sk.sign(sl(&h), slm(&mut sig));
            out.extend(sig);
        }
        11 => {
            let (i, n) = (a as usize % 6, b as usize);
            let m = Body::Signed { id: near(16, b, 81), public: near(17, a, 30), masked: near(18, b, 60), k: (i, n % mssp(i).at.len()) };
            unit(&mut out, &m, near(19, a, 243), Want::SignedVerify { pk: mssp(i).pk.clone() }, near(16, b, 81));
        }
        _ => {
            let n = a as usize % NNTRU;
            let m = Body::Keyload {
                id: near(16, a, 81),
                nonce: near(22, b, 81),
                psks: vec![(near(23, b, 81), near(24, a, 243))],
                ntrus: vec![n],
                prng: near(9, b, 243),
                key: near(25, a, 243),
            };
            let w = if b % 2 == 0 {
                Want::Keyload { psks: vec![], ntrus: vec![(ntrup(n).id(), n)] }
            } else {
                Want::Keyload { psks: vec![(near(23, b, 81), near(24, a, 243))], ntrus: vec![] }
            };
            unit(&mut out, &m, near(19, b, 243), w, near(16, a, 81));
        }
    }
    fnv(&out) ^ (out.len() as u64) << 48
}
/// wrap and unwrap a message
fn unit(out: &mut Vec<u8>, m: &Body, link: Vec<u8>, want: Want, id: Vec<u8>) {
    let mut l = Spongos::init();
    l.absorb(sl(&link));
    l.commit();
    let mut s = Spongos::init();
    match lib_wrap(m, &mut s, &mut l.fork(), (2, 2), 1) {
        Ok(v) => {
            let mut t = Spongos::init();
            let g = lib_unwrap(&Rx { want, id: Some(id) }, &mut t, &l, sl(&v));
            match g.res {
                Ok(c) => c.iter().for_each(|x| out.extend(x)),
                Err(e) => out.extend(e.as_bytes()),
            }
            out.extend(fp(&t));
            out.extend(v);
        }
        Err(e) => out.extend(e.as_bytes()),
    }
    out.extend(fp(&s));
}
pub fn warm() {
    for i in 0..6 {
        mssp(i);
        ntrup(i);
    }
}
fn jobs(r: &mut Rng, n: usize, heavy: usize) -> Vec<Job> {
    let base = r.below(1000) as u64;
    (0..n)
        .map(|i| {
            let k = if i < heavy { CHEAP + r.below(KINDS_N - CHEAP) } else { r.below(CHEAP) };
            (k, base + r.below(4) as u64, base + r.below(4) as u64)
        })
        .collect()
}
/// each job on a thread of its own, one after the other
fn alone(js: &[Job]) -> Result<Vec<u64>, String> {
    let mut v = vec![];
    for j in js {
        let j = *j;
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || guarded(|| run_job(j)));
        let h = h.map_err(|e| format!("HARNESS spawn: {}", e))?;
        v.push(h.join().unwrap_or(Err("thread ended".into()))?);
    }
    Ok(v)
}
fn order(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    warm();
    let js = jobs(&mut r, 24, 4);
    let want = alone(&js)?;
    for round in 0..3 {
        let mut o: Vec<usize> = (0..js.len()).collect();
        match round {
            0 => {}
            1 => o.reverse(),
            _ => r.shuffle(&mut o),
        }
        for i in o {
            let x = run_job(js[i]);
            ck!(x == want[i], "job {:?} gives another result after other jobs than alone", js[i]);
            c.ev("results compared across orders");
            if r.chance(1, 4) {
                ck!(run_job(js[i]) == want[i], "job {:?} gives another result when repeated", js[i]);
                c.ev("repetitions compared");
            }
        }
    }
    // the same parameters after everything else: nothing was remembered
    for w in want {
        c.seen(w);
        c.dig(&w.to_le_bytes());
    }
    Ok(())
}
/// Concurrent execution of the same and of similar jobs on separate objects.
fn threads(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // the first case of the process starts without any table or key in memory
    if c.idx != 0 {
        warm();
    }
    let nt = r.range(2, 8);
    let heavy = if r.chance(1, 2) { 3 } else { 0 };
    let js = jobs(&mut r, 14, heavy);
    let bar = Barrier::new(nt);
    let log: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let same = r.chance(1, 2);
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (js, bar, log, err, seeds) = (&js, &bar, &log, &err, &seeds);
            let b = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let mut r = Rng::new(seeds[t]);
                let mut o: Vec<usize> = (0..js.len()).collect();
                if !same {
                    r.shuffle(&mut o);
                }
                bar.wait();
                for i in o {
                    if r.chance(1, 6) {
                        std::thread::yield_now();
                    }
                    match guarded(|| run_job(js[i])) {
                        Ok(x) => log.lock().unwrap_or_else(|e| e.into_inner()).push((i, x)),
                        Err(e) => *err.lock().unwrap_or_else(|e| e.into_inner()) = Some(e),
                    }
                }
            });
            if b.is_err() {
                // cannot start: the others would wait forever
                eprintln!("HARNESS: cannot start a thread");
                std::process::exit(2);
            }
        }
    });
    if let Some(e) = err.into_inner().unwrap_or_else(|e| e.into_inner()) {
        return Err(format!("concurrent job: {}", e));
    }
    let want = alone(&js)?;
    let log = log.into_inner().unwrap_or_else(|e| e.into_inner());
    let mut switches = 0;
    for (k, (i, x)) in log.iter().enumerate() {
        ck!(*x == want[*i], "job {:?} gives another result on {} concurrent threads than alone", js[*i], nt);
        switches += (k > 0 && log[k - 1].0 != *i) as usize;
        c.ev("concurrent results compared");
    }
    // the order in which jobs of different threads completed is the interleaving seen
    let h = log.iter().fold(0u64, |h, (i, _)| mix(h ^ *i as u64));
    c.evn("completion order changes", switches);
    c.seen(h);
    Ok(())
}
/// Two or more objects of the same kind driven step by step in turn.
fn interleave(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // scripts of sponge operations
    let n = r.range(2, 5);
    let mut scripts = vec![];
    for _ in 0..n {
        let mut v: Pre = vec![];
        for _ in 0..r.range(2, 7) {
            let k = r.size(600);
            v.push(match r.below(4) {
                0 => POp::Squeeze(k),
                1 => POp::Encr(r.trits(k)),
                2 => POp::Commit,
                _ => POp::Absorb(r.trits(k)),
            });
        }
        scripts.push(v);
    }
    let step = |s: &mut Spongos, o: &POp| -> Vec<u8> {
        match o {
            POp::Absorb(v) => {
                s.absorb(sl(v));
                vec![]
            }
            POp::Squeeze(n) => tvt(&s.squeeze_trits(*n)),
            POp::Encr(v) => tvt(&s.encr_trits(&tr(v))),
            POp::Commit => {
                s.commit();
                vec![]
            }
        }
    };
    let mut want = vec![];
    for v in &scripts {
        let mut s = Spongos::init();
        let mut o = vec![];
        for x in v {
            o.push(step(&mut s, x));
        }
        o.push(fp(&s));
        want.push(o);
    }
    let mut objs: Vec<(Spongos, usize)> = (0..n).map(|_| (Spongos::init(), 0)).collect();
    while objs.iter().enumerate().any(|(i, o)| o.1 < scripts[i].len()) {
        let i = r.below(n);
        let k = objs[i].1;
        if k < scripts[i].len() {
            let got = step(&mut objs[i].0, &scripts[i][k]);
            ck!(got == want[i][k], "operation {} of a sponge interleaved with {} others gives another result", k, n - 1);
            objs[i].1 += 1;
            c.ev("interleaved steps compared");
        }
        if r.chance(1, 5) {
            run_job((r.below(CHEAP), r.below(9) as u64, r.below(9) as u64));
        }
        if r.chance(1, 6) {
            // dropping and cloning objects in between
            let j = r.below(n);
            let cl = objs[j].0.clone();
            objs[j].0 = cl;
        }
    }
    for i in 0..n {
        ck!(Some(&fp(&objs[i].0)) == want[i].last(), "a sponge interleaved with others ends in another state");
    }
    c.seen_b(&want.concat().concat());
    // the same for MSS keys: two keys advanced in turn
    if c.idx % 5 == 0 {
        let key = r.trits(243);
        let p = PRNG::init(sl(&key));
        let (na, mut nb) = (r.trits(27), r.trits(27));
        if r.chance(1, 2) {
            nb = na.clone();
            nb[26] = (nb[26] + 1) % 3;
        }
        let h = r.trits(234);
        let life = |n: &[u8]| {
            let mut k = mss::PrivateKey::gen(&p, sl(n), 1);
            let mut o = vec![msspk_v(k.public_key())];
            for _ in 0..2 {
                let mut s = vec![0u8; mss::sig_size(1)];
                k.sign(sl(&h), slm(&mut s));
                o.push(s);
                k.next();
            }
            o
        };
        let (wa, wb) = (life(&na), life(&nb));
        let mut a = mss::PrivateKey::gen(&p, sl(&na), 1);
        let mut b = mss::PrivateKey::gen(&p, sl(&nb), 1);
        ck!(msspk_v(a.public_key()) == wa[0] && msspk_v(b.public_key()) == wb[0], "public keys of two MSS keys generated together differ");
        for t in 0..2 {
            let mut s = vec![0u8; mss::sig_size(1)];
            a.sign(sl(&h), slm(&mut s));
            ck!(s == wa[1 + t], "signature {} of an MSS key used along with another differs", t);
            b.sign(sl(&h), slm(&mut s));
            ck!(s == wb[1 + t], "signature {} of an MSS key used along with another differs", t);
            a.next();
            b.next();
            c.evn("signatures of interleaved keys", 2);
        }
    }
    Ok(())
}
/// Messages prepared and read in turn by several threads, each with its own sponge states.
fn messages(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    warm();
    let n = r.range(3, 6);
    let ms: Vec<(Body, Rx, u64)> = (0..n)
        .map(|i| {
            let k = [1usize, 3, 4, 5, 6, 7, 5, 3][(c.idx + i) % 8];
            let b = gen_body(&mut r, k);
            let x = honest(&mut r, &b);
            (b, x, r.u64())
        })
        .collect();
    let go = |m: &(Body, Rx, u64)| -> u64 {
        let pre = gen_pre(&mut Rng::new(m.2));
        let link = lib_state(&gen_pre(&mut Rng::new(m.2 ^ 1)));
        let mut s = lib_state(&pre);
        let mut o = vec![];
        match lib_wrap(&m.0, &mut s, &mut link.fork(), (0, 0), 0) {
            Err(e) => o.extend(e.as_bytes()),
            Ok(v) => {
                let mut t = lib_state(&pre);
                let g = lib_unwrap(&m.1, &mut t, &link, sl(&v));
                match g.res {
                    Ok(c) => o.extend(c.concat()),
                    Err(e) => o.extend(e.as_bytes()),
                }
                o.extend(fp(&t));
                o.extend(v);
            }
        }
        o.extend(fp(&s));
        fnv(&o)
    };
    let want: Vec<u64> = ms.iter().map(go).collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for (i, m) in ms.iter().enumerate() {
            for _ in 0..2 {
                let (want, bad, go) = (&want, &bad, &go);
                let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    let e = match guarded(|| go(m)) {
                        Ok(x) if x == want[i] => return,
                        Ok(_) => format!("{}: wrapping and unwrapping concurrently gives another result", describe(&m.0)),
                        Err(e) => e,
                    };
                    *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(e);
                });
            }
        }
    });
    if let Some(e) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        return Err(e);
    }
    for (i, m) in ms.iter().enumerate() {
        ck!(go(m) == want[i], "{}: wrapping and unwrapping again gives another result", describe(&m.0));
        c.seen(want[i]);
    }
    c.evn("messages processed concurrently", 2 * n);
    Ok(())
}
/// Threads working on disjoint pieces of one buffer.
fn pieces(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let nt = r.range(2, 6);
    let sizes: Vec<usize> = (0..nt).map(|_| r.range(1, 900)).collect();
    let total: usize = sizes.iter().sum();
    let base = r.trits(total);
    let work = |i: usize, v: &mut [u8]| {
        let mut s = Spongos::init();
        s.absorb(sl(&data(40, i as u64, 100)));
        let mut y = slm(v);
        for _ in 0..3 {
            s.encr(y.as_const(), y);
        }
        y.inc();
        if y.size() >= 9 {
            y.put9(1234);
        }
        y = y.drop(1);
        y.set_zero_if(i)
    };
    let mut want = base.clone();
    let mut at = 0;
    for (i, n) in sizes.iter().enumerate() {
        work(i, &mut want[at..at + n]);
        at += n;
    }
    let mut got = base.clone();
    let bar = Barrier::new(nt);
    std::thread::scope(|sc| {
        let mut rest: &mut [u8] = &mut got;
        for (i, n) in sizes.iter().enumerate() {
            let (a, z) = std::mem::take(&mut rest).split_at_mut(*n);
            rest = z;
            let (bar, work) = (&bar, &work);
            sc.spawn(move || {
                bar.wait();
                let _ = guarded(|| work(i, a));
            });
        }
    });
    ck!(got == want, "threads on disjoint pieces of a buffer: {}", diff_at(&got, &want));
    c.evn("pieces processed concurrently", nt);
    c.seen_b(&got);
    Ok(())
}
trait SetZeroIf {
    fn set_zero_if(self, i: usize);
}
impl SetZeroIf for iota_mam::trits::TritSliceMut<'_> {
    fn set_zero_if(mut self, i: usize) {
        if i % 2 == 0 {
            self.set_zero();
        }
    }
}
