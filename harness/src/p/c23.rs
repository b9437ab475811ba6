//! C23 memory: nothing is retained, objects stay as small as their contents, temporary memory is
//! bounded by the operands. Oracle: the counting allocator of the engine, which sees every allocation
//! of the thread.
use crate::eng::*;
use crate::msg::*;
use crate::p::c21f::FAMS;
use crate::p::c21g::{make, step, OBJS};
use crate::p::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::mss::{self, mtcomplete, mttraversal, PrivateKeyT};
use iota_mam::mss::mt::TraversableMerkleTree;
use iota_mam::ntru;
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::Trits;
use iota_mam::wots;

pub fn groups() -> Vec<Group> {
    vec![
        g("repeat", 420, repeat),
        g("fresh", 96, fresh),
        g("messages", 64, messages),
        g("objects", 44, objects),
        g("wear", 33, wear),
        g("lives", 24, lives),
        g("footprint", 60, footprint),
        g("temporary", 90, temporary),
    ]
}
/// Every stage held more than the one before.
fn grows(at: &[isize]) -> bool {
    at.windows(2).all(|w| w[1] > w[0])
}
fn shrinks(at: &[isize]) -> bool {
    at.windows(2).all(|w| w[1] < w[0])
}

/// Workloads that use no other threads and do not take long.
fn list() -> Vec<(&'static str, Group)> {
    let skip = ["marathon", "huge", "long", "large", "tall", "count", "exhaustive", "bulk", "pairs", "herd", "growth"];
    let mods: Vec<(&'static str, Vec<Group>)> = vec![
        ("C01", c01::groups()),
        ("C02", c02::groups()),
        ("C03", c03::groups()),
        ("C04", c04::groups()),
        ("C05", c05::groups()),
        ("C06", c06::groups()),
        ("C07", c07::groups()),
        ("C08", c08::groups()),
        ("C09", c09::groups()),
        ("C10", c10::groups()),
        ("C11", c11::groups()),
        ("C12", c12::groups()),
        ("C13", c13::groups()),
        ("C14", c14::groups()),
        ("C15", c15::groups()),
        ("C16", c16::groups16()),
        ("C17", c16::groups17()),
        ("C18", c18::groups()),
        ("C20", c20::groups()),
        ("C22", c22::groups()),
    ];
    let mut v = vec![];
    for (m, gs) in mods {
        v.extend(gs.into_iter().filter(|g| !skip.contains(&g.name)).map(|g| (m, g)));
    }
    v
}
/// The same case again and again: from the third time on it must leave memory as it was.
fn repeat(c: &mut Ctx) -> R {
    let l = list();
    let n = l.len();
    let (name, gr) = &l[c.idx % n];
    let idx = c.idx / n;
    let mut at = vec![];
    let mut seen = 0;
    let (mut first, mut ended) = (0.0, false);
    for k in 0..6 {
        if k >= 2 {
            at.push(live());
        }
        if k == 5 {
            break;
        }
        let t0 = std::time::Instant::now();
        let mut t = c.twin(gr.name, idx);
        let r = guarded(|| (gr.f)(&mut t)).and_then(|x| x);
        seen = t.digest;
        drop(t);
        // what is wrong with the results is another property's affair
        if matches!(&r, Err(e) if e.contains("panic at ")) {
            ended = true;
        }
        drop(r);
        if k == 0 {
            first = t0.elapsed().as_secs_f64();
        }
        if ended || (k == 0 && first > 3.0) {
            c.ev("cases not repeated");
            return Ok(());
        }
    }
    ck!(!grows(&at), "{} {} case {}: repeating it leaves {} more bytes allocated each time", name, gr.name, idx, at[3] - at[2]);
    ck!(!shrinks(&at), "{} {} case {}: repeating it frees {} bytes more than it allocates", name, gr.name, idx, at[2] - at[3]);
    c.ev("cases repeated");
    c.ev(name);
    c.seen(seen);
    Ok(())
}
/// stages of doubling length; the memory held at the end of each
fn stages(first: usize, mut f: impl FnMut()) -> Vec<isize> {
    let mut at = Vec::with_capacity(8);
    let mut done = 0;
    for k in 0..4 {
        while done < first << k {
            f();
            done += 1;
        }
        at.push(live());
    }
    at
}
/// The same operation with ever new arguments: nothing is kept per call.
fn fresh(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let f = &FAMS[c.idx % FAMS.len()];
    let w = match f.name {
        "WOTS key and signature" | "MSS key" | "MSS recovery and verification" => 4,
        "WOTS recovery" => 12,
        "NTRU key generation" | "NTRU encapsulation" | "NTRU decapsulation" | "decapsulation with a key object" => 30,
        "polynomial product" | "public key import" => 60,
        _ => 160,
    };
    let made = f.make;
    // expensive arguments are made once and altered
    let base: Vec<Vec<Vec<u8>>> = (0..2).map(|_| made(&mut r)).collect();
    let cheap = w >= 60;
    let mut d = 0u64;
    let at = stages(w, || {
        let mut a = if cheap { made(&mut r) } else { base[r.below(2)].clone() };
        if r.chance(1, 2) {
            let i = r.below(a.len());
            if !a[i].is_empty() {
                let k = r.below(a[i].len());
                a[i][k] = (a[i][k] + 1) % 3;
            }
        }
        if let Ok(y) = guarded(|| (f.lib)(&a)) {
            d = d.wrapping_mul(31) ^ crate::rng::fnv(&y);
        }
    });
    ck!(!grows(&at), "{}: live memory grows with the number of calls, by {} bytes in the last {} calls", f.name, at[3] - at[2], w * 4);
    c.evn("calls with new arguments", w * 8);
    c.ev(f.name);
    c.seen(d);
    Ok(())
}
/// Ever new messages, genuine, altered and cut, from ever new states.
fn messages(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % 8;
    let how = c.idx / 8 % 4;
    let w = [160, 4, 4, 8, 4, 60, 30, 60][kind];
    let (mut ok, mut no) = (0usize, 0usize);
    let mut d = 0;
    let at = stages(w, || {
        let x = guarded(|| {
            let (_, rx, p0, pl, mut v) = c03::genuine(&mut r, kind)?;
            match how {
                1 => drop(mangle(&mut r, &mut v)),
                2 => {
                    let n = r.below(v.len() + 1);
                    v.truncate(n);
                }
                3 => {
                    // another state
                    let g = lib_unwrap_exact(&rx, &mut lib_state(&pl), &lib_state(&p0), &v);
                    return Ok(g.res.is_ok());
                }
                _ => {}
            }
            let g = lib_unwrap_exact(&rx, &mut lib_state(&p0), &lib_state(&pl), &v);
            d = crate::rng::fnv(&v);
            Ok::<bool, String>(g.res.is_ok())
        });
        match x {
            Ok(Ok(true)) => ok += 1,
            _ => no += 1,
        }
    });
    ck!(!grows(&at), "messages of type {} ({} accepted, {} refused): live memory grows with their number, by {} bytes in the last {}", kind, ok, no, at[3] - at[2], w * 4);
    c.evn("new messages accepted", ok);
    c.evn("new messages refused", no);
    c.seen(d);
    Ok(())
}
/// One object used many times keeps its size; copies of it give back what they took.
fn objects(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % OBJS;
    let p = r.u64();
    let w = match kind {
        2 | 3 => 3,
        4 => 40,
        8 | 9 => 1,
        _ => 150,
    };
    let start = live();
    let mut o = make(kind, p);
    let mut k = 0;
    let at = stages(w, || {
        drop(step(&mut o, p, k));
        k += 1;
    });
    ck!(!grows(&at), "an object of kind {} grows while it is used: {} bytes more after the last {} steps", kind, at[3] - at[2], 4 * w);
    drop(o);
    let _ = start;
    // objects made, used and given up
    let w = [150, 150, 2, 3, 25, 100, 100, 100, 10, 10, 150][kind];
    let at = stages(w, || {
        let q = r.u64();
        let mut o = make(kind, q);
        for k in 0..r.below(4) {
            drop(step(&mut o, q, k));
        }
    });
    ck!(!grows(&at), "objects of kind {} leave memory allocated: {} bytes more after the last {}", kind, at[3] - at[2], 4 * w);
    c.evn("objects made and dropped", w * 8);
    c.seen(p);
    Ok(())
}
/// One object and one cheap use of it, tens of thousands of times.
fn wear(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let w = if c.build == "asan" { 400 } else { 4000 };
    let x = r.trits(1 + c.idx % 7);
    let mut s = lib_state(&gen_pre(&mut r));
    let mut t = Spongos::init();
    let g0 = PRNG::init(sl(&r.trits(243)));
    let mut y = vec![0u8; 40 + x.len()];
    let mut own = tr(&r.trits(100));
    let mut tree: mtcomplete::MT<Trits> = TraversableMerkleTree::gen(&|i: usize| tr(&[i as u8 % 3; 9]), &|a: &Trits, _: &Trits| a.clone(), 3);
    let mut hand: mttraversal::MT<Trits> = TraversableMerkleTree::gen(&|i: usize| tr(&[i as u8 % 3; 9]), &|a: &Trits, _: &Trits| a.clone(), 3);
    let names = ["commits", "joins", "forks into one", "forks", "squeezed and compared", "encrypted in place", "generator requests", "fields", "containers written", "roots and paths", "restored"];
    let k = c.idx % names.len();
    let mut kept = vec![0u8; 243];
    let at = stages(w, || match k {
        0 => {
            s.absorb(sl(&x));
            s.commit();
        }
        1 => s.join(&mut t),
        2 => s.fork_at(&mut t),
        3 => t = s.fork(),
        4 => {
            s.squeeze_eq(sl(&x));
            s.squeeze(slm(&mut y));
        }
        5 => {
            s.encr_mut_trits(&mut own);
            s.decr_mut_trits(&mut own);
        }
        6 => {
            g0.gen(sl(&x), slm(&mut y));
            g0.genss(&[sl(&x)], &[slm(&mut y)]);
        }
        7 => {
            use iota_mam::pb3::{self, Absorb, Mask};
            let mut buf = vec![0u8; 60];
            let n = {
                let mut b = slm(&mut buf);
                pb3::Trytes(tr(&[x[0]; 9])).wrap_mask(&mut t, &mut b);
                pb3::Trint3(5).wrap_absorb(&mut t, &mut b);
                60 - b.size()
            };
            let mut b = sl(&buf).take(n);
            let _ = pb3::Trytes::unwrap_mask_sized(&mut s, &mut b);
            let _ = pb3::Trint18::unwrap_absorb_sized(&mut s, &mut b);
            let _ = pb3::join::unwrap_join(|_| None::<(Spongos, ())>, &mut s, &mut sl(&kept));
            let _ = pb3::mac::unwrap_mac(&mut s, &mut sl(&kept));
            let _ = pb3::mac::unwrap_mac(&mut s, &mut sl(&kept[..100]));
        }
        8 => {
            own.slice_mut().inc();
            let text = own.to_str();
            if let Some(v) = Trits::from_str(&text[..30]) {
                drop(v);
            }
            drop(Trits::from_str("9!A"));
            own = own.clone();
        }
        9 => {
            drop(tree.apath());
            drop(hand.apath());
            let st = hand.store();
            hand = mttraversal::MT::load(st.0, st.1, st.2).unwrap_or_else(|| hand.clone());
            drop(mttraversal::MT::<Trits>::load(3, 2, vec![own.clone()]));
            tree = tree.clone();
        }
        _ => {
            s.commit();
            s.to_inner(slm(&mut kept));
            s = Spongos::from_inner(sl(&kept));
            s.absorb(sl(&x));
        }
    });
    ck!(!grows(&at), "{}: live memory grows with their number, by {} bytes in the last {}", names[k], at[3] - at[2], 4 * w);
    c.evn("uses of one object", 8 * w);
    c.seen_b(&[fp(&s), y].concat());
    Ok(())
}
fn life<MT: TraversableMerkleTree<Trits> + Clone>(c: &mut Ctx, r: &mut Rng, h: usize, limit: usize, name: &str) -> R {
    let g0 = PRNG::init(sl(&r.trits(243)));
    let nonce = r.trits(40);
    let hash = r.trits(234);
    let mut sig = vec![0u8; mss::sig_size(h)];
    let l0 = live();
    let (mut sk, top) = peak(|| PrivateKeyT::<MT>::gen(&g0, sl(&nonce), h));
    ck!(top <= limit + (256 << 10), "{}: generating a key of height {} takes {} bytes", name, h, top);
    let mut most = 0;
    for k in 0..1usize << h {
        if k % 8 == 0 {
            let (_, t) = peak(|| sk.sign(sl(&hash), slm(&mut sig)));
            ck!(t <= 64 * sig.len() + (256 << 10), "{}: signing with a key of height {} takes {} bytes", name, h, t);
        }
        let x = sk.clone();
        drop(x);
        most = most.max(live() - l0);
        let (_, t) = peak(|| sk.next());
        ck!(t <= limit + (256 << 10), "{}: advancing a key of height {} takes {} bytes", name, h, t);
    }
    ck!(most <= limit as isize, "{}: a key of height {} holds {} bytes", name, h, most);
    drop(sk);
    c.ev("key lives measured");
    c.ev(if most * 3 > limit as isize { "at least a third of the limit used" } else { "less than a third of the limit used" });
    c.seen_b(&sig[..200]);
    Ok(())
}
/// What an MSS private key holds through its life.
fn lives(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let h = [0, 1, 2, 3, 4, 5][c.idx / 2 % 6];
    let node = 243 * 8 + 200;
    if c.idx % 2 == 0 {
        life::<mtcomplete::MT<Trits>>(c, &mut r, h, (2 << h) * node + (32 << 10), "complete tree")
    } else {
        life::<mttraversal::MT<Trits>>(c, &mut r, h, (h + 3) * (h + 3) * node + (32 << 10), "tree traversal")
    }
}
fn held<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let l0 = live();
    let x = f();
    let n = live() - l0;
    (x, n.max(0) as usize)
}
/// Objects hold memory according to their contents.
fn footprint(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    match c.idx % 6 {
        0 | 1 => {
            let n = if c.idx % 12 < 2 { r.range(100_000, 400_000) } else { r.size(20_000) };
            let v = r.trits(n);
            let text = c07::to_text(&v);
            let most = 16 * n + 512;
            macro_rules! own {
                ($name:expr, $e:expr) => {
                    let (x, m) = held(|| $e);
                    ck!(m <= most, "{}: {} trits in {} bytes", $name, n, m);
                    let size = x.size();
                    let (y, m) = held(|| x.clone());
                    ck!(m <= most, "clone of {}: {} trits in {} bytes", $name, n, m);
                    drop((x, y));
                    c.ev("containers measured");
                    let _ = size;
                };
            }
            own!("zero", Trits::zero(n));
            own!("from_slice", Trits::from_slice(sl(&v)));
            own!("from_str", Trits::from_str(&text).unwrap_or_else(|| Trits::zero(0)));
            own!("clone_trits", sl(&v).clone_trits());
            if n > 0 {
                own!("cycle_trits", Trits::cycle_trits(n, &tr(&v[..n.min(50)])));
            }
            // part of something long
            let k = r.below(n + 1).min(100);
            for at in [0, r.below(n - k + 1), n - k] {
                let (x, m) = held(|| sl(&v).drop(at).take(k).clone_trits());
                ck!(m <= 16 * k + 512, "copy of {} trits at {} out of {}: {} bytes", k, at, n, m);
                let (y, m) = held(|| x.clone());
                ck!(m <= 16 * k + 512, "copy of a copy of {} trits out of {}: {} bytes", k, n, m);
                let mut w = v.clone();
                let (z, m) = held(|| Trits::from_slice(slm(&mut w).drop(at).take(k).as_const()));
                ck!(m <= 16 * k + 512, "from_slice of {} trits at {} out of {}: {} bytes", k, at, n, m);
                drop((x, y, z));
            }
            // keys and identifiers cut from something long
            if n > 600 {
                let (x, m) = held(|| PRNG::init(sl(&v).drop(n - 300).take(243)));
                ck!(m <= 32 << 10, "a generator whose key was cut from {} trits holds {} bytes", n, m);
                drop(x);
                let (x, m) = held(|| Spongos::from_inner(sl(&v).drop(n - 300).take(243)));
                ck!(m <= 32 << 10, "a sponge restored from part of {} trits holds {} bytes", n, m);
                drop(x);
            }
            c.seen_b(&v);
        }
        2 => {
            let (mut s, m) = held(Spongos::init);
            ck!(m <= 32 << 10, "a new sponge holds {} bytes", m);
            let l0 = live();
            for _ in 0..20 {
                let n = r.size(5000);
                let v = r.trits(n);
                match r.below(5) {
                    0 => s.absorb(sl(&v)),
                    1 => drop(s.squeeze_trits(n)),
                    2 => drop(s.encr_trits(&tr(&v))),
                    3 => s.commit(),
                    _ => s.join(&mut Spongos::init()),
                }
                drop(v);
                let m = live() - l0;
                ck!(m <= 32 << 10, "a used sponge holds {} bytes more than a new one", m);
                let (t, m) = held(|| s.fork());
                ck!(m <= 32 << 10, "a fork holds {} bytes", m);
                let mut u = Spongos::init();
                let (_, m) = held(|| t.fork_at(&mut u));
                ck!(m <= 32 << 10, "fork_at adds {} bytes", m);
                c.ev("sponges measured");
            }
            c.seen_b(&fp(&s));
        }
        3 => {
            let k = r.trits(243);
            let (g0, m) = held(|| PRNG::init(sl(&k)));
            ck!(m <= 32 << 10, "a generator holds {} bytes", m);
            let n = r.size(3000);
            let nonce = r.trits(n);
            let (w, m) = held(|| wots::PrivateKey::gen(&g0, &[sl(&nonce)]));
            ck!(m <= 16 * wots::SK_SIZE + (8 << 10), "a one-time private key holds {} bytes", m);
            let (p, m) = held(|| wots::PublicKey::gen(&w));
            ck!(m <= 32 << 10, "a one-time public key holds {} bytes", m);
            drop((w, p));
            c.ev("generators and one-time keys measured");
            c.seen_b(&nonce);
        }
        4 => {
            let g0 = PRNG::init(sl(&r.trits(243)));
            let nonce = r.trits(30);
            let ((a, b), m) = held(|| ntru::gen(&g0, sl(&nonce)));
            ck!(m <= 512 << 10, "an NTRU key pair holds {} bytes", m);
            let t = ntrupk_v(&b);
            let (x, m) = held(|| ntru::PublicKey::from_slice(sl(&t)));
            ck!(m <= 512 << 10, "an imported public key holds {} bytes", m);
            let (y, m) = held(|| (a.clone(), b.clone()));
            ck!(m <= 512 << 10, "a copy of an NTRU key pair holds {} bytes", m);
            drop((x, y));
            c.ev("encryption keys measured");
            c.seen_b(&nonce);
        }
        _ => {
            let kind = c.idx / 6 % 8;
            let (_, rx, p0, pl, v) = c03::genuine(&mut r, kind)?;
            let mut s = lib_state(&p0);
            let l0 = lib_state(&pl);
            let (got, m) = held(|| lib_unwrap_exact(&rx, &mut s, &l0, &v));
            ck!(m <= 64 * v.len() + (64 << 10), "a message of type {} of {} trits leaves {} bytes allocated", kind, v.len(), m);
            c.ev(if got.res.is_ok() { "unwrapped messages measured" } else { "refused messages measured" });
            c.seen_b(&v);
        }
    }
    Ok(())
}
/// Temporary memory of an operation against the size of what it works on.
fn temporary(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let base = 512 << 10;
    match c.idx % 9 {
        8 => {
            use iota_mam::pb3::{self, Absorb, Mask};
            let n = 3 * r.range(10_000, 100_000);
            let v = r.trits(n);
            let x = pb3::Trytes(tr(&v));
            let size = pb3::sizeof_trytes(n / 3);
            let mut buf = vec![0u8; size];
            let mut s = Spongos::init();
            let most = base + 32 * n;
            let (_, m) = peak(|| x.wrap_mask(&mut s, &mut slm(&mut buf)));
            ck!(m <= most, "masking {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| pb3::Trytes::unwrap_mask_sized(&mut Spongos::init(), &mut sl(&buf)).is_ok());
            ck!(m <= most, "unmasking {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| x.wrap_absorb(&mut s, &mut slm(&mut buf)));
            ck!(m <= most, "absorbing {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| pb3::Trytes::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(&buf)).is_ok());
            ck!(m <= most, "decoding {} trytes takes {} bytes", n / 3, m);
            let (text, m) = peak(|| x.0.to_str());
            ck!(m <= most, "the text of {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| format!("{} {:?}", x.0, x.0).len());
            ck!(m <= 2 * most, "printing {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| Trits::from_str(&text).is_some());
            ck!(m <= most, "reading {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| Trits::from_str(&format!("{}!", text)).is_none());
            ck!(m <= most, "refusing the text of {} trytes takes {} bytes", n / 3, m);
            let (_, m) = peak(|| x.0 == x.0.clone() && Trits::cycle_trits(n, &x.0) == x.0);
            ck!(m <= most, "copying and comparing {} trits takes {} bytes", n, m);
            c.seen_b(&buf[..500]);
        }
        0 => {
            let n = r.range(20_000, 120_000);
            let v = r.trits(n);
            let mut y = vec![0u8; 243];
            let (_, m) = peak(|| spongos::hash_data(sl(&v), slm(&mut y)));
            ck!(m <= base, "hashing {} trits takes {} bytes", n, m);
            let ps: Vec<_> = v.chunks(500).map(sl).collect();
            let (_, m) = peak(|| spongos::hash_datas(&ps, slm(&mut y)));
            ck!(m <= base + n, "hashing {} trits in {} pieces takes {} bytes", n, ps.len(), m);
            c.seen_b(&y);
        }
        1 => {
            let n = r.range(20_000, 120_000);
            let v = r.trits(n);
            let mut s = Spongos::init();
            let mut y = vec![0u8; n];
            let (_, m) = peak(|| {
                s.encr(sl(&v), slm(&mut y));
                s.decr(sl(&v), slm(&mut y));
                s.squeeze(slm(&mut y));
                s.squeeze_eq(sl(&v));
                s.absorb(sl(&v));
            });
            ck!(m <= base + 16 * n, "sponge operations on {} trits take {} bytes", n, m);
            c.seen_b(&y);
        }
        2 => {
            let n = r.range(20_000, 120_000);
            let g0 = PRNG::init(sl(&r.trits(243)));
            let v = r.trits(n);
            let mut y = vec![0u8; n];
            let (_, m) = peak(|| g0.gens(&[sl(&v), sl(&v)], slm(&mut y)));
            ck!(m <= base + 16 * n, "generating {} trits takes {} bytes", n, m);
            c.seen_b(&y);
        }
        3 => {
            let g0 = PRNG::init(sl(&r.trits(243)));
            let h = r.trits(234);
            let mut s = vec![0u8; wots::SIG_SIZE];
            let (_, m) = peak(|| {
                let sk = wots::PrivateKey::gen(&g0, &[sl(&h)]);
                sk.sign(sl(&h), slm(&mut s));
                wots::PublicKey::gen(&sk).verify(sl(&h), sl(&s))
            });
            ck!(m <= base + 16 * wots::SK_SIZE, "a one-time signature takes {} bytes", m);
            c.seen_b(&s);
        }
        4 => {
            // a composed signature of any height
            let h = r.below(21);
            let n = mss::sig_size(h);
            let mut s = r.trits(n);
            let mut k = h as i64;
            for t in s[..4].iter_mut() {
                let x = k.rem_euclid(3);
                *t = x as u8;
                k = (k - if x == 2 { -1 } else { x }) / 3;
            }
            s[4..18].fill(0);
            let (hash, mut apk) = (r.trits(234), vec![0u8; 243]);
            let (x, m) = peak(|| mss::recover(slm(&mut apk), sl(&hash), sl(&s)));
            ck!(m <= base + 16 * n, "recovering a key from a signature of height {} takes {} bytes", h, m);
            c.ev(if x.is_some() { "keys recovered" } else { "signatures refused" });
            c.seen_b(&apk);
        }
        5 => {
            let g0 = PRNG::init(sl(&r.trits(243)));
            let nonce = r.trits(30);
            let mut y = vec![0u8; ntru::EKEY_SIZE];
            let ((a, b), m) = peak(|| ntru::gen(&g0, sl(&nonce)));
            ck!(m <= 4 << 20, "generating an NTRU key pair takes {} bytes", m);
            let k = r.trits(243);
            let (_, m) = peak(|| b.encr(&g0, sl(&nonce), sl(&k), slm(&mut y)));
            ck!(m <= 2 << 20, "encapsulation takes {} bytes", m);
            let mut d = vec![0u8; 243];
            let (_, m) = peak(|| a.decr(sl(&y), slm(&mut d)));
            ck!(m <= 2 << 20, "decapsulation takes {} bytes", m);
            c.seen_b(&y);
        }
        _ => {
            let kind = (c.idx % 9 - 6) * 4 + c.idx / 9 % 4;
            let b = gen_body(&mut r, kind);
            let (p0, pl) = (gen_pre(&mut r), gen_pre(&mut r));
            let (mut s, mut l) = (lib_state(&p0), lib_state(&pl));
            let (v, m) = peak(|| lib_wrap(&b, &mut s, &mut l, (0, 0), 0));
            let v = v?;
            ck!(m <= 64 * v.len() + base, "wrapping {} of {} trits takes {} bytes", describe(&b), v.len(), m);
            let rx = honest(&mut r, &b);
            let l0 = lib_state(&pl);
            let mut t = lib_state(&p0);
            let (_, m) = peak(|| lib_unwrap_exact(&rx, &mut t, &l0, &v));
            ck!(m <= 64 * v.len() + base, "unwrapping {} of {} trits takes {} bytes", describe(&b), v.len(), m);
            c.seen_b(&v);
        }
    }
    c.ev("operations measured");
    Ok(())
}
