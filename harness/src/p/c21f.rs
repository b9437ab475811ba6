//! C21, families: one function, called again and again with inputs that differ in a single trit, in the
//! same buffers; every call is judged by the independent model, so a result that depends on an earlier
//! call (through anything kept between calls, however it is keyed) shows.
use crate::eng::*;
use crate::msg::*;
use crate::p::c03::judge;
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::mss;
use iota_mam::mss::mt::TraversableMerkleTree;
use iota_mam::mss::{mtcomplete, mttraversal};
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::ntru;
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::Trits;
use iota_mam::troika::Troika;
use iota_mam::wots;

pub type Args = Vec<Vec<u8>>;
pub struct Fam {
    pub name: &'static str,
    pub make: fn(&mut Rng) -> Args,
    pub lib: fn(&Args) -> Vec<u8>,
    pub model: fn(&Args) -> Vec<u8>,
    /// number of one-trit variations
    vars: usize,
}
fn word(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1, 81, 242, 243, 243, 244, 400, 486, 487, 700]);
    r.trits(n)
}
fn opt(x: Option<Vec<u8>>) -> Vec<u8> {
    x.map(|mut v| {
        v.push(1);
        v
    })
    .unwrap_or_else(|| vec![9])
}
fn q(r: &mut Rng) -> Vec<u8> {
    ptrits(&(0..1024).map(|_| r.irange(-6144, 6144)).collect::<Vec<i64>>())
}
pub const FAMS: &[Fam] = &[
    Fam {
        name: "hash_data",
        make: |r| vec![word(r)],
        lib: |a| {
            let mut y = vec![0; 243];
            spongos::hash_data(sl(&a[0]), slm(&mut y));
            y
        },
        model: |a| hash_parts(&[&a[0]], 243),
        vars: 6,
    },
    Fam {
        name: "hash_datas",
        make: |r| vec![word(r), word(r), word(r)],
        lib: |a| {
            let mut y = vec![0; 300];
            spongos::hash_datas(&[sl(&a[0]), sl(&a[1]), sl(&a[2])], slm(&mut y));
            y
        },
        model: |a| hash_parts(&[&a[0], &a[1], &a[2]], 300),
        vars: 9,
    },
    Fam {
        name: "PRNG",
        make: |r| vec![r.trits(243), word(r), word(r)],
        lib: |a| {
            let p = PRNG::init(sl(&a[0]));
            let mut y = vec![0; 300];
            p.gens(&[sl(&a[1]), sl(&a[2])], slm(&mut y));
            y.extend(tvt(&p.gen_trits(&tr(&a[1]), 90)));
            y
        },
        model: |a| {
            let mut y = prng(&a[0], &[&a[1], &a[2]], 300);
            y.extend(prng(&a[0], &[&a[1]], 90));
            y
        },
        vars: 9,
    },
    Fam {
        name: "permutation",
        make: |r| vec![r.trits(729)],
        lib: |a| {
            let mut t = Troika::default();
            for (i, x) in a[0].iter().enumerate() {
                t.set1(i, *x);
            }
            t.permutation();
            (0..729).map(|i| t.get1(i)).collect()
        },
        model: |a| {
            let mut s = [0u8; 729];
            s.copy_from_slice(&a[0]);
            crate::rtroika::perm(&mut s);
            s.to_vec()
        },
        vars: 8,
    },
    Fam {
        name: "sponge",
        make: |r| vec![r.trits(243), word(r), word(r), word(r)],
        lib: |a| {
            let mut s = Spongos::from_inner_trits(&tr(&a[0]));
            s.absorb(sl(&a[1]));
            s.commit();
            let mut o = tvt(&s.encr_trits(&tr(&a[2])));
            s.commit();
            o.extend(tvt(&s.decr_trits(&tr(&a[3]))));
            s.commit();
            o.extend(tvt(&s.squeeze_trits(300)));
            o
        },
        model: |a| {
            let mut s = RS::from_inner(&a[0]);
            s.absorb(&a[1]);
            s.commit();
            let mut o = s.encr(&a[2]);
            s.commit();
            o.extend(s.decr(&a[3]));
            s.commit();
            o.extend(s.squeeze(300));
            o
        },
        vars: 10,
    },
    Fam {
        name: "WOTS key and signature",
        make: |r| vec![r.trits(243), word(r), r.trits(234)],
        lib: |a| {
            let sk = wots::PrivateKey::gen(&PRNG::init(sl(&a[0])), &[sl(&a[1])]);
            let mut pk = vec![0; 243];
            sk.calc_pk(slm(&mut pk));
            let mut sig = vec![0; wots::SIG_SIZE];
            sk.sign(sl(&a[2]), slm(&mut sig));
            let o = wots::PublicKey::gen(&sk);
            pk.push(o.verify(sl(&a[2]), sl(&sig)) as u8);
            pk.extend(sig);
            pk
        },
        model: |a| {
            let sk = prng(&a[0], &[&a[1]], 13122);
            let mut pk = wots_pk(&sk);
            pk.push(1);
            pk.extend(wots_sign(&sk, &a[2]));
            pk
        },
        vars: 6,
    },
    Fam {
        name: "WOTS recovery",
        make: |r| {
            let sk = r.trits(13122);
            let h = r.trits(234);
            let s = wots_sign(&sk, &h);
            vec![h, s]
        },
        lib: |a| {
            let mut pk = vec![0; 243];
            wots::recover(sl(&a[0]), sl(&a[1]), slm(&mut pk));
            pk
        },
        model: |a| wots_recover(&a[0], &a[1]),
        vars: 8,
    },
    Fam {
        name: "MSS key",
        make: |r| vec![r.trits(243), word(r), r.trits(234)],
        lib: |a| {
            let mut k = mss::PrivateKey::gen(&PRNG::init(sl(&a[0])), sl(&a[1]), 1);
            let mut o = msspk_v(k.public_key());
            for i in 0..2 {
                let mut s = vec![0; mss::sig_size(1)];
                k.sign(sl(&a[2]), slm(&mut s));
                o.extend(s);
                o.push((k.next() == (i == 0)) as u8);
            }
            o
        },
        model: |a| {
            let k = RMss::gen(&a[0], &a[1], 1);
            let mut o = k.pk().to_vec();
            for i in 0..2 {
                o.extend(k.sign(i, &a[2]));
                o.push(1);
            }
            o
        },
        vars: 4,
    },
    Fam {
        name: "MSS recovery and verification",
        make: |r| {
            let k = mssp(r.below(6));
            let h = r.trits(234);
            let s = k.model().sign(r.below(1 << k.height), &h);
            vec![h, s, k.pk.clone()]
        },
        lib: |a| {
            let mut o = opt(mss::PublicKey::recover(sl(&a[0]), sl(&a[1])).map(|(k, n)| {
                let mut v = msspk_v(&k);
                v.extend((n as u64).to_le_bytes());
                v
            }));
            o.push(mss::verify(sl(&a[2]), sl(&a[0]), sl(&a[1])) as u8);
            o.push(msspk(&a[2]).map(|k| k.verify(sl(&a[0]), sl(&a[1])) as u8).unwrap_or(7));
            o
        },
        model: |a| {
            let m = mss_recover(&a[0], &a[1]);
            let ok = m.as_ref().is_some_and(|(k, n)| *k == a[2] && *n == a[1].len()) as u8;
            let mut o = opt(m.map(|(mut k, n)| {
                k.extend((n as u64).to_le_bytes());
                k
            }));
            o.push(ok);
            o.push(ok);
            o
        },
        vars: 8,
    },
    Fam {
        name: "NTRU key generation",
        make: |r| vec![r.trits(243), word(r)],
        lib: |a| ntrupk_v(&ntru::gen(&PRNG::init(sl(&a[0])), sl(&a[1])).1),
        model: |a| ntru_gen(&a[0], &a[1]).pk,
        vars: 4,
    },
    Fam {
        name: "NTRU encapsulation",
        make: |r| vec![ntrup(r.below(NNTRU)).pkt.clone(), r.trits(243), r.trits(243), r.trits(243), r.trits(81)],
        lib: |a| {
            let pk = match ntru::PublicKey::from_slice(sl(&a[0])) {
                None => return vec![9],
                Some(pk) => pk,
            };
            let mut s = Spongos::init();
            s.absorb(sl(&a[1]));
            let mut y = vec![0; ntru::EKEY_SIZE];
            pk.encr_with_s(&mut s, &PRNG::init(sl(&a[2])), sl(&a[4]), sl(&a[3]), slm(&mut y));
            y.extend(fp(&s));
            y
        },
        model: |a| {
            if !ntru_pk_ok(&a[0]) {
                return vec![9];
            }
            let mut s = RS::new();
            s.absorb(&a[1]);
            let mut y = ntru_encr(&mut s, &a[2], &a[0], &a[4], &a[3]).unwrap_or_default();
            y.extend(rfp(&s));
            y
        },
        vars: 12,
    },
    Fam {
        name: "NTRU decapsulation",
        make: |r| {
            let k = ntrup(r.below(NNTRU));
            let key = r.trits(243);
            let pre = r.trits(243);
            let mut s = RS::new();
            s.absorb(&pre);
            let rnd = r.trits(1024);
            let y = ntru_encr_r(&mut s, &k.pkt, &rnd, &key).unwrap_or_default();
            vec![k.model().sk.clone(), pre, y]
        },
        lib: |a| {
            let mut s = Spongos::init();
            s.absorb(sl(&a[1]));
            let mut k = vec![0; 243];
            let ok = ntru::decr_sk(&mut s, sl(&a[0]), sl(&a[2]), slm(&mut k));
            opt(ok.then(|| {
                k.extend(fp(&s));
                k
            }))
        },
        model: |a| {
            let mut s = RS::new();
            s.absorb(&a[1]);
            opt(ntru_decr(&mut s, &a[0], &a[2]).map(|mut k| {
                k.extend(rfp(&s));
                k
            }))
        },
        vars: 9,
    },
    Fam {
        name: "decapsulation with a key object",
        make: |r| {
            let n = r.below(NNTRU);
            let k = ntrup(n);
            let key = r.trits(243);
            let pre = r.trits(243);
            let mut s = RS::new();
            s.absorb(&pre);
            let rnd = r.trits(1024);
            let y = ntru_encr_r(&mut s, &k.pkt, &rnd, &key).unwrap_or_default();
            vec![vec![(n % 3) as u8, (n / 3) as u8], pre, y]
        },
        lib: |a| {
            let mut s = Spongos::init();
            s.absorb(sl(&a[1]));
            let mut k = vec![0; 243];
            let ok = ntrup((a[0][0] + 3 * a[0][1]) as usize).sk.decr_with_s(&mut s, sl(&a[2]), slm(&mut k));
            opt(ok.then(|| {
                k.extend(fp(&s));
                k
            }))
        },
        model: |a| {
            let mut s = RS::new();
            s.absorb(&a[1]);
            opt(ntru_decr(&mut s, &ntrup((a[0][0] + 3 * a[0][1]) as usize).model().sk, &a[2]).map(|mut k| {
                k.extend(rfp(&s));
                k
            }))
        },
        vars: 9,
    },
    Fam {
        name: "polynomial product",
        make: |r| vec![q(r), q(r)],
        lib: |a| {
            let (mut f, mut g) = (Poly::new(), Poly::new());
            if !f.from_trits(sl(&a[0])) || !g.from_trits(sl(&a[1])) {
                return vec![9];
            }
            f.ntt();
            g.ntt();
            f.conv(&g);
            f.intt();
            let mut o = vec![0; 9216];
            f.to_trits(slm(&mut o));
            o.push(g.has_inv() as u8);
            o
        },
        model: |a| match (pfrom(&a[0]), pfrom(&a[1])) {
            (Some(f), Some(g)) => {
                let mut o = ptrits(&pmul(&f, &g));
                o.push(invertible(&g) as u8);
                o
            }
            _ => vec![9],
        },
        vars: 8,
    },
    Fam {
        name: "public key import",
        make: |r| vec![if r.chance(1, 2) { ntrup(r.below(NNTRU)).pkt.clone() } else { q(r) }],
        lib: |a| {
            let k = ntru::PublicKey::from_trits(tr(&a[0]));
            opt(k.map(|k| {
                let mut v = ntrupk_v(&k);
                v.extend(tv(k.id()));
                v
            }))
        },
        model: |a| {
            opt(ntru_pk_ok(&a[0]).then(|| {
                let mut v = a[0].clone();
                v.extend_from_slice(&a[0][..81]);
                v
            }))
        },
        vars: 8,
    },
    Fam {
        name: "text",
        make: |r| {
            let n = 3 * r.range(1, 90);
            vec![r.trits(n)]
        },
        lib: |a| {
            let t = tr(&a[0]);
            let s = t.to_str();
            let mut o = s.as_bytes().to_vec();
            o.extend(Trits::from_str(&s).map(|t| tvt(&t)).unwrap_or_default());
            o
        },
        model: |a| {
            let alphabet = b"9ABCDEFGHIJKLMNOPQRSTUVWXYZ";
            let mut o: Vec<u8> = a[0].chunks(3).map(|c| alphabet[bal(c).rem_euclid(27) as usize]).collect();
            o.extend_from_slice(&a[0]);
            o
        },
        vars: 6,
    },
    Fam {
        name: "small sponge",
        make: |r| {
            let n = r.range(1, 9);
            vec![r.trits(n), r.trits(3)]
        },
        lib: |a| {
            let mut s = Spongos::init();
            s.commit();
            s.absorb(sl(&a[0]));
            s.commit();
            s.commit();
            let mut f = s.fork();
            f.absorb(sl(&a[1]));
            s.join(&mut f);
            tvt(&s.squeeze_trits(9))
        },
        model: |a| {
            let mut s = RS::new();
            s.commit();
            s.absorb(&a[0]);
            s.commit();
            s.commit();
            let mut f = s.clone();
            f.absorb(&a[1]);
            s.join(&mut f);
            s.squeeze(9)
        },
        vars: 6,
    },
    Fam {
        name: "fields",
        make: |r| {
            let n = 3 * r.range(1, 20);
            vec![r.trits(18), r.trits(n), r.trits(9)]
        },
        lib: |a| {
            let (x, y, z) = (pb3::Trint18(bal(&a[0]) as i32), pb3::Trytes(tr(&a[1])), pb3::Size(bal(&a[2]).unsigned_abs() as usize));
            let mut v = vec![0; 36 + pb3::sizeof_trytes(a[1].len() / 3) + 2 * z.sizeof()];
            let mut s = Spongos::init();
            let mut t = Spongos::init();
            {
                let mut b = slm(&mut v);
                x.wrap_absorb(&mut s, &mut b);
                z.wrap_mask(&mut s, &mut b);
                y.wrap_mask(&mut s, &mut b);
                z.wrap_absorb(&mut s, &mut b);
                x.wrap_mask(&mut s, &mut b);
            }
            let mut c = sl(&v);
            let ok = pb3::Trint18::unwrap_absorb_sized(&mut t, &mut c).map(|o| o == x) == Ok(true)
                && pb3::Size::unwrap_mask_sized(&mut t, &mut c).map(|o| o.0 == z.0) == Ok(true)
                && pb3::Trytes::unwrap_mask_sized(&mut t, &mut c).map(|o| o.0 == y.0) == Ok(true)
                && pb3::Size::unwrap_absorb_sized(&mut t, &mut c).map(|o| o.0 == z.0) == Ok(true)
                && pb3::Trint18::unwrap_mask_sized(&mut t, &mut c).map(|o| o == x) == Ok(true);
            v.push(ok as u8);
            v.extend(tvt(&t.squeeze_trits(9)));
            v
        },
        model: |a| {
            let n = bal(&a[2]).unsigned_abs();
            let mut s = RS::new();
            let mut v = vec![];
            put(Md::Absorb, &a[0], &mut s, &mut v);
            put_size(Md::Mask, n, &mut s, &mut v);
            put_trytes(Md::Mask, &a[1], &mut s, &mut v);
            put_size(Md::Absorb, n, &mut s, &mut v);
            put(Md::Mask, &a[0], &mut s, &mut v);
            v.push(1);
            v.extend(s.squeeze(9));
            v
        },
        vars: 8,
    },
    Fam {
        name: "trees",
        make: |r| vec![r.trits(18), r.trits(3)],
        lib: |a| {
            let x = bal(&a[0]);
            let h = bal(&a[1]).unsigned_abs() as usize % 4;
            let g = |i: usize| x.wrapping_mul(31).wrapping_add(i as i64);
            let m = |a: &i64, b: &i64| a.wrapping_mul(1_000_003).rotate_left(9) ^ *b;
            let mut p = mtcomplete::MT::<i64>::gen(&g, &m, h);
            let mut q = mttraversal::MT::<i64>::gen(&g, &m, h);
            let mut o = vec![];
            loop {
                let i = p.skn();
                for k in [*p.root(), *q.root(), p.apath().fold(&m, &g(i)), q.apath().fold(&m, &g(i))] {
                    o.extend_from_slice(&k.to_le_bytes());
                }
                let e = (p.next(&g, &m), q.next(&g, &m));
                o.extend([e.0 as u8, e.1 as u8]);
                if !e.0 || !e.1 {
                    break;
                }
            }
            o
        },
        model: |a| {
            let x = bal(&a[0]);
            let h = bal(&a[1]).unsigned_abs() as usize % 4;
            let mut l: Vec<i64> = (0..1 << h).map(|i| x.wrapping_mul(31).wrapping_add(i)).collect();
            while l.len() > 1 {
                l = l.chunks(2).map(|p| p[0].wrapping_mul(1_000_003).rotate_left(9) ^ p[1]).collect();
            }
            let mut o = vec![];
            for i in 0..1 << h {
                for _ in 0..4 {
                    o.extend_from_slice(&l[0].to_le_bytes());
                }
                let e = (i + 1 < 1 << h) as u8;
                o.extend([e, e]);
            }
            o
        },
        vars: 4,
    },
    Fam {
        name: "tagged packet",
        make: |r| {
            let (a, b) = (3 * r.range(1, 40), 3 * r.range(1, 40));
            vec![r.trits(81), r.trits(a), r.trits(b), r.trits(243)]
        },
        lib: |a| {
            let m = Body::Tagged { id: a[0].clone(), public: a[1].clone(), masked: a[2].clone() };
            let l = Spongos::from_inner_trits(&tr(&a[3]));
            let mut s = Spongos::init();
            let mut v = lib_wrap(&m, &mut s, &mut l.fork(), (0, 0), 0).unwrap_or_default();
            let mut t = Spongos::init();
            let g = lib_unwrap_exact(&Rx { want: Want::Tagged, id: Some(a[0].clone()) }, &mut t, &l, &v);
            v.push((g.res == Ok(vec![a[1].clone(), a[2].clone()])) as u8);
            v.extend(tvt(&t.squeeze_trits(9)));
            v
        },
        model: |a| {
            let m = Body::Tagged { id: a[0].clone(), public: a[1].clone(), masked: a[2].clone() };
            let mut l = RS::from_inner(&a[3]);
            let mut s = RS::new();
            let mut v = ref_wrap(&m, &mut s, &mut l).unwrap_or_default();
            v.push(1);
            v.extend(s.squeeze(9));
            v
        },
        vars: 10,
    },
];
/// Base input and inputs that differ from it in one trit (or have the same beginning, or the same end).
fn vary(r: &mut Rng, base: &Args, n: usize) -> Vec<Args> {
    let mut v = vec![base.clone()];
    let mut k = r.below(12);
    while v.len() <= n {
        let mut a = base.clone();
        let i = k % a.len();
        let m = a[i].len();
        let at = match (k / a.len()) % 4 {
            0 => m - 1,
            1 => m / 2,
            2 => 0,
            _ => r.below(m),
        };
        a[i][at] = (a[i][at] + 1 + r.below(2) as u8) % 3;
        v.push(a);
        k += 1;
    }
    // two more: everything but a short beginning, or everything but the end, is different
    let i = r.below(base.len());
    let m = base[i].len();
    if m > 90 && i != 1 {
        let keep = *r.pick(&[9, 27, 81]);
        let mut a = base.clone();
        for x in a[i][keep..].iter_mut() {
            if r.chance(1, 9) {
                *x = (*x + 1) % 3;
            }
        }
        v.push(a);
        let mut a = base.clone();
        for x in a[i][..m - keep].iter_mut() {
            if r.chance(1, 9) {
                *x = (*x + 1) % 3;
            }
        }
        v.push(a);
    }
    v
}
pub fn calls(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let f = &FAMS[c.idx % FAMS.len()];
    let base = (f.make)(&mut r);
    let mut n = f.vars;
    if f.vars < 8 && c.thorough {
        n += 4;
    }
    let vs = vary(&mut r, &base, n);
    let want: Vec<Vec<u8>> = vs.iter().map(|a| (f.model)(a)).collect();
    // every input is passed in the same buffers
    let mut buf = base.clone();
    // base, variation, base, .. and then in any order
    let mut order: Vec<usize> = vec![];
    for i in 1..vs.len() {
        order.push(i);
        if r.chance(2, 3) {
            order.push(0);
        }
    }
    if r.chance(1, 2) {
        order.insert(0, 0);
    }
    let mut tail: Vec<usize> = (0..vs.len()).collect();
    r.shuffle(&mut tail);
    order.extend(tail);
    if f.vars >= 6 {
        order.push(0);
        order.push(0);
    }
    let mut prev = usize::MAX;
    for i in order {
        for (b, a) in buf.iter_mut().zip(&vs[i]) {
            b.copy_from_slice(a);
        }
        let got = (f.lib)(&buf);
        let differs = vs[i].iter().zip(&vs[0]).position(|(x, y)| x != y);
        ck!(got == want[i], "{}: variation {} (argument {:?} changed) called after variation {} gives a result of its own: {}", f.name, i, differs, prev as isize, diff_at(&got, &want[i]));
        ck!(buf == vs[i], "{}: the arguments were modified", f.name);
        prev = i;
        c.ev("calls judged by the model");
    }
    c.ev(f.name);
    for w in &want {
        c.seen_b(w);
    }
    Ok(())
}
/// Very many calls in one thread: nothing wears out, counts round or fills up.
pub fn many(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let f = &FAMS[c.idx % FAMS.len()];
    let vs = {
        let base = (f.make)(&mut r);
        let mut v = vary(&mut r, &base, 3);
        v.truncate(4);
        v
    };
    let want: Vec<Vec<u8>> = vs.iter().map(|a| (f.model)(a)).collect();
    // enough for counters of 16 bits where a call is cheap
    let n = match f.name {
        "WOTS key and signature" | "MSS key" => 66,
        "MSS recovery and verification" => 130,
        "WOTS recovery" => 260,
        "NTRU encapsulation" | "NTRU decapsulation" | "decapsulation with a key object" | "NTRU key generation" => 4_200,
        "polynomial product" => 9_000,
        _ => 66_000,
    };
    let n = if c.build == "tsan" || c.build == "miri" { n / 60 + 20 } else { n };
    for k in 0..n {
        let i = if k % 7 == 3 { r.below(vs.len()) } else { 0 };
        let got = (f.lib)(&vs[i]);
        ck!(got == want[i], "{}: call {} of {} in a row gives a result of its own: {}", f.name, k, n, diff_at(&got, &want[i]));
    }
    c.evn("calls in a row", n);
    for w in &want {
        c.seen_b(w);
    }
    Ok(())
}
/// One receiver, many messages that nearly agree: the genuine one and altered ones, other keys and other
/// states, in turn.
pub fn receive(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let b = gen_body(&mut r, c.idx % KINDS);
    let rx = honest(&mut r, &b);
    let p0 = gen_pre(&mut r);
    let pl = vec![POp::Absorb(r.trits(243)), POp::Commit];
    let v = match ref_wrap(&b, &mut ref_state(&p0), &mut ref_state(&pl)) {
        Some(v) => v,
        None => return Err("HARNESS: the model does not wrap".into()),
    };
    let mut jobs: Vec<(Rx, Pre, Pre, Vec<u8>)> = vec![];
    for k in 0..5 {
        let mut w = v.clone();
        let i = match k {
            0 => v.len() - 1,
            1 => v.len() / 2,
            _ => r.below(v.len()),
        };
        w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
        jobs.push((rx.clone(), p0.clone(), pl.clone(), w));
    }
    // another state, another link, another key
    jobs.push((rx.clone(), vec![POp::Absorb(r.trits(81)), POp::Commit], pl.clone(), v.clone()));
    jobs.push((rx.clone(), p0.clone(), vec![POp::Absorb(r.trits(243)), POp::Commit], v.clone()));
    // the same contents and keys sent in another state or over another link
    for k in 0..2 {
        let (mut p, mut l) = (p0.clone(), pl.clone());
        if k == 0 {
            p.push(POp::Absorb(r.trits(30)));
            p.push(POp::Commit);
        } else {
            l = vec![POp::Absorb(r.trits(243)), POp::Commit];
        }
        if let Some(w) = ref_wrap(&b, &mut ref_state(&p), &mut ref_state(&l)) {
            jobs.push((rx.clone(), p, l, w));
        }
    }
    let mut other = rx.clone();
    match &mut other.want {
        Want::Keyload { psks, ntrus } => {
            for (_, k) in psks.iter_mut() {
                let i = r.below(243);
                k[i] = (k[i] + 1) % 3;
            }
            for (_, i) in ntrus.iter_mut() {
                *i = (*i + 1) % NNTRU;
            }
        }
        Want::SignedVerify { pk } => {
            let i = r.below(243);
            pk[i] = (pk[i] + 1) % 3;
        }
        Want::ChangeKey { linkpk } => {
            let i = r.below(243);
            linkpk[i] = (linkpk[i] + 1) % 3;
        }
        Want::Subscribe { ch } => *ch = (*ch + 1) % NNTRU,
        Want::Unsubscribe { sub } => *sub = (*sub + 1) % NNTRU,
        Want::Header { msgid, .. } => msgid[0] = (msgid[0] + 1) % 3,
        _ => {}
    }
    jobs.push((other, p0.clone(), pl.clone(), v.clone()));
    r.shuffle(&mut jobs);
    let first = r.chance(1, 2);
    let genuine = |c: &mut Ctx, r: &mut Rng, after: usize| -> R {
        let t0 = lib_state(&p0);
        let mut s = t0.fork();
        let g = lib_unwrap_exact(&rx, &mut s, &lib_state(&pl), &v);
        match g.res {
            Ok(x) => ck!(x == content(&b, &rx.want) && g.used == v.len(), "{}: received with other content after {} other messages", describe(&b), after),
            Err(e) => return Err(format!("{}: refused after {} other messages: {}", describe(&b), after, e)),
        }
        judge(c, r, &rx, &p0, &pl, &v, "the genuine message")?;
        c.ev("genuine messages received in between");
        Ok(())
    };
    if first {
        genuine(c, &mut r, 0)?;
    }
    for (k, (rx, p, l, w)) in jobs.iter().enumerate() {
        judge(c, &mut r, rx, p, l, w, "a message nearly like one received before")?;
        if k % 3 == 2 || k + 1 == jobs.len() {
            genuine(c, &mut r, k + 1)?;
        }
    }
    c.seen_b(&v);
    Ok(())
}

/// What a fresh process does first, in several threads at once. Nothing of the crate was used before:
/// inputs and expected results come from the model.
const COLD: usize = 14;
fn cold_job(r: &mut Rng, i: usize) -> (String, Box<dyn Fn() -> Vec<u8> + Send + Sync>, Vec<u8>) {
    let ntru = |r: &mut Rng| {
        let (key, nonce) = (r.trits(243), r.trits(30));
        ntru_gen(&key, &nonce)
    };
    let by = |name: &str, a: Args| {
        let f = FAMS.iter().find(|f| f.name == name).expect("family");
        let want = (f.model)(&a);
        let lib = f.lib;
        (name.to_string(), Box::new(move || lib(&a)) as Box<dyn Fn() -> Vec<u8> + Send + Sync>, want)
    };
    let pool = ["polynomial product", "hash_data", "permutation", "WOTS recovery", "NTRU key generation", "text", "sponge", "MSS key", "PRNG", "WOTS key and signature"];
    match i % COLD {
        k if k < pool.len() => {
            let f = FAMS.iter().find(|f| f.name == pool[k]).expect("family");
            let a = (f.make)(r);
            by(pool[k], a)
        }
        10 => {
            let k = ntru(r);
            let (key, pre, rnd) = (r.trits(243), r.trits(243), r.trits(1024));
            let mut s = RS::new();
            s.absorb(&pre);
            let y = ntru_encr_r(&mut s, &k.pk, &rnd, &key).unwrap_or_default();
            by("NTRU decapsulation", vec![k.sk, pre, y])
        }
        11 => {
            let k = ntru(r);
            by("NTRU encapsulation", vec![k.pk, r.trits(243), r.trits(243), r.trits(243), r.trits(81)])
        }
        12 => {
            let k = ntru(r);
            by("public key import", vec![k.pk])
        }
        _ => {
            let b = Body::Tagged { id: r.trits(81), public: r.trits(300), masked: r.trits(600) };
            let pl = vec![POp::Absorb(r.trits(243)), POp::Commit];
            let mut s = ref_state(&vec![]);
            let v = ref_wrap(&b, &mut s, &mut ref_state(&pl)).unwrap_or_default();
            let mut want = content(&b, &Want::Tagged).concat();
            want.extend(rfp(&s));
            let f = move || {
                let mut s = Spongos::init();
                let rx = Rx { want: Want::Tagged, id: body_id(&b).cloned() };
                match lib_unwrap(&rx, &mut s, &lib_state(&pl), sl(&v)).res {
                    Ok(c) => {
                        let mut o = c.concat();
                        o.extend(fp(&s));
                        o
                    }
                    Err(e) => e.into_bytes(),
                }
            };
            ("tagged packet".to_string(), Box::new(f), want)
        }
    }
}
/// Body of the fresh process: exit status 0 if every thread obtained what the model says.
pub fn cold_main(seed: u64, i: usize) -> i32 {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let mut r = Rng::new(seed);
    let nt = r.range(3, 8);
    // the same work in every thread, or in each its own inputs
    let same = r.chance(1, 2);
    let js: Vec<_> = (0..nt).map(|t| cold_job(&mut Rng::new(if same { seed } else { seed + t as u64 }), i)).collect();
    let ready = AtomicUsize::new(0);
    let mut got: Vec<Vec<u8>> = vec![vec![]; nt];
    std::thread::scope(|sc| {
        for (j, g) in js.iter().zip(got.iter_mut()) {
            let ready = &ready;
            let b = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < nt {
                    std::hint::spin_loop();
                }
                *g = (j.1)();
            });
            if b.is_err() {
                eprintln!("HARNESS: cannot start a thread");
                std::process::exit(2);
            }
        }
    });
    for (t, (j, g)) in js.iter().zip(&got).enumerate() {
        if *g != j.2 {
            println!("COLD {}: thread {} of {} gets a result of its own: {}", j.0, t, nt, diff_at(g, &j.2));
            return 1;
        }
    }
    println!("COLD OK {} {}", nt, js[0].0);
    0
}
/// First use of the crate in a process, by several threads at the same time.
pub fn cold(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {}", e))?;
    let seed = r.u64() >> 8;
    let o = std::process::Command::new(exe)
        .args(["--cold", &format!("{}:{}", seed, c.idx)])
        .output()
        .map_err(|e| format!("HARNESS: fresh process: {}", e))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    if err.contains("HARNESS STUB") {
        return Err("HARNESS STUB".into());
    }
    if o.status.code() == Some(2) {
        return Err(format!("HARNESS: fresh process: {}", err));
    }
    let first = err.lines().find(|l| l.contains("ThreadSanitizer") || l.contains("panicked") || l.contains("AddressSanitizer")).unwrap_or("");
    ck!(
        o.status.success() && out.contains("COLD OK"),
        "first use of the crate in a process by several threads at once (seed {} case {}): {} {} {}",
        seed,
        c.idx,
        o.status,
        out.trim(),
        first
    );
    let n: usize = out.split_whitespace().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    c.evn("threads starting cold", n);
    c.seen(seed);
    Ok(())
}
