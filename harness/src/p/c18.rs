//! C18 polynomial arithmetic modulo 12289 and x^1024+1.
use crate::eng::*;
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::poly::Poly;

/// values of the exhaustive tables handled per case
const PER: usize = 8;
pub fn groups() -> Vec<Group> {
    vec![
        g("linear", 500, linear),
        g("product", 260, product),
        g("transform", 220, transform),
        g("inverse", 160, inverse),
        g("small", 400, small_ops),
        g("codec", 300, codec),
        g("program", 120, program),
        // with a scale of 7 every pair of coefficients
        g("pairs", 220, pairs),
        g("units", 13, units),
    ]
}
fn pt(p: &Poly) -> Vec<u8> {
    let mut v = vec![1u8; 9 * N];
    p.to_trits(slm(&mut v));
    v
}
fn pv(p: &Poly) -> P {
    pt(p).chunks(9).map(bal).collect()
}
fn mk(r: &mut Rng, v: &[i64]) -> Result<Poly, String> {
    let mut p = Poly::new();
    if r.chance(1, 2) {
        // import over a used object
        let x: P = (0..N).map(|_| r.irange(-6144, 6144)).collect();
        p.from_trits(sl(&ptrits(&x)));
    }
    let o = r.below(9);
    let mut t = r.trits(o);
    t.extend(ptrits(v));
    ck!(p.from_trits(sl(&t).drop(o)), "an in-range polynomial is refused");
    Ok(p)
}
fn rp(r: &mut Rng) -> P {
    let m = r.below(8);
    let one = r.irange(-6144, 6144);
    (0..N)
        .map(|i| match m {
            0 => *r.pick(&[6144i64, -6144, 6143, -6143, 0, 1, -1]),
            1 => one,
            2 => r.irange(-1, 1),
            3 => {
                if i == one.unsigned_abs() as usize % N {
                    one
                } else {
                    0
                }
            }
            4 => *r.pick(&[6144i64, -6144]),
            5 => {
                if r.chance(1, 50) {
                    r.irange(-6144, 6144)
                } else {
                    0
                }
            }
            _ => r.irange(-6144, 6144),
        })
        .collect()
}
fn at(a: &[i64], b: &[i64]) -> String {
    match (0..N).find(|i| a[*i] != b[*i]) {
        Some(i) => format!("coefficient {} is {} instead of {}", i, a[i], b[i]),
        None => "equal".into(),
    }
}
fn same(what: &str, p: &Poly, w: &[i64]) -> R {
    let v = pv(p);
    ck!(v == w, "{}: {}", what, at(&v, w));
    Ok(())
}
fn linear(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (a, b) = (rp(&mut r), rp(&mut r));
    let (pa, pb) = (mk(&mut r, &a)?, mk(&mut r, &b)?);
    let mut x = pa;
    x.add(&pb);
    same("sum", &x, &padd(&a, &b))?;
    let mut y = pa;
    y.sub(&pb);
    same("difference", &y, &psub(&a, &b))?;
    ck!(x == mk(&mut r, &padd(&a, &b))?, "sum is not equal to the same polynomial imported");
    x.sub(&pb);
    ck!(x == pa, "a + b - b is not equal to a");
    ck!((pa == pb) == (a == b), "equality of polynomials");
    same("operand", &pb, &b)?;
    let z = Poly::new();
    same("new polynomial", &z, &vec![0; N])?;
    x.add(&z);
    ck!(x == pa, "adding zero changes the polynomial");
    // double cancellation to zero
    let mut n = z;
    n.sub(&pa);
    same("negation", &n, &psub(&vec![0; N], &a))?;
    n.add(&pa);
    ck!(n == z, "a - a is not zero");
    c.evn("results compared", 8);
    c.seen_b(&pt(&y));
    Ok(())
}
fn mul(a: &Poly, b: &Poly) -> Poly {
    let (mut x, mut y) = (*a, *b);
    x.ntt();
    y.ntt();
    x.conv(&y);
    x.intt();
    x
}
fn product(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (a, b) = (rp(&mut r), rp(&mut r));
    let (pa, pb) = (mk(&mut r, &a)?, mk(&mut r, &b)?);
    let p = mul(&pa, &pb);
    same("product", &p, &pmul(&a, &b))?;
    ck!(mul(&pb, &pa) == p, "product is not commutative");
    // by a power of x: rotation with sign
    let e = *r.pick(&[0usize, 1, 512, 1023, 77]);
    let mut m = vec![0i64; N];
    m[e] = 1;
    let w: P = (0..N).map(|i| if i >= e { a[i - e] } else { -a[N + i - e] }).collect();
    same("product with a power of x", &mul(&pa, &mk(&mut r, &m)?), &w)?;
    c.evn("products compared", 3);
    c.seen_b(&pt(&p));
    Ok(())
}
/// The root the transform uses: the transform of x.
fn gamma() -> i64 {
    let mut p = Poly::new();
    let mut m = vec![0i64; N];
    m[1] = 1;
    p.from_trits(sl(&ptrits(&m)));
    p.ntt();
    pv(&p)[0].rem_euclid(Q)
}
fn transform(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let a = rp(&mut r);
    let pa = mk(&mut r, &a)?;
    let mut x = pa;
    x.ntt();
    let gm = gamma();
    let mut pows = vec![1i64; 2 * N];
    for i in 1..2 * N {
        pows[i] = pows[i - 1] * gm % Q;
    }
    ck!(pows[N] == Q - 1, "transform of x: {} is no root of x^1024+1", gm);
    let w: P = (0..N)
        .map(|j| {
            let mut e = 0;
            let mut s = 0i64;
            for f in &a {
                s += f * pows[e];
                e = (e + 2 * j + 1) % (2 * N);
            }
            cmod(s, Q)
        })
        .collect();
    same("transform", &x, &w)?;
    let inv = w.iter().all(|v| *v != 0);
    ck!(x.has_inv() == inv && invertible(&a) == inv, "has_inv is {}, expected {}", x.has_inv(), inv);
    c.ev(if inv { "invertible" } else { "not invertible" });
    let mut y = x;
    y.intt();
    same("inverse transform of the transform", &y, &a)?;
    ck!(y == pa, "inverse transform of the transform is not equal to the polynomial");
    // and in the other order
    let mut y = pa;
    y.intt();
    let mid = pv(&y);
    y.ntt();
    same("transform of the inverse transform", &y, &a)?;
    c.evn("transforms compared", 4);
    c.seen_b(&ptrits(&mid));
    Ok(())
}
fn inverse(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // chosen values at the roots: some zero, extreme, or random
    let m = r.below(4);
    let mut e: P = (0..N)
        .map(|_| match m {
            0 => *r.pick(&[1i64, Q - 1, 2, 6144, 6145]),
            _ => r.irange(1, Q - 1),
        })
        .collect();
    if m >= 2 {
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(&[0usize, 1, 511, 512, 1023, 1022, 9999]);
            e[if k == 9999 { r.below(N) } else { k }] = 0;
        }
    }
    let a = interp(&e);
    let pa = mk(&mut r, &a)?;
    let mut x = pa;
    x.ntt();
    ck!(x.has_inv() == (m < 2), "has_inv is {} for a polynomial with {} zeros at the roots", x.has_inv(), e.iter().filter(|v| **v == 0).count());
    if m < 2 {
        x.inv();
        let xi = x;
        x.intt();
        let w = pinv(&a).unwrap();
        same("inverse", &x, &w)?;
        let mut u = pa;
        u.ntt();
        u.conv(&xi);
        u.intt();
        let mut one = vec![0i64; N];
        one[0] = 1;
        same("product with the inverse", &u, &one)?;
        c.evn("inverses compared", 2);
    } else {
        c.ev("singular polynomials recognised");
    }
    c.seen_b(&ptrits(&a));
    Ok(())
}
fn mod3(v: &[i64]) -> P {
    v.iter().map(|x| cmod(*x, 3)).collect()
}
fn small_ops(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let t = r.trits_biased(N);
    let s = small(&t);
    let o = r.below(9);
    let mut tb = r.trits(o);
    tb.extend_from_slice(&t);
    let mut p = mk(&mut r, &rp(&mut c.sub(1)))?;
    p.small_from_trits(sl(&tb).drop(o));
    same("small polynomial", &p, &s)?;
    let mut q = p;
    q.small_mul3();
    let s3: P = s.iter().map(|x| 3 * x).collect();
    same("three times a small polynomial", &q, &s3)?;
    let mut s31 = s3.clone();
    s31[0] += 1;
    q.small3_add1();
    same("1 + 3f", &q, &s31)?;
    q.ntt();
    q.intt();
    same("1 + 3f transformed and back", &q, &s31)?;
    let a = rp(&mut r);
    let pa = mk(&mut r, &a)?;
    let mut x = pa;
    x.add_small(sl(&tb).drop(o));
    same("sum with a small polynomial", &x, &padd(&a, &s))?;
    x.sub_small(sl(&tb).drop(o));
    ck!(x == pa, "adding and subtracting a small polynomial changes the polynomial");
    let mut y = pa;
    y.sub_small(sl(&t));
    same("difference with a small polynomial", &y, &psub(&a, &s))?;
    let mut m = pa;
    m.small_mul3();
    same("three times a polynomial", &m, &a.iter().map(|v| cmod(3 * v, Q)).collect::<P>())?;
    // rounding modulo 3
    let mut z = pa;
    z.round_small();
    same("rounded polynomial", &z, &mod3(&a))?;
    let mut buf = r.trits(N + 12);
    let b0 = buf.clone();
    pa.round_to_trits(slm(&mut buf).drop(o).take(N));
    let w: Vec<u8> = mod3(&a).iter().map(|v| v.rem_euclid(3) as u8).collect();
    ck!(buf[o..o + N] == w[..], "rounded trits: {}", diff_at(&buf[o..o + N], &w));
    ck!(buf[..o] == b0[..o] && buf[o + N..] == b0[o + N..], "rounding writes outside of its output");
    c.evn("results compared", 9);
    c.seen_b(&pt(&y));
    Ok(())
}
fn codec(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // every value in turn
    let base = (c.idx as i64 % 13) * 1024 - 6144;
    let v: P = (0..N as i64).map(|i| cmod(base + i, Q)).collect();
    let p = mk(&mut r, &v)?;
    same("exported polynomial", &p, &v)?;
    let o = r.below(9);
    let mut buf = r.trits(9 * N + 20);
    let b0 = buf.clone();
    p.to_trits(slm(&mut buf).drop(o).take(9 * N));
    ck!(buf[o..o + 9 * N] == ptrits(&v)[..], "exported trits");
    ck!(buf[..o] == b0[..o] && buf[o + 9 * N..] == b0[o + 9 * N..], "export writes outside of its output");
    c.evn("polynomials exported", 2);
    // one or more coefficients out of range
    for t in 0..6 {
        let mut w = ptrits(&rp(&mut r));
        let bad = match (c.idx, t) {
            (i, 0) => 6145 + (i as i64 * 37) % 3697,
            (i, 1) => -6145 - (i as i64 * 41) % 3697,
            _ => *r.pick(&[6145i64, -6145, 6146, -6146, 9841, -9841, 9840, 8192, -8192]),
        };
        let i = *r.pick(&[0usize, 1, 1023, 1022, 512, 9999]);
        let i = if i == 9999 { r.below(N) } else { i };
        w[9 * i..9 * i + 9].copy_from_slice(&unbal(bad, 9));
        ck!(!Poly::new().from_trits(sl(&w)), "import accepts coefficient {} = {}", i, bad);
        c.ev("out-of-range polynomials refused");
    }
    // the whole range of a coefficient, in and out of bounds, at every position in turn
    let mut w = ptrits(&rp(&mut r));
    for t in 0..60 {
        let i = (c.idx * 60 + t) % N;
        let keep = w[9 * i..9 * i + 9].to_vec();
        let x = ((c.idx * 60 + t) as i64 * 7919) % 19683 - 9841;
        w[9 * i..9 * i + 9].copy_from_slice(&unbal(x, 9));
        ck!(Poly::new().from_trits(sl(&w)) == (x.abs() <= 6144), "import of a polynomial with coefficient {} = {}", i, x);
        c.ev("coefficients imported");
        w[9 * i..9 * i + 9].copy_from_slice(&keep);
    }
    let w = r.trits_biased(9 * N);
    let want = pfrom(&w);
    let mut p = Poly::new();
    ck!(p.from_trits(sl(&w)) == want.is_some(), "import of an arbitrary string");
    if let Some(v) = want {
        same("imported string", &p, &v)?;
    }
    c.ev("arbitrary strings");
    c.seen_b(&w);
    Ok(())
}
/// Random sequences of operations, on values and on transforms.
fn program(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut m: Vec<P> = (0..4).map(|_| rp(&mut r)).collect();
    let mut p = vec![];
    for v in &m {
        p.push(mk(&mut r, v)?);
    }
    let mut tr = String::new();
    for _ in 0..r.range(5, 14) {
        let (i, j) = (r.below(4), r.below(4));
        let q = p[j];
        match r.below(8) {
            0 => {
                p[i].add(&q);
                m[i] = padd(&m[i], &m[j]);
                tr += &format!(" add{}{}", i, j);
            }
            1 => {
                p[i].sub(&q);
                m[i] = psub(&m[i], &m[j]);
                tr += &format!(" sub{}{}", i, j);
            }
            2 => {
                p[i].conv(&q);
                m[i] = m[i].iter().zip(&m[j]).map(|(a, b)| cmod(a * b, Q)).collect();
                tr += &format!(" conv{}{}", i, j);
            }
            3 => {
                p[i] = mul(&p[i], &q);
                m[i] = pmul(&m[i], &m[j]);
                tr += &format!(" mul{}{}", i, j);
            }
            4 => {
                p[i].round_small();
                m[i] = mod3(&m[i]);
                tr += &format!(" round{}", i);
            }
            5 => {
                p[i].small_mul3();
                m[i] = m[i].iter().map(|v| cmod(3 * v, Q)).collect();
                tr += &format!(" mul3{}", i);
            }
            6 => {
                if p[i].has_inv() != m[i].iter().all(|v| *v != 0) {
                    return Err(format!("has_inv after{}", tr));
                }
                if p[i].has_inv() {
                    p[i].inv();
                    m[i] = m[i].iter().map(|v| cmod(inv(*v), Q)).collect();
                    tr += &format!(" inv{}", i);
                }
            }
            _ => {
                p[i].ntt();
                p[i].intt();
                tr += &format!(" ntt-intt{}", i);
            }
        }
        let v = pv(&p[i]);
        ck!(v == m[i], "after{}: {}", tr, at(&v, &m[i]));
        c.ev("steps compared");
    }
    c.seen_b(&pt(&p[0]));
    Ok(())
}
fn inv(a: i64) -> i64 {
    let (mut r, mut b, mut e) = (1i64, a.rem_euclid(Q), Q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// a op b for all b, for PER values of a per case; 129 * 12 * 8 >= 12289 of them in the thorough tier.
fn pairs(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // with 1540 cases every pair
    let rows: Vec<P> = (0..13i64).map(|k| (0..N as i64).map(|i| cmod(k * 1024 + i, Q)).collect()).collect();
    let mut prow = vec![];
    for v in &rows {
        prow.push(mk(&mut r, v)?);
    }
    for k in 0..PER {
        let a = cmod((c.idx * PER + k) as i64, Q);
        let ca = mk(&mut r, &vec![a; N])?;
        for (v, b) in rows.iter().zip(&prow) {
            let mut x = ca;
            x.conv(b);
            let g = pv(&x);
            let w: P = v.iter().map(|y| cmod(a * y, Q)).collect();
            ck!(g == w, "{} times a coefficient: {}", a, at(&g, &w));
        }
        for (v, b) in rows.iter().zip(&prow) {
            let mut x = ca;
            x.add(b);
            let w: P = v.iter().map(|y| cmod(a + y, Q)).collect();
            let g = pv(&x);
            ck!(g == w, "{} plus a coefficient: {}", a, at(&g, &w));
            let mut x = ca;
            x.sub(b);
            let w: P = v.iter().map(|y| cmod(a - y, Q)).collect();
            let g = pv(&x);
            ck!(g == w, "{} minus a coefficient: {}", a, at(&g, &w));
        }
        c.evn("pairs of coefficients", 39 * N);
        c.seen(a as u64);
    }
    Ok(())
}
/// Every unit is inverted.
fn units(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = (c.idx % 13) as i64;
    let v: P = (0..N as i64).map(|i| cmod((k * 1024 + i) % 12288 + 1, Q)).collect();
    let mut p = mk(&mut r, &v)?;
    ck!(p.has_inv(), "a polynomial without zero values has no inverse");
    p.inv();
    let w: P = v.iter().map(|x| cmod(inv(*x), Q)).collect();
    same("inverse values", &p, &w)?;
    c.evn("units inverted", N);
    c.seen(k as u64);
    // a single zero value at any place
    for i in (c.idx..N).step_by(13) {
        let mut z = v.clone();
        z[i] = 0;
        ck!(!mk(&mut r, &z)?.has_inv(), "zero value at {} overlooked", i);
    }
    Ok(())
}
