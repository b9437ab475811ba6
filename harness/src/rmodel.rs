//! Independent executable model of the whole stack: sponge, PRNG, WOTS, MSS, NTRU, PB3 codec.
//! Written from the documentation; shares no code with the crate under test.
use crate::rtroika::{perm, State};

pub const RATE: usize = 486;

#[derive(Clone, PartialEq, Eq)]
pub struct RS {
    pub st: State,
    pub pos: usize,
}
impl RS {
    pub fn new() -> Self {
        RS { st: [0; 729], pos: 0 }
    }
    fn step(&mut self) {
        self.pos += 1;
        if self.pos == RATE {
            perm(&mut self.st);
            self.pos = 0;
        }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        for t in x {
            self.st[self.pos] = *t;
            self.step();
        }
    }
    pub fn squeeze(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                let t = self.st[self.pos];
                self.st[self.pos] = 0;
                self.step();
                t
            })
            .collect()
    }
    pub fn encr(&mut self, x: &[u8]) -> Vec<u8> {
        x.iter()
            .map(|t| {
                let y = (*t + self.st[self.pos]) % 3;
                self.st[self.pos] = *t;
                self.step();
                y
            })
            .collect()
    }
    pub fn decr(&mut self, y: &[u8]) -> Vec<u8> {
        y.iter()
            .map(|t| {
                let x = (*t + 3 - self.st[self.pos]) % 3;
                self.st[self.pos] = x;
                self.step();
                x
            })
            .collect()
    }
    pub fn commit(&mut self) {
        if self.pos > 0 {
            perm(&mut self.st);
            self.pos = 0;
        }
    }
    pub fn join(&mut self, o: &mut RS) {
        let x = o.squeeze(243);
        self.absorb(&x);
    }
    pub fn from_inner(i: &[u8]) -> RS {
        let mut s = RS::new();
        s.st[RATE..].copy_from_slice(i);
        s
    }
}
pub fn hash_parts(xs: &[&[u8]], n: usize) -> Vec<u8> {
    let mut s = RS::new();
    for x in xs {
        s.absorb(x);
    }
    s.commit();
    s.squeeze(n)
}
pub fn prng(key: &[u8], nonces: &[&[u8]], n: usize) -> Vec<u8> {
    let mut s = RS::new();
    s.absorb(key);
    for x in nonces {
        s.absorb(x);
    }
    s.commit();
    s.squeeze(n)
}

// ---- integers: little-endian balanced ternary, trit 2 stands for -1
pub fn bal(t: &[u8]) -> i64 {
    t.iter().rev().fold(0i64, |a, x| 3 * a + if *x == 2 { -1 } else { *x as i64 })
}
pub fn unbal(mut v: i64, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let r = v.rem_euclid(3);
            v = if r == 2 { (v + 1) / 3 } else { (v - r) / 3 };
            r as u8
        })
        .collect()
}
pub fn cmod(v: i64, m: i64) -> i64 {
    let r = v.rem_euclid(m);
    if r > m / 2 {
        r - m
    } else {
        r
    }
}

// ---- WOTS
pub fn wots_digits(hash: &[u8]) -> Vec<i64> {
    let mut d: Vec<i64> = hash.chunks(3).map(bal).collect();
    let mut t = -d.iter().sum::<i64>();
    for _ in 0..3 {
        let r = cmod(t, 27);
        d.push(r);
        t = (t - r) / 27;
    }
    d
}
pub fn chain(x: &[u8], n: i64) -> Vec<u8> {
    let mut v = x.to_vec();
    for _ in 0..n {
        v = hash_parts(&[&v], 162);
    }
    v
}
pub fn wots_pk(sk: &[u8]) -> Vec<u8> {
    let mut s = RS::new();
    for p in sk.chunks(162) {
        s.absorb(&chain(p, 26));
    }
    s.commit();
    s.squeeze(243)
}
pub fn wots_sign(sk: &[u8], hash: &[u8]) -> Vec<u8> {
    let d = wots_digits(hash);
    sk.chunks(162).zip(d).flat_map(|(p, h)| chain(p, 13 + h)).collect()
}
pub fn wots_recover(hash: &[u8], sig: &[u8]) -> Vec<u8> {
    let d = wots_digits(hash);
    let mut s = RS::new();
    for (p, h) in sig.chunks(162).zip(d) {
        s.absorb(&chain(p, 13 - h));
    }
    s.commit();
    s.squeeze(243)
}

// ---- MSS
#[derive(Clone)]
pub struct RMss {
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub height: usize,
    /// levels[0] = leaves .. levels[height] = root
    pub levels: Vec<Vec<Vec<u8>>>,
}
pub fn mss_leaf_sk(key: &[u8], nonce: &[u8], i: usize) -> Vec<u8> {
    prng(key, &[nonce, &unbal(i as i64, 18)], 13122)
}
impl RMss {
    pub fn gen(key: &[u8], nonce: &[u8], height: usize) -> RMss {
        let leaves = (0..1usize << height).map(|i| wots_pk(&mss_leaf_sk(key, nonce, i))).collect();
        let mut levels: Vec<Vec<Vec<u8>>> = vec![leaves];
        for _ in 0..height {
            let l = &levels[levels.len() - 1];
            let n = l.chunks(2).map(|c| hash_parts(&[&c[0], &c[1]], 243)).collect();
            levels.push(n);
        }
        RMss { key: key.to_vec(), nonce: nonce.to_vec(), height, levels }
    }
    pub fn pk(&self) -> &[u8] {
        &self.levels[self.height][0]
    }
    pub fn sign(&self, skn: usize, hash: &[u8]) -> Vec<u8> {
        let mut o = mss_skn(self.height, skn);
        o.extend(wots_sign(&mss_leaf_sk(&self.key, &self.nonce, skn), hash));
        let mut i = skn;
        for d in 0..self.height {
            o.extend_from_slice(&self.levels[d][i ^ 1]);
            i /= 2;
        }
        o
    }
}
pub fn mss_skn(height: usize, skn: usize) -> Vec<u8> {
    let mut o = unbal(height as i64, 4);
    o.extend(unbal(skn as i64, 14));
    o
}
pub fn mss_parse(sig: &[u8]) -> Option<(usize, usize)> {
    if sig.len() < 18 {
        return None;
    }
    let (h, k) = (bal(&sig[..4]), bal(&sig[4..18]));
    if h < 0 || k < 0 || k >= 1i64 << h {
        return None;
    }
    Some((h as usize, k as usize))
}
pub fn fold(skn: usize, mut pk: Vec<u8>, ap: &[u8]) -> Vec<u8> {
    let mut k = skn;
    for n in ap.chunks(243) {
        pk = if k % 2 == 0 { hash_parts(&[&pk, n], 243) } else { hash_parts(&[n, &pk], 243) };
        k /= 2;
    }
    pk
}
pub fn mss_recover(hash: &[u8], sig: &[u8]) -> Option<(Vec<u8>, usize)> {
    let (h, k) = mss_parse(sig)?;
    let n = 18 + 13122 + 243 * h;
    if sig.len() < n || hash.len() != 234 {
        return None;
    }
    let wpk = wots_recover(hash, &sig[18..18 + 13122]);
    Some((fold(k, wpk, &sig[18 + 13122..n]), n))
}

// ---- NTRU: Z_q[x]/(x^1024+1)
pub const Q: i64 = 12289;
pub const N: usize = 1024;
pub type P = Vec<i64>;
fn pw(mut b: i64, mut e: i64) -> i64 {
    let mut r = 1;
    b = b.rem_euclid(Q);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// primitive 2048-th root of unity (11 generates Z_q^*)
fn root() -> i64 {
    pw(11, (Q - 1) / 2048)
}
pub fn gamma_pows() -> &'static [i64] {
    static T: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let g = root();
        let mut v = vec![1i64; 2048];
        for i in 1..2048 {
            v[i] = v[i - 1] * g % Q;
        }
        v
    })
}
/// values at the 1024 roots of x^1024+1 (odd powers of the root), in order of exponent
pub fn evals(f: &[i64]) -> P {
    let g = gamma_pows();
    (0..N)
        .map(|k| {
            let e = 2 * k + 1;
            let mut x = 0usize;
            let mut a = 0i64;
            for c in f {
                a += c.rem_euclid(Q) * g[x];
                x = (x + e) & 2047;
            }
            a % Q
        })
        .collect()
}
pub fn interp(v: &[i64]) -> P {
    let g = gamma_pows();
    let ni = pw(N as i64, Q - 2);
    (0..N)
        .map(|j| {
            let mut a = 0i64;
            for (k, c) in v.iter().enumerate() {
                a += c * g[(2048 - ((2 * k + 1) * j) % 2048) & 2047];
            }
            cmod(a % Q * ni, Q)
        })
        .collect()
}
pub fn invertible(f: &[i64]) -> bool {
    evals(f).iter().all(|v| *v != 0)
}
pub fn pinv(f: &[i64]) -> Option<P> {
    let e = evals(f);
    if e.iter().any(|v| *v == 0) {
        return None;
    }
    let v: P = e.iter().map(|x| pw(*x, Q - 2)).collect();
    Some(interp(&v))
}
/// negacyclic schoolbook product, centred
pub fn pmul(a: &[i64], b: &[i64]) -> P {
    let mut r = vec![0i64; 2 * N];
    for i in 0..N {
        if a[i] != 0 {
            for j in 0..N {
                r[i + j] += a[i] * b[j];
            }
        }
    }
    (0..N).map(|i| cmod(r[i] - r[i + N], Q)).collect()
}
pub fn padd(a: &[i64], b: &[i64]) -> P {
    a.iter().zip(b).map(|(x, y)| cmod(x + y, Q)).collect()
}
pub fn psub(a: &[i64], b: &[i64]) -> P {
    a.iter().zip(b).map(|(x, y)| cmod(x - y, Q)).collect()
}
pub fn small(t: &[u8]) -> P {
    t.iter().map(|x| bal(&[*x])).collect()
}
pub fn ptrits(a: &[i64]) -> Vec<u8> {
    a.iter().flat_map(|c| unbal(cmod(*c, Q), 9)).collect()
}
pub fn pfrom(t: &[u8]) -> Option<P> {
    if t.len() != 9 * N {
        return None;
    }
    let p: P = t.chunks(9).map(bal).collect();
    if p.iter().all(|c| c.abs() <= Q / 2) {
        Some(p)
    } else {
        None
    }
}
pub struct RNtru {
    pub sk: Vec<u8>,
    pub pk: Vec<u8>,
    pub tries: usize,
}
pub fn ntru_gen(key: &[u8], nonce: &[u8]) -> RNtru {
    let mut i = vec![0u8; 81];
    let mut tries = 1;
    loop {
        let r = prng(key, &[nonce, &i], 2048);
        let mut f: P = small(&r[..N]).iter().map(|x| 3 * x).collect();
        f[0] += 1;
        let gg: P = small(&r[N..]).iter().map(|x| 3 * x).collect();
        let (fe, ge) = (evals(&f), evals(&gg));
        if fe.iter().all(|x| *x != 0) && ge.iter().all(|x| *x != 0) {
            let h: P = fe.iter().zip(&ge).map(|(a, b)| pw(*a, Q - 2) * b % Q).collect();
            return RNtru { sk: r[..N].to_vec(), pk: ptrits(&interp(&h)), tries };
        }
        tries += 1;
        for t in i.iter_mut() {
            *t = (*t + 1) % 3;
            if *t != 0 {
                break;
            }
        }
    }
}
pub fn ntru_encr_r(s: &mut RS, pk: &[u8], r: &[u8], k: &[u8]) -> Option<Vec<u8>> {
    let h = pfrom(pk)?;
    let rh = pmul(&small(r), &h);
    s.absorb(&ptrits(&rh));
    s.commit();
    let mut kt = s.encr(k);
    kt.extend(s.squeeze(N - 243));
    Some(ptrits(&padd(&rh, &small(&kt))))
}
pub fn ntru_encr(s: &mut RS, key: &[u8], pk: &[u8], nonce: &[u8], k: &[u8]) -> Option<Vec<u8>> {
    let r = prng(key, &[pk, k, nonce], N);
    ntru_encr_r(s, pk, &r, k)
}
pub fn ntru_decr(s: &mut RS, sk: &[u8], y: &[u8]) -> Option<Vec<u8>> {
    let t = pfrom(y)?;
    let mut f: P = small(sk).iter().map(|x| 3 * x).collect();
    f[0] += 1;
    let r: P = pmul(&f, &t).iter().map(|c| cmod(*c, 3)).collect();
    let rh = psub(&t, &r);
    let kt: Vec<u8> = r.iter().map(|c| c.rem_euclid(3) as u8).collect();
    s.absorb(&ptrits(&rh));
    s.commit();
    let k = s.decr(&kt[..243]);
    if s.squeeze(N - 243) == kt[243..] {
        Some(k)
    } else {
        None
    }
}
pub fn ntru_pk_ok(pk: &[u8]) -> bool {
    match pfrom(pk) {
        Some(p) => invertible(&p),
        None => false,
    }
}

// ---- PB3 codec
pub const SIZE_MAX: u64 = 2_026_277_576_509_488_133;
pub fn size_code(n: u64) -> Vec<u8> {
    let mut d = 0usize;
    let mut m: i128 = 1;
    while n as i128 > (m - 1) / 2 {
        m *= 27;
        d += 1;
    }
    let mut o = unbal(d as i64, 3);
    let mut v = n as i128;
    for _ in 0..d {
        let mut r = v.rem_euclid(27);
        if r > 13 {
            r -= 27;
        }
        o.extend(unbal(r as i64, 3));
        v = (v - r) / 27;
    }
    o
}
pub type Rr<T> = Result<T, &'static str>;
/// reading cursor
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0 }
    }
    pub fn take(&mut self, n: usize) -> Rr<&'a [u8]> {
        if n > self.b.len() - self.pos {
            return Err("eof");
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Md {
    Absorb,
    Mask,
}
thread_local! {
    /// Deviation of a dishonest sender: what to do with the n-th field.
    static TWIST: std::cell::RefCell<Option<(usize, usize, Box<dyn FnMut(&[u8]) -> Vec<u8>>)>> = const { std::cell::RefCell::new(None) };
}
/// Run `f` with its `site`-th encoded field replaced; returns the number of fields.
pub fn with_twist<T>(site: usize, alter: Box<dyn FnMut(&[u8]) -> Vec<u8>>, f: impl FnOnce() -> T) -> (T, usize) {
    TWIST.with(|t| *t.borrow_mut() = Some((0, site, alter)));
    let r = f();
    let n = TWIST.with(|t| t.borrow_mut().take()).map(|t| t.0).unwrap_or(0);
    (r, n)
}
pub fn twist(x: &[u8]) -> Vec<u8> {
    TWIST.with(|t| match t.borrow_mut().as_mut() {
        Some(t) => {
            t.0 += 1;
            if t.0 - 1 == t.1 {
                (t.2)(x)
            } else {
                x.to_vec()
            }
        }
        None => x.to_vec(),
    })
}
pub fn put(md: Md, x: &[u8], s: &mut RS, o: &mut Vec<u8>) {
    let x = &twist(x)[..];
    match md {
        Md::Absorb => {
            s.absorb(x);
            o.extend_from_slice(x);
        }
        Md::Mask => o.extend(s.encr(x)),
    }
}
pub fn get(md: Md, n: usize, s: &mut RS, c: &mut Cur) -> Rr<Vec<u8>> {
    let x = c.take(n)?;
    Ok(match md {
        Md::Absorb => {
            s.absorb(x);
            x.to_vec()
        }
        Md::Mask => s.decr(x),
    })
}
pub fn put_size(md: Md, n: u64, s: &mut RS, o: &mut Vec<u8>) {
    put(md, &size_code(n), s, o)
}
pub fn get_size(md: Md, s: &mut RS, c: &mut Cur) -> Rr<u64> {
    let d = bal(&get(md, 3, s, c)?);
    if !(0..=13).contains(&d) {
        return Err("size head");
    }
    let mut v = 0i128;
    let mut m = 1i128;
    let mut last = 1;
    for _ in 0..d {
        last = bal(&get(md, 3, s, c)?);
        v += m * last as i128;
        m *= 27;
    }
    if d > 0 && last <= 0 {
        return Err("size not minimal");
    }
    if v > SIZE_MAX as i128 || v < 0 {
        return Err("size range");
    }
    Ok(v as u64)
}
pub fn put_trytes(md: Md, x: &[u8], s: &mut RS, o: &mut Vec<u8>) {
    put_size(md, x.len() as u64 / 3, s, o);
    put(md, x, s, o);
}
pub fn get_trytes(md: Md, s: &mut RS, c: &mut Cur) -> Rr<Vec<u8>> {
    let n = get_size(md, s, c)?;
    if n > (c.left() / 3) as u64 {
        return Err("eof");
    }
    get(md, 3 * n as usize, s, c)
}
pub fn put_mac(s: &mut RS, o: &mut Vec<u8>) {
    s.commit();
    o.extend(s.squeeze(243));
}
pub fn get_mac(s: &mut RS, c: &mut Cur) -> Rr<()> {
    let x = c.take(243)?;
    s.commit();
    if s.squeeze(243) == x {
        Ok(())
    } else {
        Err("mac")
    }
}
pub fn mss_hash(s: &mut RS) -> Vec<u8> {
    s.commit();
    s.squeeze(234)
}
pub fn get_sig(hash: &[u8], c: &mut Cur) -> Rr<Vec<u8>> {
    let (pk, n) = mss_recover(hash, &c.b[c.pos..]).ok_or("mssig")?;
    c.pos += n;
    Ok(pk)
}
