//! C22 protocols composed of PB3 commands: any sequence of fields and commands, wrapped, unwrapped,
//! altered and truncated, command by command against the model.
use crate::eng::*;
use crate::msg::*;
use crate::rmodel::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, absorb::AbsorbExternal, join, mac, mssig, ntrukem, Absorb, Mask, TrintField};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

pub fn groups() -> Vec<Group> {
    vec![Group { name: "marathon", n: 1, deep: 8, f: crate::p::marathon::fields }, g("program", 420, program), g("heavy", 100, heavy), g("altered", 420, altered), g("cut", 220, cut), g("asym", 160, asym)]
}
#[derive(Clone, Debug)]
enum It {
    /// width, value
    Int(usize, i64),
    Size(u64),
    Repeated(u64),
    OneOf(i64),
    Trytes(Vec<u8>),
    NTrytes(Vec<u8>),
    MssPk(Vec<u8>),
    NtruPk(usize),
}
#[derive(Clone, Debug)]
enum Cmd {
    Field(It, Md, bool),
    /// read without keeping the value
    Skipped(Vec<u8>),
    External(Vec<u8>),
    Commit,
    Mac,
    /// key, tag given from outside, receiver verifies
    Sig(K, Option<Vec<u8>>, bool),
    Kem { n: usize, key: Vec<u8>, nonce: Vec<u8>, prng: Vec<u8> },
    Join(Vec<u8>, Pre),
    /// commands on a fork, the original state goes on
    Fork(Vec<Cmd>),
}
impl std::fmt::Debug for Md {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if *self == Md::Absorb { "absorb" } else { "mask" })
    }
}
struct Ext<'a>(&'a Trits);
impl AbsorbExternal for Ext<'_> {
    fn slice(&self) -> TritSlice<'_> {
        self.0.slice()
    }
}
fn name(c: &Cmd) -> String {
    match c {
        Cmd::Field(i, m, e) => format!(
            "{:?} {}{}",
            m,
            match i {
                It::Int(w, _) => format!("trint{}", w),
                It::Size(n) => format!("size {}", n),
                It::Repeated(n) => format!("repeated {}", n),
                It::OneOf(n) => format!("oneof {}", n),
                It::Trytes(v) => format!("trytes of {} trits", v.len()),
                It::NTrytes(v) => format!("tryte[] of {} trits", v.len()),
                It::MssPk(_) => "mss key".into(),
                It::NtruPk(_) => "ntru key".into(),
            },
            if *e { " (existing object)" } else { "" }
        ),
        Cmd::Skipped(v) => format!("absorb_n {}", v.len()),
        Cmd::External(v) => format!("external {}", v.len()),
        Cmd::Commit => "commit".into(),
        Cmd::Mac => "mac".into(),
        Cmd::Sig(k, t, v) => format!("mssig {:?} own tag {} verify {}", k, t.is_some(), v),
        Cmd::Kem { n, .. } => format!("ntrukem {}", n),
        Cmd::Join(..) => "join".into(),
        Cmd::Fork(v) => format!("fork[{}]", v.iter().map(name).collect::<Vec<_>>().join(", ")),
    }
}
fn names(p: &[Cmd]) -> String {
    p.iter().map(name).collect::<Vec<_>>().join("; ")
}
fn gen_size(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(40) as u64,
        1 => {
            let p = 27u64.pow(r.below(13) as u32);
            ((p - 1) / 2 + r.below(3) as u64).min(SIZE_MAX)
        }
        2 => r.u64() % (SIZE_MAX + 1),
        _ => r.u64() % 27u64.pow(1 + r.below(8) as u32),
    }
}
fn field(r: &mut Rng) -> Cmd {
    let md = if r.chance(1, 2) { Md::Absorb } else { Md::Mask };
    let i = match r.below(10) {
        0 => It::Int(3, r.irange(-13, 13)),
        1 => It::Int(6, r.irange(-364, 364)),
        2 => It::Int(9, r.irange(-9841, 9841)),
        3 => It::Int(18, r.irange(-193_710_244, 193_710_244)),
        4 => It::Size(gen_size(r)),
        5 => {
            if r.chance(1, 2) {
                It::Repeated(gen_size(r))
            } else {
                It::OneOf(r.irange(-13, 13))
            }
        }
        6 => {
            let n = r.tail(300);
            It::Trytes(r.trits(3 * n))
        }
        7 | 8 => {
            let n = if r.chance(1, 2) { 3 * r.tail(200) } else { r.tail(600) };
            It::NTrytes(r.trits(n))
        }
        _ => {
            if r.chance(1, 6) {
                It::NtruPk(r.below(NNTRU))
            } else {
                It::MssPk(r.trits(243))
            }
        }
    };
    Cmd::Field(i, md, r.chance(1, 2))
}
fn cmd(r: &mut Rng, deep: bool) -> Cmd {
    let n = r.size(700);
    match r.below(20) {
        0..=9 => field(r),
        10 => Cmd::Skipped(r.trits(n)),
        11 | 12 => Cmd::External(r.trits(n)),
        13 | 14 => Cmd::Commit,
        15 | 16 => Cmd::Mac,
        17 => Cmd::Join(r.trits(81), {
            let mut p = gen_pre(r);
            p.push(POp::Commit);
            p
        }),
        _ => {
            if deep {
                let n = r.range(0, 4);
                Cmd::Fork((0..n).map(|_| cmd(r, false)).collect())
            } else {
                Cmd::Mac
            }
        }
    }
}
fn asymmetric(r: &mut Rng) -> Cmd {
    if r.chance(1, 2) {
        let i = *r.pick(&[0usize, 1, 2, 3, 0, 1]);
        let k = r.below(mssp(i).at.len());
        Cmd::Sig((i, k), if r.chance(1, 2) { Some(r.trits(234)) } else { None }, r.chance(1, 2))
    } else {
        let n = r.tail(200);
        Cmd::Kem { n: r.below(NNTRU), key: r.trits_biased(243), nonce: r.trits(n), prng: r.trits(243) }
    }
}
fn gen(r: &mut Rng, n: usize, asym: usize) -> Vec<Cmd> {
    let mut p: Vec<Cmd> = (0..n).map(|_| cmd(r, true)).collect();
    for _ in 0..asym {
        let at = r.below(p.len() + 1);
        let c = asymmetric(r);
        if r.chance(1, 4) {
            p.insert(at, Cmd::Fork(vec![c]));
        } else {
            p.insert(at, c);
        }
    }
    p
}
// ---- sizes
fn adv(c: &Cmd) -> usize {
    match c {
        Cmd::Field(i, ..) => match i {
            It::Int(3, _) => <pb3::Trint3 as TrintField>::sizeof(),
            It::Int(6, _) => <pb3::Trint6 as TrintField>::sizeof(),
            It::Int(9, _) => <pb3::Trint9 as TrintField>::sizeof(),
            It::Int(..) => <pb3::Trint18 as TrintField>::sizeof(),
            It::Size(n) => pb3::Size(*n as usize).sizeof(),
            It::Repeated(n) => pb3::sizeof_repeated(*n as usize),
            It::OneOf(_) => pb3::sizeof_oneof(),
            It::Trytes(v) => pb3::sizeof_trytes(v.len() / 3),
            It::NTrytes(v) => v.len(),
            It::MssPk(_) => pb3::sizeof_ntrytes(81),
            It::NtruPk(_) => pb3::sizeof_ntrytes(3072),
        },
        Cmd::Skipped(v) => v.len(),
        Cmd::External(_) | Cmd::Commit => 0,
        Cmd::Mac => mac::sizeof_mac(),
        Cmd::Sig(k, ..) => mssig::sizeof_mssig(&mssp(k.0).at[k.1]),
        Cmd::Kem { .. } => ntrukem::sizeof_ntrukem(),
        Cmd::Join(..) => join::sizeof_join(),
        Cmd::Fork(v) => v.iter().map(adv).sum(),
    }
}
// ---- the crate
fn wrap(c: &Cmd, s: &mut Spongos, b: &mut TritSliceMut) {
    macro_rules! w {
        ($md:expr, $e:expr) => {
            if *$md == Md::Mask {
                $e.wrap_mask(s, b)
            } else {
                $e.wrap_absorb(s, b)
            }
        };
    }
    match c {
        Cmd::Field(i, md, alt) => match i {
            It::Int(3, v) => w!(md, pb3::Trint3(*v as i8)),
            It::Int(6, v) => w!(md, pb3::Trint6(*v as i16)),
            It::Int(9, v) => w!(md, pb3::Trint9(*v as i16)),
            It::Int(_, v) => w!(md, pb3::Trint18(*v as i32)),
            It::Size(v) => w!(md, pb3::Size(*v as usize)),
            It::Repeated(v) => w!(md, pb3::repeated(*v as usize)),
            It::OneOf(v) => w!(md, pb3::oneof(*v as i8)),
            It::Trytes(v) if *alt => match md {
                Md::Mask => pb3::wrap_mask_trytes(&tr(v), s, b),
                Md::Absorb => pb3::wrap_absorb_trytes(&tr(v), s, b),
            },
            It::Trytes(v) => w!(md, pb3::Trytes(tr(v))),
            It::NTrytes(v) if *alt => match md {
                Md::Mask => pb3::wrap_mask_trits(sl(v), s, b),
                Md::Absorb => pb3::wrap_absorb_trits(sl(v), s, b),
            },
            It::NTrytes(v) => w!(md, tr(v)),
            It::MssPk(v) => {
                if let Some(k) = msspk(v) {
                    w!(md, k)
                }
            }
            It::NtruPk(n) => w!(md, ntrup(*n).pk),
        },
        Cmd::Skipped(v) => pb3::wrap_absorb_trits(sl(v), s, b),
        Cmd::External(v) => Ext(&tr(v)).wrap_absorb_external(s),
        Cmd::Commit => s.commit(),
        Cmd::Mac => mac::wrap_mac(s, b),
        Cmd::Sig(k, t, _) => match t {
            Some(t) => mssig::wrap_mssig(sl(t), &mssp(k.0).at[k.1], s, b),
            None => mssig::squeeze_wrap_mssig(&mssp(k.0).at[k.1], s, b),
        },
        Cmd::Kem { n, key, nonce, prng } => ntrukem::wrap_ntrukem(sl(key), &ntrup(*n).pk, &PRNG::init(sl(prng)), sl(nonce), s, b),
        Cmd::Join(id, p) => join::wrap_join(sl(id), &mut lib_state(p), s, b),
        Cmd::Fork(v) => {
            let mut f = s.fork();
            for c in v {
                wrap(c, &mut f, b);
            }
        }
    }
}
fn unwrap(c: &Cmd, s: &mut Spongos, b: &mut TritSlice) -> Result<Vec<Vec<u8>>, String> {
    let e = |e: pb3::Err| format!("{:?}", e);
    macro_rules! u {
        ($md:expr, $alt:expr, $t:ty, $old:expr, $f:expr) => {{
            let r: pb3::Result<$t> = if *$alt {
                let mut x: $t = $old;
                let r = if *$md == Md::Mask { x.unwrap_mask(s, b) } else { x.unwrap_absorb(s, b) };
                r.map(|_| x)
            } else if *$md == Md::Mask {
                <$t>::unwrap_mask_sized(s, b)
            } else {
                <$t>::unwrap_absorb_sized(s, b)
            };
            r.map($f).map_err(e).map(|x| vec![x])
        }};
    }
    let le = |x: i64| x.to_le_bytes().to_vec();
    match c {
        Cmd::Field(i, md, alt) => match i {
            It::Int(3, _) => u!(md, alt, pb3::Trint3, pb3::Trint3(-4), |x| le(x.0 as i64)),
            It::Int(6, _) => u!(md, alt, pb3::Trint6, pb3::Trint6(99), |x| le(x.0 as i64)),
            It::Int(9, _) => u!(md, alt, pb3::Trint9, pb3::Trint9(-1), |x| le(x.0 as i64)),
            It::Int(..) => u!(md, alt, pb3::Trint18, pb3::Trint18(7), |x| le(x.0 as i64)),
            It::OneOf(_) => u!(md, alt, pb3::OneOf, pb3::oneof(1), |x| le(x.0 as i64)),
            It::Size(_) => u!(md, alt, pb3::Size, pb3::Size(5), |x| le(x.0 as i64)),
            It::Repeated(_) => u!(md, alt, pb3::Repeated, pb3::repeated(1 << 40), |x| le(x.0 as i64)),
            It::Trytes(_) => u!(md, alt, pb3::Trytes, pb3::Trytes(Trits::zero(9)), |x| tvt(&x.0)),
            It::NTrytes(v) => {
                let mut x = tr(&vec![1; v.len()]);
                let r = match (md, alt) {
                    (Md::Mask, true) => x.unwrap_mask(s, b),
                    (Md::Absorb, true) => x.unwrap_absorb(s, b),
                    (Md::Mask, false) => pb3::unwrap_mask_trits(x.slice_mut(), s, b),
                    (Md::Absorb, false) => pb3::unwrap_absorb_trits(x.slice_mut(), s, b),
                };
                r.map_err(e).map(|_| vec![tvt(&x)])
            }
            It::MssPk(_) => u!(md, alt, mss::PublicKey, mssp(0).at[0].public_key().clone(), |x| msspk_v(&x)),
            It::NtruPk(n) => u!(md, alt, ntru::PublicKey, ntrup(n + 1).pk.clone(), |x| {
                // the key read is the key used
                let mut y = vec![0; ntru::EKEY_SIZE];
                x.encr_with_s(&mut Spongos::init(), &PRNG::init(sl(&[1; 243])), sl(&[2; 9]), sl(&[0; 243]), slm(&mut y));
                let mut v = ntrupk_v(&x);
                v.extend(y);
                v
            }),
        },
        Cmd::Skipped(v) => pb3::unwrap_absorb_n(v.len(), s, b).map_err(e).map(|_| vec![]),
        Cmd::External(v) => {
            Ext(&tr(v)).unwrap_absorb_external(s);
            Ok(vec![])
        }
        Cmd::Commit => {
            s.commit();
            Ok(vec![])
        }
        Cmd::Mac => mac::unwrap_mac(s, b).map_err(e).map(|_| vec![]),
        Cmd::Sig(k, t, verify) => {
            let pk = mssp(k.0).at[0].public_key();
            match (t, verify) {
                (Some(t), true) => mssig::unwrap_mssig_verify(sl(t), pk, s, b).map_err(e).map(|_| vec![]),
                (None, true) => mssig::squeeze_unwrap_mssig_verify(pk, s, b).map_err(e).map(|_| vec![]),
                (Some(t), false) => mssig::unwrap_mssig_recover(sl(t), s, b).map_err(e).map(|k| vec![msspk_v(&k)]),
                (None, false) => mssig::squeeze_unwrap_mssig_recover(s, b).map_err(e).map(|k| vec![msspk_v(&k)]),
            }
        }
        Cmd::Kem { n, .. } => {
            let mut k = vec![1; 243];
            ntrukem::unwrap_ntrukem(slm(&mut k), &ntrup(*n).sk, s, b).map_err(e).map(|_| vec![k])
        }
        Cmd::Join(id, p) => {
            let l = lib_state(p);
            let f = |i: TritSlice| if tv(i) == *id { Some((l.fork(), 7u64)) } else { None };
            join::unwrap_join(f, s, b).map_err(e).map(|x| vec![x.to_le_bytes().to_vec()])
        }
        Cmd::Fork(v) => {
            let mut f = s.fork();
            let mut o = vec![];
            for c in v {
                o.extend(unwrap(c, &mut f, b)?);
            }
            o.push(fp(&f));
            Ok(o)
        }
    }
}
// ---- the model
fn mwrap(c: &Cmd, s: &mut RS, o: &mut Vec<u8>) {
    match c {
        Cmd::Field(i, md, _) => match i {
            It::Int(w, v) => put(*md, &unbal(*v, *w), s, o),
            It::OneOf(v) => put(*md, &unbal(*v, 3), s, o),
            It::Size(n) | It::Repeated(n) => put_size(*md, *n, s, o),
            It::Trytes(v) => put_trytes(*md, v, s, o),
            It::NTrytes(v) | It::MssPk(v) => put(*md, v, s, o),
            It::NtruPk(n) => put(*md, &ntrup(*n).model().pk, s, o),
        },
        Cmd::Skipped(v) => put(Md::Absorb, v, s, o),
        Cmd::External(v) => s.absorb(v),
        Cmd::Commit => s.commit(),
        Cmd::Mac => put_mac(s, o),
        Cmd::Sig(k, t, _) => {
            let h = match t {
                Some(t) => t.clone(),
                None => mss_hash(s),
            };
            o.extend(mssp(k.0).model().sign(k.1, &h));
        }
        Cmd::Kem { n, key, nonce, prng } => o.extend(ntru_encr(s, prng, &ntrup(*n).model().pk, nonce, key).unwrap_or_default()),
        Cmd::Join(id, p) => {
            s.join(&mut ref_state(p));
            o.extend_from_slice(id);
        }
        Cmd::Fork(v) => {
            let mut f = s.clone();
            for c in v {
                mwrap(c, &mut f, o);
            }
        }
    }
}
fn munwrap(c: &Cmd, s: &mut RS, cur: &mut Cur) -> Rr<Vec<Vec<u8>>> {
    let le = |x: i64| vec![x.to_le_bytes().to_vec()];
    Ok(match c {
        Cmd::Field(i, md, _) => match i {
            It::Int(w, _) => le(bal(&get(*md, *w, s, cur)?)),
            It::OneOf(_) => le(bal(&get(*md, 3, s, cur)?)),
            It::Size(_) | It::Repeated(_) => le(get_size(*md, s, cur)? as i64),
            It::Trytes(_) => vec![get_trytes(*md, s, cur)?],
            It::NTrytes(v) | It::MssPk(v) => vec![get(*md, v.len(), s, cur)?],
            It::NtruPk(_) => {
                let k = get(*md, 9216, s, cur)?;
                if !ntru_pk_ok(&k) {
                    return Err("ntru pk");
                }
                let mut v = k.clone();
                v.extend(ntru_encr(&mut RS::new(), &[1; 243], &k, &[2; 9], &[0; 243]).ok_or("ntru pk")?);
                vec![v]
            }
        },
        Cmd::Skipped(v) => {
            get(Md::Absorb, v.len(), s, cur)?;
            vec![]
        }
        Cmd::External(v) => {
            s.absorb(v);
            vec![]
        }
        Cmd::Commit => {
            s.commit();
            vec![]
        }
        Cmd::Mac => {
            get_mac(s, cur)?;
            vec![]
        }
        Cmd::Sig(k, t, verify) => {
            let h = match t {
                Some(t) => t.clone(),
                None => mss_hash(s),
            };
            let pk = get_sig(&h, cur)?;
            if *verify {
                if pk != mssp(k.0).model().pk() {
                    return Err("sig");
                }
                vec![]
            } else {
                vec![pk]
            }
        }
        Cmd::Kem { n, .. } => {
            let y = cur.take(9216)?;
            vec![ntru_decr(s, &ntrup(*n).model().sk, y).ok_or("ntru")?]
        }
        Cmd::Join(id, p) => {
            let i = cur.take(81)?;
            if i != id {
                return Err("link");
            }
            s.join(&mut ref_state(p));
            vec![7u64.to_le_bytes().to_vec()]
        }
        Cmd::Fork(v) => {
            let mut f = s.clone();
            let mut o = vec![];
            for c in v {
                o.extend(munwrap(c, &mut f, cur)?);
            }
            o.push(rfp(&f));
            o
        }
    })
}
fn wrapped(c: &mut Ctx, r: &mut Rng, pre: &Pre, p: &[Cmd]) -> Result<Vec<u8>, String> {
    let total: usize = p.iter().map(adv).sum();
    let (a, z) = (r.below(20), r.below(20));
    let fill = r.below(3) as u8;
    let mut buf = vec![fill; a + total + z].into_boxed_slice();
    let mut s = lib_state(pre);
    let mut t = ref_state(pre);
    let mut o = vec![];
    {
        let mut b = slm(&mut buf).drop(a).take(total);
        for (i, x) in p.iter().enumerate() {
            let left = b.size();
            wrap(x, &mut s, &mut b);
            ck!(left - b.size() == adv(x), "command {} ({}) of [{}] takes {} trits instead of the advertised {}", i, name(x), names(p), left as isize - b.size() as isize, adv(x));
            mwrap(x, &mut t, &mut o);
            c.ev("commands wrapped");
        }
        ck!(b.size() == 0, "[{}] leaves {} trits", names(p), b.size());
    }
    ck!(buf[..a].iter().chain(&buf[a + total..]).all(|x| *x == fill), "[{}] writes outside of its window", names(p));
    let v = buf[a..a + total].to_vec();
    ck!(v == o, "[{}] is not encoded as documented: {}", names(p), diff_at(&v, &o));
    ck!(fp(&s) == rfp(&t), "state after wrapping [{}] is not the documented one", names(p));
    Ok(v)
}
/// Unwrap `v` as `p`, command by command along with the model; returns the number of commands that succeeded.
fn judged(c: &mut Ctx, r: &mut Rng, pre: &Pre, p: &[Cmd], v: &[u8], what: &str) -> Result<usize, String> {
    let a = r.below(2) * r.below(40);
    let mut heap = r.trits(a);
    heap.extend_from_slice(v);
    let heap = heap.into_boxed_slice();
    let mut b = sl(&heap).drop(a);
    let mut s = lib_state(pre);
    let mut t = ref_state(pre);
    let mut cur = Cur::new(v);
    for (i, x) in p.iter().enumerate() {
        let at = || format!("{}: command {} ({}) of [{}]", what, i, name(x), names(p));
        let got = unwrap(x, &mut s, &mut b);
        let want = munwrap(x, &mut t, &mut cur);
        c.ev("commands unwrapped and judged");
        match (got, want) {
            (Ok(g), Ok(w)) => {
                ck!(g == w, "{}: other value than documented", at());
                ck!(v.len() - b.size() == cur.pos, "{}: position {} instead of {}", at(), v.len() as isize - b.size() as isize, cur.pos);
            }
            (Err(g), Err(e)) => {
                c.ev(e);
                let high = |i: usize| tall(&v[i..]) && i + 18 + 13122 + 243 * 21 <= v.len();
                if !(c.causes && ["sig", "mssig"].contains(&e) && (0..v.len()).any(high)) {
                    c.cause(&g, e, at)?;
                }
                return Ok(i);
            }
            (g, w) => {
                return Err(format!("{}: {}, documented: {}", at(), g.map(|_| "accepted".to_string()).unwrap_or_else(|e| format!("refused ({})", e)), w.map(|_| "accepted").unwrap_or_else(|e| e)));
            }
        }
        if r.chance(1, 4) || i + 1 == p.len() {
            ck!(fp(&s) == rfp(&t), "{}: the state after it is not the documented one", at());
        }
    }
    Ok(p.len())
}
fn tall(b: &[u8]) -> bool {
    b.len() >= 4 && (21..=40).contains(&bal(&b[..4]))
}
/// signature of a height beyond the supported maximum somewhere (its decoding is not asserted)
fn undecided(p: &[Cmd], v: &[u8]) -> bool {
    fn starts(p: &[Cmd], at: &mut usize, o: &mut Vec<usize>) {
        for c in p {
            match c {
                Cmd::Sig(..) => o.push(*at),
                Cmd::Fork(f) => {
                    starts(f, at, o);
                    continue;
                }
                _ => {}
            }
            *at += adv(c);
        }
    }
    let mut o = vec![];
    starts(p, &mut 0, &mut o);
    o.iter().any(|i| *i < v.len() && tall(&v[*i..]))
}
fn roundtrip(c: &mut Ctx, asym: usize) -> R {
    let mut r = c.rng.clone();
    let pre = gen_pre(&mut r);
    let n = r.range(if asym > 0 { 0 } else { 1 }, 12);
    let p = gen(&mut r, n, asym);
    let mut v = wrapped(c, &mut r, &pre, &p)?;
    c.seen_b(&v);
    c.dig(&v);
    // alone or with other data behind it
    if r.chance(1, 2) {
        let z = r.below(600);
        v.extend(r.trits(z));
    }
    let n = judged(c, &mut r, &pre, &p, &v, "unwrapping")?;
    ck!(n == p.len(), "[{}]: own encoding refused at command {}", names(&p), n);
    c.ev("programs recovered");
    Ok(())
}
fn program(c: &mut Ctx) -> R {
    roundtrip(c, 0)
}
fn heavy(c: &mut Ctx) -> R {
    roundtrip(c, 1 + c.idx % 3)
}
pub fn altered(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let pre = gen_pre(&mut r);
    let n = r.range(1, 10);
    let p = gen(&mut r, n, 0);
    let v = wrapped(c, &mut r, &pre, &p)?;
    for k in 0..8 {
        let mut w = v.clone();
        let mut q = p.clone();
        let mut start = pre.clone();
        match k {
            0..=3 if !w.is_empty() => {
                let i = r.below(w.len());
                w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
            }
            6 | 7 => {
                mangle(&mut r, &mut w);
            }
            4 => {
                // the receiver expects another program
                let i = r.below(q.len());
                let x = cmd(&mut r, false);
                if r.chance(1, 2) {
                    q[i] = x;
                } else {
                    q.insert(i, x);
                }
            }
            _ => start = gen_pre(&mut r),
        }
        judged(c, &mut r, &start, &q, &w, "altered message")?;
        c.seen_b(&w);
    }
    Ok(())
}
pub fn cut(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let pre = gen_pre(&mut r);
    let n = r.range(1, 8);
    let asym = (c.idx % 8 == 0) as usize;
    let p = gen(&mut r, n, asym);
    let v = wrapped(c, &mut r, &pre, &p)?;
    let mut ends = vec![0usize];
    for x in &p {
        ends.push(ends[ends.len() - 1] + adv(x));
    }
    for k in 0..8 {
        let e = ends[r.below(ends.len())];
        let m = match k {
            0 => e,
            1 => e.saturating_sub(1),
            2 => e + 1,
            3 => v.len().saturating_sub(1),
            _ => r.below(v.len() + 1),
        }
        .min(v.len());
        if undecided(&p, &v[..m]) {
            continue;
        }
        let n = judged(c, &mut r, &pre, &p, &v[..m], "truncated message")?;
        // every command before the cut still works
        let done = (1..ends.len()).filter(|i| ends[*i] <= m).count();
        ck!(n >= done.min(p.len()), "[{}] cut to {} trits: only {} of {} complete commands accepted", names(&p), m, n, done);
        c.seen_b(&v[..m]);
    }
    Ok(())
}
/// Alterations of signatures and capsules within a protocol.
pub fn asym(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let pre = gen_pre(&mut r);
    let mut p = gen(&mut r, 2, 1);
    p.push(Cmd::Mac);
    let v = wrapped(c, &mut r, &pre, &p)?;
    for _ in 0..2 {
        let mut w = v.clone();
        let i = r.below(w.len());
        w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
        if undecided(&p, &w) {
            continue;
        }
        judged(c, &mut r, &pre, &p, &w, "altered message")?;
        c.seen_b(&w);
    }
    Ok(())
}
