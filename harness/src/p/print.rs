//! C19: everything that can be printed is printed, also to an output that fails.
use crate::eng::*;
use crate::msg::*;
use crate::rng::{mix, Rng};
use crate::util::*;
use iota_mam::mss::mt::{APath, TraversableMerkleTree};
use iota_mam::mss::{mtcomplete, mttraversal};
use iota_mam::pb3;
use iota_mam::poly::Poly;
use iota_mam::troika::Troika;
use std::error::Error;
use std::fmt::{self, Debug, Display, Write};

/// takes a number of characters, then fails
struct Full(usize, String);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
/// (what Debug prints may hold addresses: not compared across builds)
fn out(c: &mut Ctx, r: &mut Rng, same: bool, w: &dyn Fn(&mut dyn Write) -> fmt::Result) -> R {
    let mut all = Full(usize::MAX, String::new());
    ck!(w(&mut all).is_ok(), "printing fails");
    if same {
        c.dig(all.1.as_bytes());
    }
    let n = all.1.len();
    if n > 0 {
        let k = r.below(n);
        let mut part = Full(k, String::new());
        let _ = w(&mut part);
    }
    c.ev("objects printed");
    Ok(())
}
fn dbg(c: &mut Ctx, r: &mut Rng, x: &dyn Debug) -> R {
    out(c, r, false, &|w| write!(w, "{:?}", x))?;
    out(c, r, false, &|w| write!(w, "{:#?}", x))
}
fn dsp(c: &mut Ctx, r: &mut Rng, x: &dyn Display) -> R {
    out(c, r, true, &|w| write!(w, "{}", x))?;
    out(c, r, true, &|w| write!(w, "{:>40}", x))
}
fn tree<T: TraversableMerkleTree<u64> + Debug>(c: &mut Ctx, r: &mut Rng) -> R {
    let h = r.below(6);
    let g = |i: usize| mix(i as u64);
    let m = |a: &u64, b: &u64| mix(a ^ b.rotate_left(9));
    let mut t = T::gen(&g, &m, h);
    for _ in 0..=1usize << h {
        dbg(c, r, &t)?;
        if t.skn() < 1 << h {
            dbg(c, r, &t.apath())?;
        }
        t.next(&g, &m);
    }
    Ok(())
}
pub fn print(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = r.tail(300);
    let v = r.trits(n);
    let (a, b) = (r.below(n + 1), r.below(n + 1));
    let (a, b) = (a.min(b), a.max(b));
    dsp(c, r, &sl(&v).take(b).drop(a))?;
    dsp(c, r, &slm(&mut v.clone()).take(b).drop(a))?;
    dsp(c, r, &tr(&v))?;
    dbg(c, r, &sl(&v).take(b).drop(a))?;
    dbg(c, r, &slm(&mut v.clone()).take(b).drop(a))?;
    dbg(c, r, &tr(&v))?;
    let s = lib_state(&gen_pre(r));
    dbg(c, r, &s)?;
    dbg(c, r, &pb3::Trytes(tr(&v)))?;
    dbg(c, r, &pb3::Size(n))?;
    dbg(c, r, &pb3::Trint9(n as i16))?;
    use pb3::Err::*;
    for e in [BadOneOf, BadValue, Eof, InternalError, KeyNotFound, LinkNotFound, MacVerifyFailed, MssVerifyFailed, NtruBadPublicKey, NtruDecrFailed, VersionUnsupported] {
        dsp(c, r, &e)?;
        dbg(c, r, &e)?;
        #[allow(deprecated)]
        let d = e.description();
        ck!(!d.is_empty() && e.source().is_none(), "description of an error");
        let (f, g) = (e, e);
        ck!(f == g, "an error differs from itself");
    }
    let mut t = Troika::default();
    for i in 0..r.below(100) {
        t.set1(7 * i, r.trit());
    }
    dbg(c, r, &t)?;
    let mut p = Poly::new();
    p.small_from_trits(sl(&r.trits(1024)));
    if r.chance(1, 2) {
        p.ntt();
    }
    dbg(c, r, &p)?;
    dsp(c, r, &p)?;
    dbg(c, r, &ntrup(0).pk)?;
    dsp(c, r, &ntrup(0).pk)?;
    dbg(c, r, mssp(0).at[0].public_key())?;
    dsp(c, r, mssp(0).at[0].public_key())?;
    tree::<mtcomplete::MT<u64>>(c, r)?;
    tree::<mttraversal::MT<u64>>(c, r)?;
    let mut ap: APath<u64> = APath::new(3);
    for i in 0..r.below(4) {
        ap.push(i as u64);
    }
    dbg(c, r, &ap)?;
    c.seen_b(&v);
    Ok(())
}
