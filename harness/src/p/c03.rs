//! C03 hostile input. Oracles: no panic/abort/hang (engine), sanitizers, allocator peak, and the
//! accept set, content and state of the independent decoder.
use crate::eng::*;
use crate::msg::*;
use crate::p::c02::gen_link;
use crate::rmodel::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::spongos::Spongos;
use iota_mam::trits::TritSlice;

pub fn groups() -> Vec<Group> {
    vec![
        g("mutated", 420, mutated),
        g("crafted", 600, crafted),
        g("random", 700, random),
        g("truncated", 300, truncated),
        g("fields", 900, fields),
        g("keyload", 200, keyload),
        g("sighead", 60, sighead),
        g("tags", 54, tags),
        g("twisted", 520, twisted),
        g("growth", 8, growth),
    ]
}
/// Does the string carry a signature of a height beyond the supported maximum?
fn tall(b: &[u8]) -> bool {
    b.len() >= 4 && (21..=40).contains(&bal(&b[..4]))
}
pub fn judge(c: &mut Ctx, r: &mut Rng, rx: &Rx, p0: &Pre, pl: &Pre, v: &[u8], what: &str) -> R {
    let l0 = lib_state(pl);
    let mut s = lib_state(p0);
    let k = match &rx.want {
        Want::Header { .. } => "header",
        Want::Announce => "announce",
        Want::ChangeKey { .. } => "change_key",
        Want::Keyload { .. } => "keyload",
        Want::SignedRecover | Want::SignedVerify { .. } => "signed_packet",
        Want::Tagged => "tagged_packet",
        Want::Subscribe { .. } => "subscribe",
        Want::Unsubscribe { .. } => "unsubscribe",
    };
    if c.causes {
        ASKED.with(|a| *a.borrow_mut() = Some(Vec::with_capacity(4)));
    }
    let (got, mem) = peak(|| lib_unwrap_exact(rx, &mut s, &l0, v));
    let asked = ASKED.with(|a| a.borrow_mut().take());
    let at = || format!("{} unwrapping {} ({} trits: {})", k, what, v.len(), hexs(v));
    let limit = 64 * v.len() + (512 << 10);
    ck!(mem <= limit, "{}: allocated {} bytes for an input of {} trits", at(), mem, v.len());
    ck!(got.used <= v.len(), "{}: read position {} beyond the input", at(), got.used as isize);
    ck!(!got.dirty, "{}: the input buffer was modified", at());
    let mut s2 = lib_state(p0);
    let emb = lib_unwrap_embedded(rx, &mut s2, &l0, v, r);
    ck!(!emb.dirty, "{}: the input buffer was modified", at());
    ck!(
        emb.res.is_ok() == got.res.is_ok(),
        "{}: result depends on memory outside the input: {:?} / {:?}",
        at(),
        got.res.as_ref().map(|_| ()),
        emb.res.as_ref().map(|_| ())
    );
    // independent decoder
    let mut t = ref_state(p0);
    let tl = ref_state(pl);
    let mut cur = Cur::new(v);
    let want = ref_unwrap(rx, &mut t, &tl, &mut cur);
    c.ev(k);
    match (&got.res, &want) {
        (Ok(a), Ok(b)) => {
            ck!(a == b, "{}: content differs from the documented format", at());
            ck!(got.used == cur.pos, "{}: consumed {} instead of {}", at(), got.used, cur.pos);
            ck!(emb.res.as_ref().ok() == Some(b), "{}: content depends on memory outside the input", at());
            let (x, y) = (fp(&s), rfp(&t));
            ck!(x == y, "{}: state differs from the documented format", at());
            ck!(fp(&s2) == x, "{}: state depends on memory outside the input", at());
            c.ev("accepted by both");
            c.dig(&x);
        }
        (Err(g), Err(e)) => {
            c.ev("refused by both");
            c.ev(*e);
            if c.causes {
                ck!(emb.res.as_ref().err() == Some(g), "{}: refused with {} alone and {:?} with other data behind", at(), g, emb.res.as_ref().err());
                if ["sig", "linked sig", "mssig"].contains(e) && (0..v.len()).any(|i| tall(&v[i..])) && has_tall_anywhere(rx, p0, pl, v) {
                    c.ev("signature taller than the maximum (not judged)");
                } else {
                    c.cause(g, e, at)?;
                }
            }
        }
        (Ok(_), Err(e)) => return Err(format!("{}: accepted, but the format refuses it ({})", at(), e)),
        (Err(e), Ok(_)) => {
            // heights above the documented maximum: left open
            if (0..v.len()).any(|i| i + 18 + 13122 <= v.len() && tall(&v[i..])) && want_has_sig(rx) && has_tall(rx, p0, pl, v) {
                c.ev("signature taller than the maximum (not judged)");
            } else {
                return Err(format!("{}: refused ({}), but the format accepts it", at(), e));
            }
        }
    }
    if let Some(a) = asked {
        let linked = !matches!(rx.want, Want::Header { .. } | Want::Announce);
        let id = if linked && v.len() >= 81 { Some(&v[..81]) } else { None };
        ck!(a.iter().all(|x| Some(&x[..]) == id), "{}: the lookup was asked for a link the message does not carry", at());
        ck!(a.len() == id.is_some() as usize, "{}: the lookup was asked {} times", at(), a.len());
        c.ev("lookups recorded");
    }
    c.seen_b(v);
    Ok(())
}
/// Is a signature that the parse meets taller than the supported maximum?
fn has_tall_anywhere(rx: &Rx, p0: &Pre, pl: &Pre, v: &[u8]) -> bool {
    let mut t = ref_state(p0);
    let tl = ref_state(pl);
    let mut cur = Cur::new(v);
    let _ = ref_unwrap(rx, &mut t, &tl, &mut cur);
    // the parse ends before, within or behind it
    tall(&v[cur.pos.min(v.len())..])
        || (21..=40usize).any(|h| {
            let n = 18 + 13122 + 243 * h;
            cur.pos >= n && bal(&v[cur.pos - n..cur.pos - n + 4]) == h as i64
        })
}
fn want_has_sig(rx: &Rx) -> bool {
    matches!(rx.want, Want::Announce | Want::ChangeKey { .. } | Want::SignedRecover | Want::SignedVerify { .. })
}
/// Does the accepting parse use a signature taller than the supported maximum?
fn has_tall(rx: &Rx, p0: &Pre, pl: &Pre, v: &[u8]) -> bool {
    let mut t = ref_state(p0);
    let tl = ref_state(pl);
    let mut cur = Cur::new(v);
    let _ = ref_unwrap(rx, &mut t, &tl, &mut cur);
    // a signature ends where the parse ends
    (21..=40usize).any(|h| {
        let n = 18 + 13122 + 243 * h;
        cur.pos >= n && bal(&v[cur.pos - n..cur.pos - n + 4]) == h as i64
    })
}
pub fn genuine(r: &mut Rng, kind: usize) -> Result<(Body, Rx, Pre, Pre, Vec<u8>), String> {
    let id = r.trits(81);
    let m = match kind {
        4 => Body::Signed { id, public: payload(r, 60), masked: payload(r, 60), k: rk(r) },
        5 => Body::Tagged { id, public: payload(r, 60), masked: payload(r, 60) },
        _ => gen_body(r, kind),
    };
    let (p0, pl) = (gen_pre(r), gen_link(r));
    let v = lib_wrap(&m, &mut lib_state(&p0), &mut lib_state(&pl), (0, 0), 0)?;
    let rx = honest(r, &m);
    Ok((m, rx, p0, pl, v))
}
pub fn mutated(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (_, rx, p0, pl, v) = genuine(&mut r, c.idx % KINDS)?;
    let mut w = v.clone();
    for _ in 0..r.range(0, 3) {
        let n = w.len();
        if n == 0 {
            break;
        }
        match r.below(6) {
            5 => {
                mangle(&mut r, &mut w);
            }
            0 => {
                let i = r.below(n);
                w[i] = r.trit();
            }
            1 => {
                let i = r.below(n.min(120));
                w[i] = r.trit();
            }
            2 => {
                let i = r.below(n);
                let k = r.size(300);
                let x = r.trits_biased(k);
                w.splice(i..i, x);
            }
            3 => {
                let i = r.below(n);
                let k = r.size(300).min(n - i);
                w.drain(i..i + k);
            }
            _ => {
                let i = r.below(n);
                let k = r.size(300).min(n - i);
                let x = r.trits_biased(k);
                w[i..i + k].copy_from_slice(&x);
            }
        }
    }
    judge(c, &mut r, &rx, &p0, &pl, &w, "a mutated message")
}
pub fn truncated(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let (m, rx, p0, pl, v) = genuine(&mut r, kind)?;
    // the ends of fields are the interesting cuts
    let mut cuts = vec![0, 1, 2, 3, 80, 81, 82, 83, 84, 87, 242, 243, 246, 324, 9297, 9216 + 81 + 243];
    if v.len() > 243 {
        cuts.push(v.len() - 243);
    }
    if let Body::Announce { k, .. } | Body::Signed { k, .. } | Body::ChangeKey { k, .. } = &m {
        let n = v.len() - iota_mam::mss::sig_size(mssp(k.0).height);
        cuts.extend([n, n + 4, n + 17, n + 18, n + 13140]);
    }
    for _ in 0..4 {
        let base = if r.chance(2, 3) { *r.pick(&cuts) } else { r.below(v.len() + 1) };
        let cut = (base + r.below(5)).saturating_sub(2).min(v.len());
        judge(c, &mut r, &rx, &p0, &pl, &v[..cut], "a truncated message")?;
    }
    Ok(())
}
pub fn random(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = gen_body(&mut r, kind);
    let mut rx = honest(&mut r, &m);
    if r.chance(2, 3) {
        rx.id = None;
    }
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let n = match r.below(4) {
        0 => r.below(20),
        1 => r.size(1500),
        2 => r.size(40000),
        _ => r.below(400),
    };
    let v = if r.chance(1, 2) { r.trits(n) } else { r.trits_biased(n) };
    judge(c, &mut r, &rx, &p0, &pl, &v, "random trits")
}
/// A size codeword: genuine, huge, not minimal, negative, too long.
pub fn odd_size(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => {
            let n = r.below(40) as u64;
            size_code(n)
        }
        1 => size_code(r.u64() >> r.range(3, 63)).to_vec(),
        2 => size_code(SIZE_MAX),
        3 => size_code(*r.pick(&[13, 14, 364, 365, 9841, 9842, 1 << 20, 1 << 32, 1 << 40, SIZE_MAX - 1, SIZE_MAX / 3, SIZE_MAX / 3 + 1])),
        4 => {
            // not minimal: leading zero tryte
            let n = r.below(300) as u64;
            let mut s = size_code(n);
            let d = bal(&s[..3]) + 1;
            s[..3].copy_from_slice(&unbal(d, 3));
            s.extend([0, 0, 0]);
            s
        }
        5 => {
            // negative value
            let d = r.range(1, 13);
            let mut s = unbal(d as i64, 3);
            for _ in 1..d {
                s.extend(r.trits(3));
            }
            s.extend(unbal(-r.irange(1, 13), 3));
            s
        }
        6 => unbal(-r.irange(1, 13), 3),
        7 => {
            let d = r.range(0, 13);
            let mut s = unbal(d as i64, 3);
            s.extend(r.trits(3 * d));
            s
        }
        8 => {
            let d = r.range(1, 13);
            let mut s = unbal(d as i64, 3);
            s.extend(vec![1; 3 * d]);
            s
        }
        _ => {
            let d = r.range(1, 13);
            let mut s = unbal(d as i64, 3);
            s.extend(r.trits(3 * d - 1));
            s
        }
    }
}
/// Strings that follow the grammar up to a point.
pub fn crafted(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = [0usize, 3, 4, 5, 1, 2, 6, 7][c.idx % 8];
    let m = gen_body(&mut r, kind);
    let mut rx = honest(&mut r, &m);
    rx.id = None;
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let mut t = ref_state(&p0);
    let mut tl = ref_state(&pl);
    let mut v = vec![];
    let absorb = |t: &mut RS, v: &mut Vec<u8>, x: &[u8]| put(Md::Absorb, x, t, v);
    match kind {
        0 => {
            let ver = if r.chance(3, 4) { unbal(1, 3) } else { r.trits(3) };
            absorb(&mut t, &mut v, &ver);
            let x = odd_size(&mut r);
            absorb(&mut t, &mut v, &x);
        }
        1 => {
            let pk = r.trits(243);
            absorb(&mut t, &mut v, &pk);
            let o = r.trits(3);
            absorb(&mut t, &mut v, &o);
            if r.chance(1, 2) {
                let n = match r.below(3) {
                    0 => ntrup(0).pkt.clone(),
                    1 => r.trits(9216),
                    _ => vec![0; 9216],
                };
                absorb(&mut t, &mut v, &n);
            }
            forge_sig(&mut r, &mut t, &mut v, None);
        }
        2 => {
            v.extend(r.trits(81));
            t.join(&mut tl);
            let pk = r.trits(243);
            absorb(&mut t, &mut v, &pk);
            let n = forge_sig(&mut r, &mut t, &mut v, None);
            if r.chance(1, 2) {
                let h = n.clone();
                v.extend(h);
            }
        }
        3 => {
            v.extend(r.trits(81));
            t.join(&mut tl);
            let x = r.trits(81);
            absorb(&mut t, &mut v, &x);
            let x = odd_size(&mut r);
            absorb(&mut t, &mut v, &x);
            if r.chance(1, 2) {
                let k = r.below(4);
                v.extend(r.trits(324 * k));
                let x = odd_size(&mut r);
                absorb(&mut t, &mut v, &x);
            }
        }
        4 | 5 => {
            v.extend(r.trits(81));
            t.join(&mut tl);
            if r.chance(1, 2) {
                let x = odd_size(&mut r);
                absorb(&mut t, &mut v, &x);
            } else {
                let k = r.below(30);
                let p = r.trits(3 * k);
                put_trytes(Md::Absorb, &p, &mut t, &mut v);
                let x = odd_size(&mut r);
                let masked = t.encr(&x);
                v.extend(masked);
                if r.chance(1, 2) {
                    // complete it so that the decoder can reach the end
                    let k = (bal(&x[..3]) == 0) as usize;
                    if k == 1 && kind == 4 {
                        forge_sig(&mut r, &mut t, &mut v, None);
                    } else if k == 1 {
                        put_mac(&mut t, &mut v);
                    }
                }
            }
        }
        _ => {
            v.extend(r.trits(81));
        }
    }
    let n = match r.below(5) {
        0 => 0,
        1 => r.below(4),
        2 => r.size(20000),
        _ => r.size(900),
    };
    if r.chance(1, 2) {
        v.extend(r.trits(n));
    } else {
        v.extend(vec![*r.pick(&[0u8, 0, 1, 2]); n]);
    }
    judge(c, &mut r, &rx, &p0, &pl, &v, "a crafted string")
}
/// A syntactically valid signature (any key recovers from it), with odd height / key number.
pub fn forge_sig(r: &mut Rng, t: &mut RS, v: &mut Vec<u8>, h: Option<usize>) -> Vec<u8> {
    let _ = mss_hash(t);
    let h = h.unwrap_or_else(|| match r.below(4) {
        0 => r.below(21),
        1 => r.range(19, 20),
        2 => r.below(3),
        _ => r.below(41),
    });
    let k = match r.below(6) {
        0 => 0,
        1 => (1i64 << h) - 1,
        2 => 1i64 << h,
        3 => -1,
        4 => r.irange(-2391484, 2391484),
        _ => r.below(1 << h.min(20)) as i64,
    };
    let mut s = unbal(h as i64, 4);
    if r.chance(1, 12) {
        s = unbal(-r.irange(1, 40), 4);
    }
    s.extend(unbal(k, 14));
    let n = match r.below(6) {
        0 => r.below(13140),
        1 => 13122 + 243 * h.saturating_sub(1),
        2 => 13122 + 243 * h + r.below(300),
        3 => (13122 + 243 * h).saturating_sub(r.below(3)),
        _ => 13122 + 243 * h,
    };
    s.extend(r.trits(n));
    v.extend_from_slice(&s);
    s
}
pub fn sighead(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let mut t = ref_state(&p0);
    t.join(&mut ref_state(&pl));
    let mut v = r.trits(81);
    let (p, q) = (payload(&mut r, 20), payload(&mut r, 20));
    put_trytes(Md::Absorb, &p, &mut t, &mut v);
    put_trytes(Md::Mask, &q, &mut t, &mut v);
    let h = c.idx % 42;
    forge_sig(&mut r, &mut t, &mut v, Some(h));
    let rx = Rx { want: Want::SignedRecover, id: None };
    judge(c, &mut r, &rx, &p0, &pl, &v, "a forged signature")
}
/// Keyloads with wrong counts, missing entries, entries of the receiver in odd places.
/// A declared number of entries: the actual one, another small one, or one whose product with the size of
/// an entry is close to a power of two, or the largest one.
fn count(r: &mut Rng, n: usize, extreme: bool, entry: u64) -> u64 {
    const MAX: u64 = 2_026_277_576_509_488_133;
    if !extreme {
        return if r.chance(2, 3) { n as u64 } else { r.below(20) as u64 };
    }
    let k = *r.pick(&[16u32, 31, 32, 33, 62, 63, 64, 65, 66, 67, 68]);
    let v = (((1u128 << k) / entry as u128) as u64).saturating_add(r.below(2 * n + 3) as u64);
    match r.below(4) {
        0 => MAX - r.below(n + 2) as u64,
        1 => u64::MAX / entry - r.below(2) as u64 + r.below(n + 3) as u64,
        _ => v.min(MAX),
    }
}
pub fn keyload(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let mut t = ref_state(&p0);
    t.join(&mut ref_state(&pl));
    let mut v = r.trits(81);
    let nonce = r.trits(81);
    put(Md::Absorb, &nonce, &mut t, &mut v);
    let np = r.below(4);
    let mine = (r.trits(81), r.trits(243));
    let extreme = c.idx % 3 == 0;
    let np = if extreme { np.max(1) } else { np };
    let say = count(&mut r, np, extreme, 324);
    put_size(Md::Absorb, say, &mut t, &mut v);
    for _ in 0..np {
        let mut f = t.clone();
        if r.chance(1, if extreme { 1 } else { 3 }) {
            put(Md::Absorb, &mine.0, &mut f, &mut v);
            f.absorb(&mine.1);
            f.commit();
            let k = r.trits(243);
            put(Md::Mask, &k, &mut f, &mut v);
        } else {
            v.extend(r.trits(324));
        }
    }
    let nn = r.below(3);
    let say = count(&mut r, nn, c.idx % 4 == 0, 9297);
    put_size(Md::Absorb, say, &mut t, &mut v);
    for _ in 0..nn {
        let mut f = t.clone();
        let k = ntrup(r.below(3));
        put(Md::Absorb, &k.id(), &mut f, &mut v);
        match r.below(3) {
            0 => v.extend(r.trits(9216)),
            1 => v.extend(r.trits_biased(9216)),
            _ => {
                let x = r.trits(243);
                if let Some(e) = ntru_encr(&mut f, &x, &k.model().pk, &nonce, &x) {
                    v.extend(e);
                }
            }
        }
    }
    let cut = if r.chance(1, 3) { r.below(v.len() + 1) } else { v.len() };
    v.truncate(cut);
    let psks = if r.chance(2, 3) { vec![mine] } else { vec![] };
    let ntrus = if r.chance(2, 3) { (0..2).map(|i| (ntrup(i).id(), i)).collect() } else { vec![] };
    let rx = Rx { want: Want::Keyload { psks, ntrus }, id: None };
    judge(c, &mut r, &rx, &p0, &pl, &v, "a malformed keyload")
}
/// A polynomial with one coefficient at or beyond the limits, or one that is not invertible.
pub fn odd_poly(r: &mut Rng, x: &[u8]) -> Vec<u8> {
    let mut y = x.to_vec();
    match r.below(8) {
        0 => return vec![0; 9216],
        1 => {
            // f(x) = x - g^k vanishes at a root of x^1024+1
            let g = gamma_pows();
            let mut p = [0i64; 1024];
            p[0] = -g[2 * r.below(1024) + 1];
            p[1] = 1;
            return ptrits(&p.map(|c| cmod(c, 12289)));
        }
        2 => {
            // the same residue, out of range
            let i = r.below(1024);
            for j in 0..1024 {
                let k = (i + j) % 1024;
                let c = bal(&y[9 * k..9 * k + 9]);
                let d = if c > 0 { c - 12289 } else { c + 12289 };
                if d.abs() <= 9841 {
                    y[9 * k..9 * k + 9].copy_from_slice(&unbal(d, 9));
                    break;
                }
            }
        }
        3 => {
            let i = *r.pick(&[0usize, 1, 511, 512, 1022, 1023]);
            y[9 * i..9 * i + 9].copy_from_slice(&unbal(if r.chance(1, 2) { 6145 } else { -6145 }, 9));
        }
        _ => {
            let i = r.below(1024);
            let v = *r.pick(&[6143i64, 6144, 6145, 6146, 9841, 0, 1]) * if r.chance(1, 2) { 1 } else { -1 };
            y[9 * i..9 * i + 9].copy_from_slice(&unbal(v, 9));
        }
    }
    y
}
/// What a dishonest sender may put instead of a field.
fn alter(r: &mut Rng, x: &[u8]) -> Vec<u8> {
    match x.len() {
        9216 => odd_poly(r, x),
        n if n >= 13140 => {
            // signature: odd head, or cut, or extended
            let mut y = x.to_vec();
            match r.below(5) {
                0 => {
                    let h = r.irange(-40, 40);
                    y[..4].copy_from_slice(&unbal(h, 4));
                }
                1 => {
                    let h = bal(&y[..4]);
                    let k = *r.pick(&[-1, 1 << h, (1 << h) + bal(&y[4..18]), -bal(&y[4..18]), 2391484, -2391484]);
                    y[4..18].copy_from_slice(&unbal(k, 14));
                }
                2 => {
                    let k = r.below(400);
                    y.truncate(n - k);
                }
                3 => {
                    let i = r.below(18);
                    y[i] = (y[i] + 1) % 3;
                }
                _ => {
                    let i = r.below(n);
                    y[i] = (y[i] + 1) % 3;
                }
            }
            y
        }
        3 => r.trits(3),
        n if (3..=42).contains(&n) && bal(&x[..3]) * 3 + 3 == n as i64 => odd_size(r),
        n => match r.below(4) {
            0 => r.trits(n),
            1 => vec![*r.pick(&[0u8, 1, 2]); n],
            2 => x[..r.below(n + 1)].to_vec(),
            _ => {
                let k = r.below(10);
                let mut y = x.to_vec();
                y.extend(r.trits(k));
                y
            }
        },
    }
}
/// A sender that follows the protocol with one field replaced: the state, the signature and the
/// MAC are consistent with what it sent.
pub fn twisted(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = match kind {
        4 => Body::Signed { id: r.trits(81), public: payload(&mut r, 60), masked: payload(&mut r, 60), k: rk(&mut r) },
        5 => Body::Tagged { id: r.trits(81), public: payload(&mut r, 60), masked: payload(&mut r, 60) },
        3 => {
            let (a, b) = (r.below(3), r.range(0, 2));
            gen_keyload(&mut r, if b == 0 { a.max(1) } else { a }, b)
        }
        k => gen_body(&mut r, k),
    };
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let rx = honest(&mut r, &m);
    let run = |site: usize, alt: Box<dyn FnMut(&[u8]) -> Vec<u8>>| {
        with_twist(site, alt, || ref_wrap(&m, &mut ref_state(&p0), &mut ref_state(&pl)))
    };
    let (_, n) = run(usize::MAX, Box::new(|x| x.to_vec()));
    let site = if n == 0 { 0 } else { (c.idx / KINDS) % n };
    let mut q = Rng::new(r.u64());
    let (v, _) = run(site, Box::new(move |x| alter(&mut q, x)));
    let v = v.ok_or("model cannot wrap")?;
    judge(c, &mut r, &rx, &p0, &pl, &v, &format!("a message with field {} of {} replaced", site, n))
}
/// Every value of the one-tryte fields (version, presence of an optional field) in messages that
/// are genuine otherwise.
pub fn tags(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let v = c.idx as i64 % 27 - 13;
    let m = gen_body(&mut r, c.idx / 27);
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let rx = honest(&mut r, &m);
    for alt in 0..2 {
        // with and without the optional part
        let m = match &m {
            Body::Announce { k, .. } => Body::Announce { k: *k, ntru: if alt == 0 { None } else { Some(1) } },
            m => m.clone(),
        };
        let site = c.idx / 27; // header: field 0, announce: field 1
        let f = Box::new(move |_: &[u8]| unbal(v, 3));
        let (w, _) = with_twist(site, f, || ref_wrap(&m, &mut ref_state(&p0), &mut ref_state(&pl)));
        judge(c, &mut r, &rx, &p0, &pl, &w.ok_or("model cannot wrap")?, &format!("a message with a tag of {}", v))?;
    }
    Ok(())
}
/// Single fields from hostile strings, both encodings, against the decoder of the model.
pub fn fields(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p0 = gen_pre(&mut r);
    let mask = r.chance(1, 2);
    let md = if mask { Md::Mask } else { Md::Absorb };
    let mut v = match r.below(4) {
        0 => {
            let n = r.below(60);
            r.trits_biased(n)
        }
        1 => {
            let n = r.size(10000);
            r.trits(n)
        }
        _ if c.idx % 10 == 9 => odd_poly(&mut r, &ntrup(c.idx).pkt),
        _ => odd_size(&mut r),
    };
    let n = r.below(3) * r.below(200);
    v.extend(r.trits(n));
    if mask && r.chance(3, 4) {
        // so that the decrypted text is the crafted one
        v = ref_state(&p0).encr(&v);
    }
    let heap = v.clone().into_boxed_slice();
    let f = c.idx % 10;
    let mut s = lib_state(&p0);
    let mut b = sl(&heap);
    let mut t = ref_state(&p0);
    let mut cur = Cur::new(&v);
    macro_rules! un {
        ($t:ty) => {
            if mask {
                <$t>::unwrap_mask_sized(&mut s, &mut b)
            } else {
                <$t>::unwrap_absorb_sized(&mut s, &mut b)
            }
        };
    }
    let ((lib, model, name), mem) = peak(|| -> (Result<Vec<u8>, String>, Rr<Vec<u8>>, &'static str) {
        let e = |e: pb3::Err| format!("{:?}", e);
        match f {
            0 | 1 | 2 => (
                un!(pb3::Size).map(|x| size_code(x.0 as u64)).map_err(e),
                get_size(md, &mut t, &mut cur).map(size_code),
                "size",
            ),
            3 | 4 => (un!(pb3::Trytes).map(|x| tvt(&x.0)).map_err(e), get_trytes(md, &mut t, &mut cur), "trytes"),
            5 => (un!(pb3::Trint3).map(|x| unbal(x.0 as i64, 3)).map_err(e), get(md, 3, &mut t, &mut cur), "trint3"),
            6 => (un!(pb3::Trint6).map(|x| unbal(x.0 as i64, 6)).map_err(e), get(md, 6, &mut t, &mut cur), "trint6"),
            7 => (un!(pb3::Trint9).map(|x| unbal(x.0 as i64, 9)).map_err(e), get(md, 9, &mut t, &mut cur), "trint9"),
            8 => (un!(pb3::Trint18).map(|x| unbal(x.0 as i64, 18)).map_err(e), get(md, 18, &mut t, &mut cur), "trint18"),
            _ => {
                if c.idx % 20 == 9 {
                    (un!(iota_mam::mss::PublicKey).map(|x| msspk_v(&x)).map_err(e), get(md, 243, &mut t, &mut cur), "mss key")
                } else {
                    let m = get(md, 9216, &mut t, &mut cur);
                    let m = m.and_then(|p| if ntru_pk_ok(&p) { Ok(p) } else { Err("ntru pk") });
                    (un!(iota_mam::ntru::PublicKey).map(|x| ntrupk_v(&x)).map_err(e), m, "ntru key")
                }
            }
        }
    });
    let at = || format!("{} {} from {} trits {}", if mask { "unmasking" } else { "absorbing" }, name, v.len(), hexs(&v));
    ck!(mem <= 64 * v.len() + (512 << 10), "{}: allocated {} bytes", at(), mem);
    ck!(heap[..] == v[..], "{}: input modified", at());
    c.ev(name);
    match (&lib, &model) {
        (Ok(a), Ok(b2)) => {
            ck!(a == b2, "{}: value differs from the documented encoding", at());
            ck!(v.len() - b.size() == cur.pos, "{}: consumed {} instead of {}", at(), v.len() - b.size(), cur.pos);
            ck!(fp(&s) == rfp(&t), "{}: state differs", at());
            c.ev("accepted by both");
        }
        (Err(g), Err(e)) => {
            c.ev("refused by both");
            c.ev(*e);
            c.cause(g, e, at)?;
        }
        (Ok(_), Err(e)) => return Err(format!("{}: accepted, but the encoding refuses it ({})", at(), e)),
        (Err(e), Ok(_)) => return Err(format!("{}: refused ({}), but the encoding accepts it", at(), e)),
    }
    c.seen(crate::rng::fnv(&v) ^ f as u64);
    let _ = Spongos::init();
    Ok(())
}

/// CPU time of this thread in seconds.
fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    if r != 0 {
        return 0.0;
    }
    t.0 as f64 + t.1 as f64 * 1e-9
}
const GROW: [&str; 8] = [
    "a keyload for other pre-shared keys",
    "a keyload whose last entry is the receiver's",
    "a keyload for other NTRU keys",
    "a tagged packet",
    "a tagged packet that was altered",
    "a signed packet for another key",
    "an announce followed by other data",
    "a keyload cut in its list",
];
fn grown(r: &mut Rng, kind: usize, n: usize) -> Result<(Rx, Vec<u8>), String> {
    let id = r.trits(81);
    let wrap = |m: &Body| lib_wrap(m, &mut Spongos::init(), &mut Spongos::init(), (0, 0), 0);
    let kl = |r: &mut Rng, n: usize| Body::Keyload {
        id: id.clone(),
        nonce: r.trits(81),
        psks: (0..n).map(|_| (r.trits(81), vec![1; 243])).collect(),
        ntrus: vec![],
        prng: r.trits(243),
        key: r.trits(243),
    };
    let (want, v) = match kind {
        0 | 1 | 7 => {
            let m = kl(r, n);
            let mut v = wrap(&m)?;
            let last = match &m {
                Body::Keyload { psks, .. } => psks[n - 1].clone(),
                _ => unreachable!(),
            };
            if kind == 7 {
                let cut = v.len() - 3 - 1 - r.below(300);
                v.truncate(cut);
            }
            let psks = if kind == 1 { vec![last] } else { vec![(r.trits(81), r.trits(243))] };
            (Want::Keyload { psks, ntrus: vec![] }, v)
        }
        2 => {
            let n = (n / 24).max(1);
            let mut v = id.clone();
            let mut t = RS::new();
            let nonce = r.trits(81);
            put(Md::Absorb, &nonce, &mut t, &mut v);
            put_size(Md::Absorb, 0, &mut t, &mut v);
            put_size(Md::Absorb, n as u64, &mut t, &mut v);
            v.extend(r.trits(9297 * n));
            (Want::Keyload { psks: vec![], ntrus: vec![(r.trits(81), 0)] }, v)
        }
        3 | 4 => {
            let x = r.trits(3 * 27 * n);
            let y = r.trits(3 * 27 * n);
            let mut v = wrap(&Body::Tagged { id: id.clone(), public: x, masked: y })?;
            if kind == 4 {
                let i = v.len() - 1 - r.below(243);
                v[i] = (v[i] + 1) % 3;
            }
            (Want::Tagged, v)
        }
        5 => {
            let x = r.trits(3 * 27 * n);
            let y = r.trits(3 * 27 * n);
            (Want::SignedVerify { pk: r.trits(243) }, wrap(&Body::Signed { id: id.clone(), public: x, masked: y, k: (0, 0) })?)
        }
        _ => {
            let mut v = wrap(&Body::Announce { k: (0, 0), ntru: Some(0) })?;
            v.extend(r.trits(324 * n));
            (Want::Announce, v)
        }
    };
    Ok((Rx { want, id: Some(id) }, v))
}
/// Time and memory for an input sixteen times as long: sixteen times as much, not two hundred.
fn growth(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % GROW.len();
    if c.small || c.build.contains("san") {
        return Ok(());
    }
    let n = 300 + r.below(200);
    let (rx, a) = grown(&mut r, kind, n)?;
    let (rx16, b) = grown(&mut r, kind, 16 * n)?;
    let time = |rx: &Rx, v: &[u8]| -> Result<f64, String> {
        let t = thread_cpu();
        let (_, mem) = peak(|| {
            let _ = lib_unwrap(rx, &mut Spongos::init(), &Spongos::init(), TritSlice::from_slice(v.len(), v));
        });
        ck!(mem <= 64 * v.len() + (512 << 10), "{} of {} trits: {} bytes allocated", GROW[kind], v.len(), mem);
        Ok(thread_cpu() - t)
    };
    let mut times = (f64::MAX, f64::MAX);
    for _ in 0..6 {
        for _ in 0..3 {
            times.0 = times.0.min(time(&rx, &a)?);
        }
        times.1 = times.1.min(time(&rx16, &b)?);
        if times.1 < 0.04 || times.1 < 80.0 * times.0 {
            c.ev("growths measured");
            c.seen_b(&a);
            return Ok(());
        }
    }
    Err(format!("{}: {:.6} s of CPU time for {} trits, but {:.6} s for {} trits", GROW[kind], times.0, a.len(), times.1, b.len()))
}
