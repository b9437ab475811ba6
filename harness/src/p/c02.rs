//! C02 altered or misdirected messages are not accepted as genuine.
use crate::eng::*;
use crate::msg::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::spongos::Spongos;

pub fn groups() -> Vec<Group> {
    vec![
        g("flip", 150, flip),
        g("pair", 100, pair),
        g("sigfields", 36, sigfields),
        g("exhaustive", 24, exhaustive),
        g("state", 160, state),
        g("keys", 100, keys),
        g("splice", 100, splice),
        g("kind", 70, kind),
        g("truncate", 90, truncate),
        g("link", 60, link),
    ]
}
/// A linked state as messages leave it: nothing absorbed is left unpermuted.
pub fn gen_link(r: &mut Rng) -> Pre {
    let mut p = gen_pre(r);
    p.push(POp::Commit);
    match r.below(3) {
        0 => p.push(POp::Squeeze(243)),
        1 => p.push(POp::Squeeze(234)),
        _ => {}
    }
    p
}
pub struct Sent {
    pub m: Body,
    pub v: Vec<u8>,
    pub p0: Pre,
    pub pl: Pre,
    pub s0: Spongos,
    pub l0: Spongos,
    pub rx: Rx,
    pub end: Vec<u8>,
}
pub fn send(r: &mut Rng, m: Body) -> Result<Sent, String> {
    let (p0, pl) = (gen_pre(r), gen_link(r));
    send_in(r, m, p0, pl)
}
pub fn send_in(r: &mut Rng, m: Body, p0: Pre, pl: Pre) -> Result<Sent, String> {
    let s0 = lib_state(&p0);
    let l0 = lib_state(&pl);
    let mut s = s0.fork();
    let v = lib_wrap(&m, &mut s, &mut l0.fork(), (0, 0), 0)?;
    let rx = honest(r, &m);
    let end = fp(&s);
    Ok(Sent { m, v, p0, pl, s0, l0, rx, end })
}
/// Judge an attempt that must not pass: Ok(()) if it is refused (or visibly different where allowed).
fn refused(c: &mut Ctx, x: &Sent, rx: &Rx, s0: &Spongos, l0: &Spongos, v: &[u8], what: &str, r: &mut Rng) -> R {
    let mut t = s0.fork();
    let got = lib_unwrap_v(rx, &mut t, l0, v, r);
    let d = describe(&x.m);
    match got.res {
        Err(_) => {
            c.ev("refused with an error");
        }
        Ok(res) => match &rx.want {
            Want::Header { .. } | Want::Keyload { .. } => {
                ck!(fp(&t) != x.end, "{}: {}: accepted and ends in the sender's state", d, what);
                c.ev("unauthenticated message ends in another state");
            }
            Want::SignedRecover => {
                let signer = match &x.m {
                    Body::Signed { k, .. } => mssp(k.0).pk.clone(),
                    Body::Announce { k, .. } | Body::ChangeKey { k, .. } => mssp(k.0).pk.clone(),
                    _ => vec![],
                };
                ck!(res[0] != signer, "{}: {}: accepted with the signer's public key", d, what);
                c.ev("recovered another public key");
            }
            _ => return Err(format!("{}: {}: accepted as genuine", d, what)),
        },
    }
    c.ev(KIND_NAMES[kind_of(&x.m)]);
    c.seen(crate::rng::fnv(v) ^ crate::rng::fnv(what.as_bytes()));
    Ok(())
}
fn accepted(x: &Sent, r: &mut Rng) -> R {
    let mut t = x.s0.fork();
    let got = lib_unwrap_v(&x.rx, &mut t, &x.l0, &x.v, r);
    match got.res {
        Err(e) => Err(format!("{}: genuine message rejected: {}", describe(&x.m), e)),
        Ok(_) => {
            ck!(fp(&t) == x.end, "{}: receiver does not reach the sender's state", describe(&x.m));
            Ok(())
        }
    }
}
/// Trits of a keyload that belong to entries the receiver has no key for.
fn foreign_ranges(x: &Sent) -> Vec<(usize, usize)> {
    let mut out = vec![];
    if let (Body::Keyload { psks, ntrus, .. }, Want::Keyload { psks: wp, ntrus: wn }) = (&x.m, &x.rx.want) {
        let mut p = 81 + 81 + crate::rmodel::size_code(psks.len() as u64).len();
        for e in psks {
            if !wp.iter().any(|w| w.0 == e.0) {
                out.push((p, p + 324));
            }
            p += 324;
        }
        p += crate::rmodel::size_code(ntrus.len() as u64).len();
        for e in ntrus {
            if !wn.iter().any(|w| w.0 == ntrup(*e).id()) {
                out.push((p, p + 9297));
            }
            p += 9297;
        }
    }
    out
}
/// Number of trailing trits that belong to signatures.
fn sig_start(m: &Body, n: usize) -> Option<usize> {
    let sz = |k: &K| iota_mam::mss::sig_size(mssp(k.0).height);
    match m {
        Body::Announce { k, .. } | Body::Signed { k, .. } => Some(n - sz(k)),
        Body::ChangeKey { k, lk, .. } => Some(n - sz(k) - sz(lk)),
        _ => None,
    }
}
fn positions(r: &mut Rng, x: &Sent, n: usize) -> Vec<usize> {
    let len = x.v.len();
    let f = foreign_ranges(x);
    let ss = sig_start(&x.m, len);
    let mut out = vec![];
    let mut guard = 0;
    while out.len() < n && guard < 50 * n {
        guard += 1;
        let p = match r.below(6) {
            0 => r.below(len.min(100)),
            1 => r.below(len.min(700)),
            2 => len - 1 - r.below(len.min(300)),
            3 => match ss {
                Some(q) => (q + r.below(60)).saturating_sub(20).min(len - 1),
                None => r.below(len),
            },
            4 => *r.pick(&[0, len - 1, 80.min(len - 1), 81.min(len - 1)]),
            _ => r.below(len),
        };
        if !f.iter().any(|q| q.0 <= p && p < q.1) {
            out.push(p);
        }
    }
    out
}
fn small_body(r: &mut Rng, kind: usize) -> Body {
    let id = r.trits(81);
    match kind {
        4 => Body::Signed { id, public: payload(r, 60), masked: payload(r, 60), k: rk(r) },
        5 => Body::Tagged { id, public: payload(r, 60), masked: payload(r, 60) },
        _ => gen_body(r, kind),
    }
}
fn flip(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = small_body(&mut r, kind);
    let x = send(&mut r, m)?;
    accepted(&x, &mut r)?;
    c.sample(describe(&x.m));
    let n = [200, 24, 14, 120, 24, 200, 120, 200][kind];
    for p in positions(&mut r, &x, n) {
        let mut v = x.v.clone();
        v[p] = (v[p] + 1 + r.below(2) as u8) % 3;
        refused(c, &x, &x.rx, &x.s0, &x.l0, &v, &format!("trit {} of {} altered", p, v.len()), &mut r)?;
    }
    Ok(())
}
/// Alterations of several trits whose sum cancels, swaps, block moves, reversals.
fn pair(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = small_body(&mut r, kind);
    let x = send(&mut r, m)?;
    let n = [60, 10, 6, 40, 10, 80, 40, 80][kind];
    let f = foreign_ranges(&x);
    for _ in 0..n {
        let mut v = x.v.clone();
        let len = v.len();
        let lo = if r.chance(1, 2) { 0 } else { len - len.min(243) };
        let what;
        match r.below(6) {
            4 => what = mangle(&mut r, &mut v),
            5 => what = mangle(&mut r, &mut v[lo..]),
            0 => {
                let (i, j) = (r.range(lo, len - 1), r.range(lo, len - 1));
                v[i] = (v[i] + 1) % 3;
                v[j] = (v[j] + 2) % 3;
                what = format!("trits {} and {} altered", i, j);
            }
            1 => {
                let (i, j) = (r.range(lo, len - 1), r.range(lo, len - 1));
                v.swap(i, j);
                what = format!("trits {} and {} swapped", i, j);
            }
            2 => {
                let k = r.range(1, 81.min(len - lo));
                let i = r.range(lo, len - k);
                for t in v[i..i + k].iter_mut() {
                    *t = (*t + 1) % 3;
                }
                what = format!("trits {}..{} altered", i, i + k);
            }
            _ => {
                let k = r.range(2, 243.min(len - lo));
                let i = r.range(lo, len - k);
                if r.chance(1, 2) {
                    v[i..i + k].rotate_left(1);
                } else {
                    v[i..i + k].reverse();
                }
                what = format!("trits {}..{} permuted", i, i + k);
            }
        }
        let diff: Vec<usize> = (0..len).filter(|i| v[*i] != x.v[*i]).collect();
        if diff.is_empty() || diff.iter().any(|p| f.iter().any(|q| q.0 <= *p && *p < q.1)) {
            continue;
        }
        refused(c, &x, &x.rx, &x.s0, &x.l0, &v, &what, &mut r)?;
    }
    Ok(())
}
/// All trits of the height / key-number fields and the first trits of every signature part.
fn sigfields(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = [1, 2, 4][c.idx % 3];
    let m = small_body(&mut r, kind);
    let x = send(&mut r, m)?;
    let len = x.v.len();
    let ss = sig_start(&x.m, len).unwrap_or(0);
    let mut ps: Vec<usize> = (ss..ss + 18).collect();
    if let Body::ChangeKey { k, lk, .. } = &x.m {
        let s2 = len - iota_mam::mss::sig_size(mssp(lk.0).height);
        ps = ps.into_iter().step_by(3).collect();
        ps.extend((s2..s2 + 18).step_by(3));
        let _ = k;
    }
    for _ in 0..4 {
        ps.push(ss + 18 + 162 * r.below(81) + r.below(162));
    }
    // checksum chains and authentication path
    ps.push(ss + 18 + 162 * 78 + r.below(486));
    ps.push(len - 1 - r.below(243));
    for p in ps {
        let mut v = x.v.clone();
        v[p] = (v[p] + 1 + r.below(2) as u8) % 3;
        refused(c, &x, &x.rx, &x.s0, &x.l0, &v, &format!("signature trit {} altered", p - ss), &mut r)?;
    }
    Ok(())
}
/// Every trit of short messages of the cheap kinds, both other values.
fn exhaustive(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let id = r.trits(81);
    let m = match c.idx % 4 {
        0 => Body::Unsubscribe { id, sub: r.below(NNTRU) },
        1 => Body::Header { typ: { let n = r.below(30); r.trits(3 * n) }, appinst: r.trits(243), msgid: id },
        2 => Body::Tagged { id, public: payload(&mut r, 20), masked: payload(&mut r, 20) },
        _ => {
            let n = r.range(1, 3);
            let mut k = gen_keyload(&mut r, n, 0);
            if let Body::Keyload { psks, .. } = &mut k {
                psks.truncate(3);
            }
            k
        }
    };
    let x = send(&mut r, m)?;
    accepted(&x, &mut r)?;
    let f = foreign_ranges(&x);
    for p in 0..x.v.len() {
        if f.iter().any(|q| q.0 <= p && p < q.1) {
            continue;
        }
        for d in 1..3 {
            let mut v = x.v.clone();
            v[p] = (v[p] + d) % 3;
            refused(c, &x, &x.rx, &x.s0, &x.l0, &v, &format!("trit {} altered", p), &mut r)?;
        }
    }
    Ok(())
}
/// One altered trit in what the starting or linked state was made from.
fn alter(r: &mut Rng, p: &Pre) -> Option<Pre> {
    let mut q = p.clone();
    let c: Vec<usize> = q
        .iter()
        .enumerate()
        .filter(|(_, o)| matches!(o, POp::Absorb(v) | POp::Encr(v) if !v.is_empty()))
        .map(|x| x.0)
        .collect();
    if c.is_empty() {
        return None;
    }
    let i = *r.pick(&c);
    if let POp::Absorb(v) | POp::Encr(v) = &mut q[i] {
        let j = r.below(v.len());
        v[j] = (v[j] + 1 + r.below(2) as u8) % 3;
    }
    Some(q)
}
fn state(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = small_body(&mut r, kind);
    let mut p0 = gen_pre(&mut r);
    let mut pl = gen_link(&mut r);
    p0.insert(0, POp::Absorb(r.trits(50)));
    pl.insert(0, POp::Absorb(r.trits(50)));
    let x = send_in(&mut r, m, p0, pl)?;
    accepted(&x, &mut r)?;
    let n = [12, 3, 2, 6, 3, 12, 8, 12][kind];
    for _ in 0..n {
        if let Some(q) = alter(&mut r, &x.p0) {
            refused(c, &x, &x.rx, &lib_state(&q), &x.l0, &x.v, "starting state differs", &mut r)?;
        }
        if body_id(&x.m).is_some() {
            if let Some(q) = alter(&mut r, &x.pl) {
                refused(c, &x, &x.rx, &x.s0, &lib_state(&q), &x.v, "linked state differs", &mut r)?;
            }
        }
    }
    // an unrelated or fresh state
    refused(c, &x, &x.rx, &Spongos::init(), &x.l0, &x.v, "starting state is fresh", &mut r)?;
    if body_id(&x.m).is_some() {
        refused(c, &x, &x.rx, &x.s0, &lib_state(&vec![POp::Absorb(r.trits(9)), POp::Commit]), &x.v, "linked state is unrelated", &mut r)?;
        // states exchanged
        refused(c, &x, &x.rx, &x.l0, &x.s0, &x.v, "states exchanged", &mut r)?;
    }
    Ok(())
}
/// Keys (and header identifiers) other than the sender's.
fn keys(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = [0usize, 2, 3, 4, 6][c.idx % 5];
    let m = small_body(&mut r, kind);
    let x = send(&mut r, m)?;
    let tw = |r: &mut Rng, v: &Vec<u8>| {
        let mut w = v.clone();
        let j = r.below(w.len());
        w[j] = (w[j] + 1 + r.below(2) as u8) % 3;
        w
    };
    let mut tries: Vec<(Want, &str)> = vec![];
    match &x.m {
        Body::Header { appinst, msgid, .. } => {
            for _ in 0..40 {
                tries.push((Want::Header { appinst: tw(&mut r, appinst), msgid: msgid.clone() }, "other application instance"));
                tries.push((Want::Header { appinst: appinst.clone(), msgid: tw(&mut r, msgid) }, "other message id"));
            }
        }
        Body::ChangeKey { lk, k, .. } => {
            let pk = &mssp(lk.0).pk;
            tries.push((Want::ChangeKey { linkpk: tw(&mut r, pk) }, "linked key with one trit altered"));
            let o = mssp(lk.0 + 1 + r.below(5)).pk.clone();
            tries.push((Want::ChangeKey { linkpk: o }, "another linked key"));
            if mssp(k.0).pk != *pk {
                tries.push((Want::ChangeKey { linkpk: mssp(k.0).pk.clone() }, "the new key as linked key"));
            }
        }
        Body::Keyload { .. } => {
            if let Want::Keyload { psks, ntrus } = &x.rx.want {
                for _ in 0..20 {
                    if let Some(p) = psks.first() {
                        let w = tw(&mut r, &p.1);
                        tries.push((Want::Keyload { psks: vec![(p.0.clone(), w)], ntrus: vec![] }, "other pre-shared key"));
                    }
                }
                if let Some(n) = ntrus.first() {
                    for j in 1..NNTRU {
                        let w = Want::Keyload { psks: vec![], ntrus: vec![(n.0.clone(), (n.1 + j) % NNTRU)] };
                        tries.push((w, "other ntru private key"));
                    }
                }
            }
        }
        Body::Signed { k, .. } => {
            let pk = &mssp(k.0).pk;
            tries.push((Want::SignedVerify { pk: tw(&mut r, pk) }, "signer key with one trit altered"));
            tries.push((Want::SignedVerify { pk: tw(&mut r, pk) }, "signer key with one trit altered"));
            tries.push((Want::SignedVerify { pk: mssp(k.0 + 1 + r.below(5)).pk.clone() }, "another signer"));
            tries.push((Want::SignedVerify { pk: vec![0; 243] }, "zero signer key"));
        }
        Body::Subscribe { ch, .. } => {
            for j in 1..NNTRU {
                tries.push((Want::Subscribe { ch: (*ch + j) % NNTRU }, "other channel owner key"));
            }
        }
        _ => {}
    }
    for (want, what) in tries {
        let rx = Rx { want, id: x.rx.id.clone() };
        refused(c, &x, &rx, &x.s0, &x.l0, &x.v, what, &mut r)?;
    }
    Ok(())
}
/// Parts of two genuine messages combined.
fn splice(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = [1, 2, 4, 5, 6, 7, 0, 5][c.idx % 8];
    let m1 = small_body(&mut r, kind);
    // the second message: same keys and identifiers, other content or other state
    let mut m2 = m1.clone();
    match &mut m2 {
        Body::Header { typ, .. } => {
            let n = typ.len();
            *typ = r.trits(n.max(3));
        }
        Body::Announce { ntru, k } => {
            if r.chance(1, 2) || mssp(k.0).at.len() == 1 {
                *ntru = Some(match ntru {
                    Some(i) => (*i + 1) % NNTRU,
                    None => 0,
                });
            } else {
                k.1 = (k.1 + 1) % mssp(k.0).at.len();
            }
        }
        Body::ChangeKey { k, .. } => *k = ((k.0 + 1) % 6, 0),
        Body::Signed { public, masked, .. } | Body::Tagged { public, masked, .. } => {
            let (a, b) = (public.len(), masked.len());
            *public = r.trits(a.max(3));
            *masked = r.trits(b.max(3));
        }
        Body::Subscribe { sub, .. } => *sub = (*sub + 1) % NNTRU,
        _ => {}
    }
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let x = send_in(&mut r, m1, p0.clone(), pl.clone())?;
    let mut p2 = p0;
    if kind == 7 || r.chance(1, 4) {
        p2.push(POp::Absorb(vec![1, 2, 1]));
        p2.push(POp::Commit);
    }
    let y = send_in(&mut r, m2, p2, pl)?;
    let cuts: Vec<usize> = {
        let (a, b) = (x.v.len(), y.v.len());
        let mut v = vec![];
        if let Some(s) = sig_start(&x.m, a) {
            v.push(a - s);
        }
        if kind >= 5 {
            v.push(243);
        }
        v.push(r.below(a.min(b)) + 1);
        v.into_iter().filter(|k| *k <= a && *k <= b).collect()
    };
    for k in cuts {
        // head of one, last k trits of the other
        let mut v = x.v[..x.v.len() - k].to_vec();
        v.extend_from_slice(&y.v[y.v.len() - k..]);
        if v != x.v && v != y.v {
            refused(c, &x, &x.rx, &x.s0, &x.l0, &v, "tail taken from another genuine message", &mut r)?;
        }
        let mut v = y.v[..y.v.len() - k].to_vec();
        v.extend_from_slice(&x.v[x.v.len() - k..]);
        if v != x.v && v != y.v {
            refused(c, &x, &x.rx, &x.s0, &x.l0, &v, "head taken from another genuine message", &mut r)?;
        }
    }
    if let Body::ChangeKey { k, lk, .. } = &x.m {
        // the two signatures exchanged / one used twice
        let (a, b) = (iota_mam::mss::sig_size(mssp(k.0).height), iota_mam::mss::sig_size(mssp(lk.0).height));
        let n = x.v.len() - a - b;
        let (s1, s2) = (&x.v[n..n + a], &x.v[n + a..]);
        if mssp(k.0).pk != mssp(lk.0).pk {
            for (p, q, w) in [(s2, s1, "signatures exchanged"), (s1, s1, "first signature twice"), (s2, s2, "second signature twice")] {
                let v = [&x.v[..n], p, q].concat();
                refused(c, &x, &x.rx, &x.s0, &x.l0, &v, w, &mut r)?;
            }
        }
    }
    Ok(())
}
/// A genuine message given to the unwrap operation of another kind.
fn kind(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let a = c.idx % KINDS;
    let m = small_body(&mut r, a);
    let x = send(&mut r, m)?;
    for b in 0..KINDS {
        if b == a {
            continue;
        }
        let other = small_body(&mut r, b);
        let mut rx = honest(&mut r, &other);
        rx.id = x.rx.id.clone();
        refused(c, &x, &rx, &x.s0, &x.l0, &x.v, &format!("unwrapped as {}", KIND_NAMES[b]), &mut r)?;
    }
    Ok(())
}
fn truncate(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = c.idx % KINDS;
    let m = small_body(&mut r, k);
    let x = send(&mut r, m)?;
    let n = [30, 6, 4, 20, 6, 30, 20, 30][k];
    for i in 0..n {
        let cut = match i {
            0 => 1,
            1 => x.v.len(),
            2 => 3.min(x.v.len()),
            _ => r.range(1, x.v.len()),
        };
        let v = &x.v[..x.v.len() - cut];
        let mut t = x.s0.fork();
        let got = lib_unwrap_v(&x.rx, &mut t, &x.l0, v, &mut r);
        if got.res.is_ok() {
            // the only way to succeed on a proper prefix is a visibly different result
            refused(c, &x, &x.rx, &x.s0, &x.l0, v, &format!("last {} trits missing", cut), &mut r)?;
        }
        c.ev("truncations refused");
        c.seen(crate::rng::mix(cut as u64 ^ (c.idx as u64) << 32));
    }
    Ok(())
}
/// The carried link identifier decides which state is joined.
fn link(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = c.idx % 6 + 2;
    let m = small_body(&mut r, k);
    let x = send(&mut r, m)?;
    let mut id = x.rx.id.clone().unwrap_or_default();
    let j = r.below(81);
    id[j] = (id[j] + 1 + r.below(2) as u8) % 3;
    let rx = Rx { want: x.rx.want.clone(), id: Some(id) };
    let mut t = x.s0.fork();
    let got = lib_unwrap_v(&rx, &mut t, &x.l0, &x.v, &mut r);
    ck!(got.res.is_err(), "{}: accepted although its link is unknown to the receiver", describe(&x.m));
    // a resolver that knows any link but has another state for it
    let rx = Rx { want: x.rx.want.clone(), id: None };
    let other = lib_state(&vec![POp::Absorb(r.trits(100)), POp::Commit]);
    refused(c, &x, &rx, &x.s0, &other, &x.v, "link resolved to another state", &mut r)?;
    let mut t = x.s0.fork();
    let got = lib_unwrap_v(&rx, &mut t, &x.l0, &x.v, &mut r);
    ck!(got.res.is_ok() && fp(&t) == x.end, "{}: genuine message with resolvable link rejected", describe(&x.m));
    c.ev("links resolved");
    Ok(())
}
