//! C01 round trip of every message type. Oracle: sender and receiver observations only.
use crate::eng::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::spongos::Spongos;

pub fn groups() -> Vec<Group> {
    vec![
        g("roundtrip", 900, roundtrip),
        g("sizes", 900, sizes),
        g("trailing", 240, trailing),
        g("conversation", 160, conversation),
        Group { name: "large", n: 6, deep: 4, f: large },
    ]
}

/// Wrap, unwrap with an entitled receiver, compare everything observable.
/// Returns the two (equal) states after the message.
pub fn exchange(
    c: &mut Ctx,
    r: &mut Rng,
    m: &Body,
    s0: &Spongos,
    l0: &Spongos,
    trail: usize,
) -> Result<(Spongos, Spongos), String> {
    let rx = honest(r, m);
    let pad = (r.below(20), r.below(20));
    let fill = r.below(3) as u8;
    let d = describe(m);
    let mut s = s0.fork();
    let mut slink = l0.fork();
    let v = lib_wrap(m, &mut s, &mut slink, pad, fill).map_err(|e| format!("{}: {}", d, e))?;
    c.dig(&v);
    c.ev("messages wrapped");
    let mut t = s0.fork();
    let got = if trail == 0 {
        lib_unwrap_v(&rx, &mut t, l0, &v, r)
    } else {
        let mut w = v.clone();
        w.extend(r.trits_biased(trail));
        lib_unwrap_v(&rx, &mut t, l0, &w, r)
    };
    let res = got.res.map_err(|e| format!("{}: genuine message of {} trits rejected: {}", d, v.len(), e))?;
    ck!(got.used == v.len(), "{}: unwrap consumed {} of {} trits", d, got.used, v.len());
    let want = content(m, &rx.want);
    ck!(res.len() == want.len(), "{}: content has {} parts instead of {}", d, res.len(), want.len());
    for (i, (a, b)) in res.iter().zip(&want).enumerate() {
        ck!(a == b, "{}: content part {} differs: {}", d, i, diff_at(a, b));
    }
    let (fs, ft) = (fp(&s), fp(&t));
    ck!(fs == ft, "{}: sender and receiver states differ after the message ({})", d, diff_at(&fs, &ft));
    c.dig(&fs);
    c.ev("messages unwrapped and compared");
    c.ev("state fingerprints compared");
    c.seen_b(&v);
    Ok((s, t))
}
/// What is exchanged next also decodes: an encrypted run and a MAC over the joint state.
fn follow_up(c: &mut Ctx, r: &mut Rng, mut s: Spongos, mut t: Spongos) -> R {
    let n = r.size(900);
    let x = tr(&r.trits(n));
    let y = s.encr_trits(&x);
    let z = t.decr_trits(&y);
    ck!(x == z, "data encrypted after the message does not decrypt");
    s.commit();
    t.commit();
    let m = s.squeeze_trits(243);
    ck!(t.squeeze_eq_trits(&m), "MAC after the message does not verify");
    c.ev("follow-up exchanges");
    Ok(())
}
fn roundtrip(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = gen_body(&mut r, kind);
    let s0 = lib_state(&gen_pre(&mut r));
    let l0 = lib_state(&gen_pre(&mut r));
    c.sample(describe(&m));
    let (s, t) = exchange(c, &mut r, &m, &s0, &l0, 0)?;
    c.ev(KIND_NAMES[kind]);
    follow_up(c, &mut r, s, t)
}
/// Payload sizes swept around the limits of the size encoding and of the rate.
fn sizes(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = c.idx % 330;
    let k = r.size(170);
    let (p, q) = if r.chance(1, 2) { (n, k) } else { (k, n) };
    let id = r.trits(81);
    let m = match c.idx % 8 {
        0..=4 => Body::Tagged { id, public: r.trits(3 * p), masked: r.trits(3 * q) },
        5 => Body::Signed { id, public: r.trits(3 * p), masked: r.trits(3 * q), k: rk(&mut r) },
        _ => Body::Header { typ: r.trits(3 * n), appinst: r.trits(243), msgid: id },
    };
    let mut s0 = Spongos::init();
    if r.chance(2, 3) {
        // every possible alignment of the fields to the rate
        let k = r.below(486);
        s0.absorb_trits(&tr(&r.trits(k)));
    }
    let l0 = lib_state(&gen_pre(&mut r));
    exchange(c, &mut r, &m, &s0, &l0, 0)?;
    Ok(())
}
fn trailing(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let m = gen_body(&mut r, c.idx % KINDS);
    let s0 = lib_state(&gen_pre(&mut r));
    let l0 = lib_state(&gen_pre(&mut r));
    let n = r.range(1, 400);
    let (s, t) = exchange(c, &mut r, &m, &s0, &l0, n)?;
    follow_up(c, &mut r, s, t)
}
/// Header and body in one state, several messages, each linked to an earlier one.
fn conversation(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut sent = vec![Spongos::init()];
    let mut recv = vec![Spongos::init()];
    let n = r.range(3, 7);
    for i in 0..n {
        let mut kind = if i == 0 { 1 } else { r.range(2, 7) };
        if r.chance(1, 12) {
            kind = 1;
        }
        let m = gen_body(&mut r, kind);
        let id = match body_id(&m) {
            Some(i) => i.clone(),
            None => r.trits(81),
        };
        let h = Body::Header { typ: r.trits(3 * (i + 1)), appinst: r.trits(243), msgid: id };
        let (mut s, mut t) = exchange(c, &mut r, &h, &Spongos::init(), &Spongos::init(), 0)?;
        let l = r.below(sent.len());
        // the receiver works on its own copies of everything
        let rx = honest(&mut r, &m);
        let d = describe(&m);
        let v = lib_wrap(&m, &mut s, &mut sent[l].fork(), (0, 0), 0)?;
        let got = lib_unwrap_v(&rx, &mut t, &recv[l], &v, &mut r);
        let res = got.res.map_err(|e| format!("{}: message {} of a conversation rejected: {}", d, i, e))?;
        ck!(res == content(&m, &rx.want), "{}: message {} of a conversation has other content", d, i);
        ck!(got.used == v.len(), "{}: message {}: consumed {} of {}", d, i, got.used, v.len());
        ck!(fp(&s) == fp(&t), "{}: states differ after message {} of a conversation", d, i);
        c.ev("linked messages");
        c.dig(&v);
        c.seen_b(&v);
        sent.push(s);
        recv.push(t);
    }
    Ok(())
}
fn large(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let id = r.trits(81);
    // (the size takes four trytes from 9842 on)
    let n = if c.idx % 24 == 4 && !c.small {
        // (and five from 265721 on)
        265_720 + r.below(3)
    } else if c.idx % 4 < 2 {
        9842 + r.below(3)
    } else { *r.pick(&[9840usize, 9841, 12000, 20000]) };
    let k = *r.pick(&[0usize, 1, 365, 9841, 9842]);
    let (p, q) = if c.idx % 2 == 0 { (n, k) } else { (k, n) };
    let m = if c.idx % 3 == 0 {
        Body::Signed { id, public: r.trits(3 * p), masked: r.trits(3 * q), k: rk(&mut r) }
    } else {
        Body::Tagged { id, public: r.trits(3 * p), masked: r.trits(3 * q) }
    };
    let s0 = lib_state(&gen_pre(&mut r));
    let l0 = lib_state(&gen_pre(&mut r));
    let (s, t) = exchange(c, &mut r, &m, &s0, &l0, 0)?;
    follow_up(c, &mut r, s, t)
}
