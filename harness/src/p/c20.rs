//! C20 channel histories: a channel with several participants, each processing the published
//! messages in an order of its own, with repetitions, forgeries and foreign messages in between.
use crate::eng::*;
use crate::msg::*;
use crate::rng::{mangle, Rng};
use crate::util::*;
use iota_mam::app::channel::msg::*;
use iota_mam::spongos::Spongos;
use std::collections::HashMap;

pub fn groups() -> Vec<Group> {
    vec![g("history", 56, history), g("unsigned", 160, unsigned), g("chain", 40, chain), g("keychange", 14, keychange)]
}
fn typ(b: &Body) -> Vec<u8> {
    let s = match b {
        Body::Header { .. } => "",
        Body::Announce { .. } => announce::TYPE,
        Body::ChangeKey { .. } => change_key::TYPE,
        Body::Keyload { .. } => keyload::TYPE,
        Body::Signed { .. } => signed_packet::TYPE,
        Body::Tagged { .. } => tagged_packet::TYPE,
        Body::Subscribe { .. } => subscribe::TYPE,
        Body::Unsubscribe { .. } => unsubscribe::TYPE,
    };
    let mut t = vec![0u8; 3 * s.len()];
    if slm(&mut t).from_str(s) {
        t
    } else {
        vec![]
    }
}
struct Msg {
    id: Vec<u8>,
    link: Option<usize>,
    app: Vec<u8>,
    body: Body,
    bytes: Vec<u8>,
    /// the sender's state after the message
    fp: Vec<u8>,
    /// index of the announcement or key change whose key is in force
    signer: Option<usize>,
}
struct Part {
    psks: Vec<(Vec<u8>, Vec<u8>)>,
    ntrus: Vec<usize>,
    /// states of the messages it has processed
    store: HashMap<Vec<u8>, Spongos>,
    /// public keys learnt: by message
    keys: HashMap<Vec<u8>, Vec<u8>>,
}
struct World {
    app: Vec<u8>,
    msgs: Vec<Msg>,
    parts: Vec<Part>,
    heavy: bool,
}
fn wrap_msg(app: &[u8], id: &[u8], body: &Body, link: Option<&Spongos>) -> Result<(Vec<u8>, Spongos), String> {
    let h = Body::Header { typ: typ(body), appinst: app.to_vec(), msgid: id.to_vec() };
    let mut s = Spongos::init();
    let mut l = link.cloned().unwrap_or_else(Spongos::init);
    let n = lib_sizeof(&h) + lib_sizeof(body);
    let mut buf = vec![1u8; n];
    {
        let mut b = slm(&mut buf);
        lib_wrap_into(&h, &mut s, &mut Spongos::init(), &mut b)?;
        lib_wrap_into(body, &mut s, &mut l, &mut b)?;
        ck!(b.size() == 0, "{}: wrapping left {} of the {} advertised trits", describe(body), b.size(), n);
    }
    s.commit();
    Ok((buf, s))
}
enum Out {
    Done(Spongos, Content),
    Refused(String, Spongos),
}
/// Process a received message: header, then the content its type announces.
fn process(p: &Part, app: &[u8], id: &[u8], bytes: &[u8], m: &Msg, msgs: &[Msg], recover: bool, whole: bool) -> Result<Out, String> {
    let mut s = Spongos::init();
    let rx = Rx { want: Want::Header { appinst: app.to_vec(), msgid: id.to_vec() }, id: None };
    let g = lib_unwrap(&rx, &mut s, &Spongos::init(), sl(bytes));
    let t = match g.res {
        Err(e) => return Ok(Out::Refused(format!("header: {}", e), s)),
        Ok(t) => t,
    };
    if t[0] != typ(&m.body) {
        return Ok(Out::Refused("type".into(), s));
    }
    // the receiver knows the states of the messages it has processed
    let (lid, ls) = match m.link {
        None => (None, Spongos::init()),
        Some(l) => match p.store.get(&msgs[l].id) {
            Some(x) => (Some(msgs[l].id.clone()), x.fork()),
            // the link is not known: no identifier resolves
            None => (Some(vec![9; 81]), Spongos::init()),
        },
    };
    let key = |i: Option<usize>| i.and_then(|i| p.keys.get(&msgs[i].id).cloned());
    let want = match &m.body {
        Body::Header { .. } | Body::Announce { .. } => Want::Announce,
        Body::ChangeKey { .. } => match key(m.signer) {
            Some(k) => Want::ChangeKey { linkpk: k },
            None => return Ok(Out::Refused("no key".into(), s)),
        },
        Body::Keyload { .. } => Want::Keyload { psks: p.psks.clone(), ntrus: p.ntrus.iter().map(|i| (ntrup(*i).id(), *i)).collect() },
        Body::Signed { .. } => {
            if recover {
                Want::SignedRecover
            } else {
                match key(m.signer) {
                    Some(k) => Want::SignedVerify { pk: k },
                    None => return Ok(Out::Refused("no key".into(), s)),
                }
            }
        }
        Body::Tagged { .. } => Want::Tagged,
        Body::Subscribe { ch, .. } => {
            if !p.ntrus.contains(ch) {
                // tries with whatever key it has
                let k = p.ntrus.first().copied().unwrap_or((ch + 1) % NNTRU);
                Want::Subscribe { ch: k }
            } else {
                Want::Subscribe { ch: *ch }
            }
        }
        Body::Unsubscribe { sub, .. } => Want::Unsubscribe { sub: *sub },
    };
    let rx = Rx { want, id: lid };
    let g = lib_unwrap(&rx, &mut s, &ls, sl(bytes).drop(g.used));
    Ok(match g.res {
        Ok(c) => {
            // (an altered recipient count of a keyload, which is not authenticated, may end it early)
            if whole && g.used + lib_sizeof(&Body::Header { typ: t[0].clone(), appinst: vec![], msgid: vec![] }) != bytes.len() {
                return Err(format!("{}: accepted but {} trits consumed of {}", describe(&m.body), g.used, bytes.len()));
            }
            s.commit();
            Out::Done(s, c)
        }
        Err(e) => Out::Refused(e, s),
    })
}
/// Does the participant hold what the content needs (besides the link)?
fn entitled(p: &Part, m: &Msg) -> bool {
    match &m.body {
        Body::Keyload { psks, ntrus, .. } => {
            psks.iter().any(|x| p.psks.contains(x)) || ntrus.iter().any(|x| p.ntrus.contains(x))
        }
        Body::Subscribe { ch, .. } => p.ntrus.contains(ch),
        _ => true,
    }
}
fn content_want(b: &Body, recover: bool) -> Content {
    match b {
        Body::Signed { k, .. } => content(b, &if recover { Want::SignedRecover } else { Want::SignedVerify { pk: mssp(k.0).pk.clone() } }),
        _ => content(b, &Want::Tagged),
    }
}
fn deliver(c: &mut Ctx, r: &mut Rng, w: &mut World, pi: usize, mi: usize) -> Result<bool, String> {
    let m = &w.msgs[mi];
    let recover = r.chance(1, 3);
    let p = &w.parts[pi];
    let linked = m.link.map_or(true, |l| p.store.contains_key(&w.msgs[l].id));
    let keyed = match m.body {
        Body::ChangeKey { .. } => m.signer.is_some_and(|i| p.keys.contains_key(&w.msgs[i].id)),
        Body::Signed { .. } => recover || m.signer.is_some_and(|i| p.keys.contains_key(&w.msgs[i].id)),
        _ => true,
    };
    let out = process(p, &w.app, &m.id, &m.bytes, m, &w.msgs, recover, true)?;
    let may = linked && keyed && entitled(p, m);
    let what = || format!("participant {} and message {} of {} ({})", pi, mi, w.msgs.len(), describe(&m.body));
    match out {
        Out::Done(s, got) => {
            ck!(linked && entitled(p, m), "{}: accepted without the needed secrets or link", what());
            ck!(may, "{}: accepted without a key", what());
            ck!(got == content_want(&m.body, recover), "{}: wrong content", what());
            ck!(fp(&s) == m.fp, "{}: reaches another state than the sender", what());
            c.ev("messages recovered");
            let again = p.store.contains_key(&m.id);
            if again {
                c.ev("of these, repeated");
            }
            let id = m.id.clone();
            let k = match &m.body {
                Body::Announce { .. } | Body::ChangeKey { .. } => Some(got[0].clone()),
                _ => None,
            };
            // a repeated message replaces the stored state or not
            if !again || r.chance(1, 2) {
                w.parts[pi].store.insert(id.clone(), s);
                if let Some(k) = k {
                    w.parts[pi].keys.insert(id, k);
                }
            }
            Ok(true)
        }
        Out::Refused(e, s) => {
            ck!(!may, "{}: refused: {}", what(), e);
            c.ev(if !linked { "unknown link refused" } else { "message for others refused" });
            // the excluded participant goes on with the state it is left with
            if linked && matches!(m.body, Body::Keyload { .. }) {
                spy(c, r, w, pi, mi, s)?;
            }
            Ok(false)
        }
    }
}
/// A participant that cannot open keyload `ki` tries the messages linked to it anyhow.
fn spy(c: &mut Ctx, r: &mut Rng, w: &World, pi: usize, ki: usize, left: Spongos) -> R {
    let base = w.msgs[ki].link.and_then(|l| w.parts[pi].store.get(&w.msgs[l].id).cloned()).unwrap_or_else(Spongos::init);
    for (mi, m) in w.msgs.iter().enumerate() {
        if m.link != Some(ki) {
            continue;
        }
        for t in 0..3 {
            let mut s = match t {
                0 => left.fork(),
                1 => base.fork(),
                _ => Spongos::init(),
            };
            if r.chance(1, 2) {
                s.commit();
            }
            let mut p = Part { psks: w.parts[pi].psks.clone(), ntrus: w.parts[pi].ntrus.clone(), store: HashMap::new(), keys: w.parts[pi].keys.clone() };
            p.store.insert(w.msgs[ki].id.clone(), s);
            let recover = r.chance(1, 2);
            if let Out::Done(end, got) = process(&p, &w.app, &m.id, &m.bytes, m, &w.msgs, recover, false)? {
                let d = format!("participant {} without the session key of keyload {}", pi, ki);
                match &m.body {
                    Body::Signed { masked, k, .. } => {
                        ck!(recover && got[0] != mssp(k.0).pk, "{} accepts signed packet {}", d, mi);
                        ck!(masked.len() < 60 || got[2] != *masked, "{} recovers masked content of {}", d, mi);
                    }
                    // an unauthenticated keyload opened over a guessed link leads to another state
                    Body::Keyload { .. } => ck!(fp(&end) != m.fp, "{} reaches the sender's state of nested keyload {}", d, mi),
                    _ => return Err(format!("{} accepts message {} ({})", d, mi, describe(&m.body))),
                }
            }
            c.ev("attempts without the session key");
        }
    }
    Ok(())
}
/// Forged, foreign and misdirected copies: refused, whatever the receiver holds.
fn junk(c: &mut Ctx, r: &mut Rng, w: &World, pi: usize) -> R {
    let mi = r.below(w.msgs.len());
    let m = &w.msgs[mi];
    let p = &w.parts[pi];
    let mut bytes = m.bytes.clone();
    let mut app = w.app.clone();
    let mut id = m.id.clone();
    let n = bytes.len();
    let what = match r.below(6) {
        0 => {
            if r.chance(1, 2) {
                mangle(r, &mut bytes);
                if bytes == m.bytes {
                    return Ok(());
                }
            } else {
                let i = r.below(n);
                bytes[i] = (bytes[i] + 1 + r.below(2) as u8) % 3;
            }
            "altered"
        }
        1 => {
            bytes.truncate(r.below(n));
            "truncated"
        }
        2 => {
            let i = r.below(243);
            app[i] = (app[i] + 1) % 3;
            "foreign"
        }
        3 => {
            let i = r.below(81);
            id[i] = (id[i] + 1) % 3;
            "misdirected"
        }
        4 => {
            let k = r.below(w.msgs.len());
            id = w.msgs[k].id.clone();
            if k == mi {
                return Ok(());
            }
            "substituted"
        }
        _ => {
            bytes = r.trits(n);
            "random"
        }
    };
    let recover = r.chance(1, 3);
    match process(p, &app, &id, &bytes, m, &w.msgs, recover, false)? {
        Out::Refused(..) => c.ev("forged or foreign messages refused"),
        Out::Done(s, got) => {
            let d = format!("participant {} accepts message {} of {} {} ({})", pi, mi, w.msgs.len(), what, describe(&m.body));
            match &m.body {
                // not authenticated by itself: another state, or an alteration of somebody else's entry
                Body::Keyload { .. } => {
                    if fp(&s) == m.fp {
                        ck!(what == "altered", "{} and reaches the sender's state", d);
                    }
                    c.ev("forged keyload leads nowhere");
                }
                Body::Signed { k, .. } => {
                    ck!(recover && got[0] != mssp(k.0).pk, "{}", d);
                    c.ev("forged or foreign messages refused");
                }
                _ => return Err(d),
            }
        }
    }
    Ok(())
}
fn new_world(r: &mut Rng, np: usize, heavy: bool) -> World {
    let mut parts = vec![];
    let pool: Vec<(Vec<u8>, Vec<u8>)> = (0..4).map(|_| (r.trits(81), r.trits(243))).collect();
    for i in 0..np {
        // participant 0 is the channel owner and holds everything
        let psks = pool.iter().filter(|_| i == 0 || r.chance(1, 3)).cloned().collect();
        let ntrus = (0..NNTRU).filter(|_| i == 0 || r.chance(1, 4)).collect();
        parts.push(Part { psks, ntrus, store: HashMap::new(), keys: HashMap::new() });
    }
    World { app: r.trits(243), msgs: vec![], parts, heavy }
}
/// Publish one message by participant `pi`, linked to a message it has processed.
fn publish(c: &mut Ctx, r: &mut Rng, w: &mut World, pi: usize, kind: usize) -> R {
    let known: Vec<usize> = (0..w.msgs.len()).filter(|i| w.parts[pi].store.contains_key(&w.msgs[*i].id)).collect();
    let id = r.trits(81);
    let (link, body, signer): (Option<usize>, Body, Option<usize>) = if known.is_empty() || kind == 1 {
        let ntru = if r.chance(1, 2) { Some(r.below(NNTRU)) } else { None };
        (None, Body::Announce { k: rk(r), ntru }, None)
    } else {
        // recent messages and keyloads are preferred as links
        let kl: Vec<usize> = known.iter().copied().filter(|i| matches!(w.msgs[*i].body, Body::Keyload { .. })).collect();
        let l = match r.below(3) {
            0 if !kl.is_empty() => *r.pick(&kl),
            1 => known[known.len() - 1],
            _ => *r.pick(&known),
        };
        let lid = w.msgs[l].id.clone();
        // the key in force: the last key message known
        let ks: Vec<usize> = known.iter().copied().filter(|i| matches!(w.msgs[*i].body, Body::Announce { .. } | Body::ChangeKey { .. })).collect();
        let sg = if ks.is_empty() { None } else { Some(*r.pick(&ks)) };
        let kpool = |i: usize| match &w.msgs[i].body {
            Body::Announce { k, .. } | Body::ChangeKey { k, .. } => k.0,
            _ => 0,
        };
        match (kind, sg) {
            (2, Some(i)) => {
                let p = kpool(i);
                let lk = (p, r.below(mssp(p).at.len()));
                (Some(l), Body::ChangeKey { id: lid, k: rk(r), lk }, sg)
            }
            (4, Some(i)) => {
                let p = kpool(i);
                let k = (p, r.below(mssp(p).at.len()));
                (Some(l), Body::Signed { id: lid, public: payload(r, 200), masked: payload(r, 200), k }, sg)
            }
            (3, _) => {
                let mut psks: Vec<(Vec<u8>, Vec<u8>)> = w.parts[0].psks.iter().filter(|_| r.chance(1, 3)).cloned().collect();
                let mut ntrus: Vec<usize> = (0..NNTRU).filter(|_| r.chance(1, 4)).collect();
                r.shuffle(&mut psks);
                r.shuffle(&mut ntrus);
                if psks.is_empty() && ntrus.is_empty() {
                    psks.push(w.parts[0].psks[0].clone());
                }
                (Some(l), Body::Keyload { id: lid, nonce: r.trits(81), psks, ntrus, prng: r.trits(243), key: r.trits(243) }, None)
            }
            (6, _) => (Some(l), Body::Subscribe { id: lid, prng: r.trits(243), nonce: r.trits(81), sub: r.below(NNTRU), ch: r.below(NNTRU) }, None),
            (7, _) => (Some(l), Body::Unsubscribe { id: lid, sub: r.below(NNTRU) }, None),
            _ => (Some(l), Body::Tagged { id: lid, public: payload(r, 300), masked: payload(r, 300) }, None),
        }
    };
    let ls = link.and_then(|l| w.parts[pi].store.get(&w.msgs[l].id));
    let before = ls.map(fp);
    let (bytes, s) = wrap_msg(&w.app, &id, &body, ls)?;
    ck!(ls.map(fp) == before, "publishing changes the stored state of the linked message");
    let f = fp(&s);
    let key = match &body {
        Body::Announce { k, .. } | Body::ChangeKey { k, .. } => Some(mssp(k.0).pk.clone()),
        _ => None,
    };
    // the publisher holds the state of its own message
    w.parts[pi].store.insert(id.clone(), s);
    if let Some(k) = key {
        w.parts[pi].keys.insert(id.clone(), k);
    }
    c.seen_b(&bytes);
    c.ev("messages published");
    w.msgs.push(Msg { id, link, app: w.app.clone(), body, bytes, fp: f, signer });
    Ok(())
}
/// Everybody processes everything published, in an order of its own; the outcome must be exactly
/// what its secrets allow.
fn settle(c: &mut Ctx, r: &mut Rng, w: &mut World, forget: bool) -> R {
    for pi in 0..w.parts.len() {
        if forget && r.chance(1, 2) {
            // a new instance of the participant starts from nothing
            w.parts[pi].store.clear();
            w.parts[pi].keys.clear();
        }
        let mut want: Vec<bool> = w.msgs.iter().map(|m| w.parts[pi].store.contains_key(&m.id)).collect();
        let mut keys: Vec<bool> = w.msgs.iter().map(|m| w.parts[pi].keys.contains_key(&m.id)).collect();
        loop {
            let mut ch = false;
            for (i, m) in w.msgs.iter().enumerate() {
                let signed = matches!(m.body, Body::ChangeKey { .. });
                if !want[i]
                    && m.link.map_or(true, |l| want[l])
                    && entitled(&w.parts[pi], m)
                    && (!signed || m.signer.is_some_and(|x| keys[x]))
                {
                    want[i] = true;
                    keys[i] |= matches!(m.body, Body::Announce { .. } | Body::ChangeKey { .. });
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for round in 0.. {
            let mut order: Vec<usize> = (0..w.msgs.len()).collect();
            match r.below(3) {
                0 => order.reverse(),
                1 => {}
                _ => r.shuffle(&mut order),
            }
            let mut ch = false;
            for mi in order {
                let had = w.parts[pi].store.contains_key(&w.msgs[mi].id);
                if had && (w.heavy && r.chance(2, 3)) {
                    continue;
                }
                if r.chance(1, 3) {
                    junk(c, r, w, pi)?;
                }
                let ok = deliver(c, r, w, pi, mi)?;
                ch |= ok && !had;
                if ok && r.chance(1, 8) {
                    deliver(c, r, w, pi, mi)?;
                }
            }
            if !ch || round > 30 {
                // signed packets may have waited for the key (verification) although recovery works
                let missing = (0..w.msgs.len()).find(|i| want[*i] && !w.parts[pi].store.contains_key(&w.msgs[*i].id));
                if missing.is_none() || round > 30 {
                    break;
                }
            }
        }
        for (i, m) in w.msgs.iter().enumerate() {
            let has = w.parts[pi].store.contains_key(&m.id);
            ck!(has == want[i], "participant {} recovered message {} ({}): {}, expected {}", pi, i, describe(&m.body), has, want[i]);
        }
        c.ev(if want.iter().all(|x| *x) { "complete histories followed" } else { "partial histories followed" });
    }
    Ok(())
}
fn history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let np = r.range(2, 4);
    let mut w = new_world(&mut r, np, true);
    publish(c, &mut r, &mut w, 0, 1)?;
    let n = r.range(5, 11);
    for _ in 0..n {
        let k = *r.pick(&[2usize, 3, 3, 4, 5, 5, 6, 7]);
        // anyone may publish what needs no signature
        let pi = if matches!(k, 2 | 4) { 0 } else { r.below(np) };
        let pi = if w.parts[pi].store.is_empty() { 0 } else { pi };
        publish(c, &mut r, &mut w, pi, k)?;
        let mi = r.below(w.msgs.len());
        let pi = r.below(np);
        deliver(c, &mut r, &mut w, pi, mi)?;
        deliver(c, &mut r, &mut w, pi, 0)?;
    }
    c.sample(w.msgs.iter().map(|m| format!("{}<-{:?}", describe(&m.body).split(' ').next().unwrap_or(""), m.link)).collect::<Vec<_>>().join(" "));
    settle(c, &mut r, &mut w, true)
}
/// Long histories of messages without signatures (cheap): keyloads nested in keyloads.
fn unsigned(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let np = r.range(2, 6);
    let mut w = new_world(&mut r, np, false);
    // participants start from a message everybody processed (its signature is checked once)
    publish(c, &mut r, &mut w, 0, 1)?;
    for pi in 1..np {
        deliver(c, &mut r, &mut w, pi, 0)?;
    }
    let n = r.range(6, 26);
    for _ in 0..n {
        let k = *r.pick(&[3usize, 3, 5, 5, 5, 6, 7]);
        let pi = r.below(np);
        publish(c, &mut r, &mut w, pi, k)?;
        for _ in 0..2 {
            let (pi, mi) = (r.below(np), 1 + r.below(w.msgs.len() - 1));
            deliver(c, &mut r, &mut w, pi, mi)?;
        }
    }
    w.heavy = true; // skip most of the repetitions of known messages
    settle(c, &mut r, &mut w, false)
}
/// A single long branch: each message linked to the one before.
fn chain(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut w = new_world(&mut r, 2, false);
    publish(c, &mut r, &mut w, 0, 1)?;
    deliver(c, &mut r, &mut w, 1, 0)?;
    let n = r.range(20, 60);
    for i in 1..=n {
        let lid = w.msgs[i - 1].id.clone();
        let ls = w.parts[0].store.get(&lid).cloned();
        let psk = w.parts[0].psks[0].clone();
        let body = match i % 4 {
            1 => Body::Keyload { id: lid, nonce: r.trits(81), psks: vec![psk], ntrus: vec![r.below(NNTRU)], prng: r.trits(243), key: r.trits(243) },
            _ => Body::Tagged { id: lid, public: payload(&mut r, 60), masked: payload(&mut r, 60) },
        };
        let id = r.trits(81);
        let (bytes, s) = wrap_msg(&w.app, &id, &body, ls.as_ref())?;
        let f = fp(&s);
        w.parts[0].store.insert(id.clone(), s);
        c.seen_b(&bytes);
        w.msgs.push(Msg { id, link: Some(i - 1), app: w.app.clone(), body, bytes, fp: f, signer: None });
    }
    w.parts[1].psks = vec![w.parts[0].psks[0].clone()];
    for i in 1..=n {
        ck!(deliver(c, &mut r, &mut w, 1, i)?, "message {} of a chain refused", i);
        c.ev("chained messages");
    }
    // a third participant without keys stops at the first keyload
    w.parts.push(Part { psks: vec![], ntrus: vec![], store: HashMap::new(), keys: HashMap::new() });
    deliver(c, &mut r, &mut w, 2, 0)?;
    for i in 1..=n {
        ck!(!deliver(c, &mut r, &mut w, 2, i)?, "message {} of a chain accepted without keys", i);
    }
    Ok(())
}
/// Successive key changes: packets verify under the key in force and no other.
fn keychange(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut w = new_world(&mut r, 2, true);
    let mut o: Vec<usize> = (0..6).collect();
    r.shuffle(&mut o);
    let n = r.range(2, 4);
    let mut prev: Option<usize> = None;
    for i in 0..n {
        let id = r.trits(81);
        let k = (o[i], r.below(mssp(o[i]).at.len()));
        let (link, body) = match prev {
            None => (None, Body::Announce { k, ntru: None }),
            Some(l) => {
                let kp = o[i - 1];
                (Some(l), Body::ChangeKey { id: w.msgs[l].id.clone(), k, lk: (kp, r.below(mssp(kp).at.len())) })
            }
        };
        let ls = link.and_then(|l| w.parts[0].store.get(&w.msgs[l].id).cloned());
        let (bytes, s) = wrap_msg(&w.app, &id, &body, ls.as_ref())?;
        let f = fp(&s);
        w.parts[0].store.insert(id.clone(), s);
        w.msgs.push(Msg { id, link, app: w.app.clone(), body, bytes, fp: f, signer: prev });
        prev = Some(w.msgs.len() - 1);
        let last = w.msgs.len() - 1;
        ck!(deliver(c, &mut r, &mut w, 1, last)?, "key message {} refused", i);
    }
    // packets by every key, offered under every key
    for i in 0..n {
        let id = r.trits(81);
        let l = r.below(n);
        let body = Body::Signed { id: w.msgs[l].id.clone(), public: payload(&mut r, 30), masked: payload(&mut r, 30), k: (o[i], r.below(mssp(o[i]).at.len())) };
        let ls = w.parts[0].store.get(&w.msgs[l].id).cloned();
        let (bytes, s) = wrap_msg(&w.app, &id, &body, ls.as_ref())?;
        c.seen_b(&bytes);
        for j in 0..n {
            let m = Msg { id: id.clone(), link: Some(l), app: w.app.clone(), body: body.clone(), bytes: bytes.clone(), fp: fp(&s), signer: Some(j) };
            match process(&w.parts[1], &m.app, &m.id, &m.bytes, &m, &w.msgs, false, true)? {
                Out::Done(..) => ck!(i == j, "a packet signed with key {} verifies under key {}", i, j),
                Out::Refused(e, _) => ck!(i != j, "a packet signed with key {} is refused: {}", i, e),
            }
            c.ev("packets offered under a key");
        }
    }
    // a key change signed by a key no longer linked is refused
    if n >= 2 {
        let last = prev.unwrap_or(0);
        let id = r.trits(81);
        let body = Body::ChangeKey { id: w.msgs[last].id.clone(), k: (o[5], 0), lk: (o[0], 0) };
        let ls = w.parts[0].store.get(&w.msgs[last].id).cloned();
        let (bytes, s) = wrap_msg(&w.app, &id, &body, ls.as_ref())?;
        let m = Msg { id, link: Some(last), app: w.app.clone(), body, bytes, fp: fp(&s), signer: Some(last) };
        ck!(matches!(process(&w.parts[1], &m.app, &m.id, &m.bytes, &m, &w.msgs, false, true)?, Out::Refused(..)), "a key change by a replaced key is accepted");
        c.ev("key change by a replaced key refused");
    }
    Ok(())
}
