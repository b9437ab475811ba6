//! Channel messages: one description, wrapped and unwrapped both by the crate and by the model.
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::app::channel::msg::*;
use iota_mam::app::core::msg::header;
use iota_mam::pb3::Trytes;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use iota_mam::{mss, ntru};
use std::collections::HashMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- key pools
pub struct MssK {
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub height: usize,
    /// the private key at key number 0, 1, ..
    pub at: Vec<mss::PrivateKey>,
    pub pk: Vec<u8>,
    model: OnceLock<RMss>,
    slot: Option<usize>,
}
impl MssK {
    pub fn model(&self) -> &RMss {
        // (the models of the pool are shared by all threads)
        static M: [OnceLock<RMss>; 6] = [const { OnceLock::new() }; 6];
        let m = self.slot.map_or(&self.model, |i| &M[i]);
        m.get_or_init(|| RMss::gen(&self.key, &self.nonce, self.height))
    }
}
pub struct NtruK {
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub sk: ntru::PrivateKey,
    pub pk: ntru::PublicKey,
    pub pkt: Vec<u8>,
    model: OnceLock<RNtru>,
}
impl NtruK {
    pub fn model(&self) -> &RNtru {
        self.model.get_or_init(|| ntru_gen(&self.key, &self.nonce))
    }
    pub fn id(&self) -> Vec<u8> {
        self.pkt[..81].to_vec()
    }
}
pub fn mss_key(r: &mut Rng, height: usize) -> MssK {
    let key = r.trits(243);
    let n = r.size(40);
    let nonce = r.trits(n);
    let prng = PRNG::init(sl(&key));
    let mut sk = mss::PrivateKey::gen(&prng, sl(&nonce), height);
    let mut at = vec![sk.clone()];
    for _ in 1..1usize << height {
        sk.next();
        at.push(sk.clone());
    }
    let pk = msspk_v(at[0].public_key());
    MssK { key, nonce, height, at, pk, model: OnceLock::new(), slot: None }
}
pub fn ntru_key(r: &mut Rng) -> NtruK {
    let key = r.trits(243);
    let n = r.size(100);
    let nonce = r.trits(n);
    let (sk, pk) = ntru::gen(&PRNG::init(sl(&key)), sl(&nonce));
    let pkt = ntrupk_v(&pk);
    NtruK { key, nonce, sk, pk, pkt, model: OnceLock::new() }
}
static SEED: OnceLock<u64> = OnceLock::new();
pub fn set_seed(s: u64) {
    let _ = SEED.set(s);
}
pub const MSS_HEIGHTS: [usize; 6] = [0, 1, 0, 3, 2, 5];
fn new_mss(i: usize) -> MssK {
    let mut r = Rng::new(SEED.get().copied().unwrap_or(1) ^ 0x55aa ^ ((i as u64) << 32));
    let mut k = mss_key(&mut r, MSS_HEIGHTS[i]);
    k.slot = Some(i);
    k
}
pub const NNTRU: usize = 6;
fn new_ntru(i: usize) -> NtruK {
    let mut r = Rng::new(SEED.get().copied().unwrap_or(1) ^ 0x77cc ^ ((i as u64) << 32));
    ntru_key(&mut r)
}
/// Pools of keys: one for all threads, or, where the crate's types cannot be shared between threads, one for each.
#[cfg(not(solo))]
pub fn mssp(i: usize) -> &'static MssK {
    static P: [OnceLock<MssK>; 6] = [const { OnceLock::new() }; 6];
    P[i % 6].get_or_init(|| new_mss(i % 6))
}
#[cfg(not(solo))]
pub fn ntrup(i: usize) -> &'static NtruK {
    static P: [OnceLock<NtruK>; NNTRU] = [const { OnceLock::new() }; NNTRU];
    P[i % NNTRU].get_or_init(|| new_ntru(i % NNTRU))
}
/// (keeps what the pools hold reachable)
#[cfg(solo)]
static KEPT: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
#[cfg(solo)]
fn keep<T>(x: T) -> &'static T {
    let x: &'static T = Box::leak(Box::new(x));
    KEPT.lock().unwrap_or_else(|e| e.into_inner()).push(x as *const T as usize);
    x
}
#[cfg(solo)]
pub fn mssp(i: usize) -> &'static MssK {
    thread_local! { static P: [std::cell::OnceCell<&'static MssK>; 6] = const { [const { std::cell::OnceCell::new() }; 6] }; }
    P.with(|p| *p[i % 6].get_or_init(|| keep(new_mss(i % 6))))
}
#[cfg(solo)]
pub fn ntrup(i: usize) -> &'static NtruK {
    thread_local! { static P: [std::cell::OnceCell<&'static NtruK>; NNTRU] = const { [const { std::cell::OnceCell::new() }; NNTRU] }; }
    P.with(|p| *p[i % NNTRU].get_or_init(|| keep(new_ntru(i % NNTRU))))
}

// ---------------------------------------------------------------- messages
/// (pool index, key number)
pub type K = (usize, usize);
#[derive(Clone)]
pub enum Body {
    Header { typ: Vec<u8>, appinst: Vec<u8>, msgid: Vec<u8> },
    Announce { k: K, ntru: Option<usize> },
    ChangeKey { id: Vec<u8>, k: K, lk: K },
    Keyload { id: Vec<u8>, nonce: Vec<u8>, psks: Vec<(Vec<u8>, Vec<u8>)>, ntrus: Vec<usize>, prng: Vec<u8>, key: Vec<u8> },
    Signed { id: Vec<u8>, public: Vec<u8>, masked: Vec<u8>, k: K },
    Tagged { id: Vec<u8>, public: Vec<u8>, masked: Vec<u8> },
    Subscribe { id: Vec<u8>, prng: Vec<u8>, nonce: Vec<u8>, sub: usize, ch: usize },
    Unsubscribe { id: Vec<u8>, sub: usize },
}
#[derive(Clone)]
pub enum Want {
    Header { appinst: Vec<u8>, msgid: Vec<u8> },
    Announce,
    ChangeKey { linkpk: Vec<u8> },
    Keyload { psks: Vec<(Vec<u8>, Vec<u8>)>, ntrus: Vec<(Vec<u8>, usize)> },
    SignedRecover,
    SignedVerify { pk: Vec<u8> },
    Tagged,
    Subscribe { ch: usize },
    Unsubscribe { sub: usize },
}
/// What a receiver brings: the kind of message it expects with its keys, and the link it knows.
#[derive(Clone)]
pub struct Rx {
    pub want: Want,
    /// known link; None: any identifier is resolved
    pub id: Option<Vec<u8>>,
}
pub type Content = Vec<Vec<u8>>;
pub const KINDS: usize = 8;
pub const KIND_NAMES: [&str; KINDS] =
    ["header", "announce", "change_key", "keyload", "signed_packet", "tagged_packet", "subscribe", "unsubscribe"];

pub fn payload(r: &mut Rng, max: usize) -> Vec<u8> {
    // any whole number of trytes; biased to the limits of the size encoding and of the sponge rate
    if r.chance(1, 30) {
        let n = r.tail(max);
        return r.trits_biased(3 * n);
    }
    if max >= 500 && r.chance(1, 90) {
        // where the size takes four trytes
        let n = *r.pick(&[9840usize, 9841, 9842, 9843, 12345, 19683]);
        return r.trits_biased(3 * n);
    }
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(6),
        2 => *r.pick(&[12usize, 13, 14, 15, 161, 162, 163, 363, 364, 365, 366]),
        3 => r.below(max + 1),
        _ => r.size(max),
    };
    r.trits_biased(3 * n.min(max.max(1)))
}
pub fn rk(r: &mut Rng) -> K {
    let i = r.below(6);
    let n = mssp(i).at.len();
    (i, r.below(n))
}
pub fn gen_keyload(r: &mut Rng, np: usize, nn: usize) -> Body {
    let psks = (0..np).map(|_| (r.trits(81), r.trits(243))).collect();
    let mut o: Vec<usize> = (0..NNTRU).collect();
    r.shuffle(&mut o);
    let ntrus = o[..nn.min(NNTRU)].to_vec();
    Body::Keyload { id: r.trits(81), nonce: r.trits_biased(81), psks, ntrus, prng: r.trits(243), key: r.trits_biased(243) }
}
pub fn gen_body(r: &mut Rng, kind: usize) -> Body {
    let mut m = gen_body_plain(r, kind);
    if r.chance(1, 5) {
        correlate(r, &mut m);
    }
    m
}
/// Parts of a message that repeat or resemble each other.
fn correlate(r: &mut Rng, m: &mut Body) {
    match m {
        Body::Header { typ, appinst, msgid } => match r.below(3) {
            0 => *msgid = appinst[..81].to_vec(),
            1 => *typ = appinst.clone(),
            _ => *typ = msgid.clone(),
        },
        Body::Signed { id, public, masked, .. } | Body::Tagged { id, public, masked } => match r.below(6) {
            0 => *masked = public.clone(),
            1 => *masked = r.trits(public.len()),
            2 => *public = r.trits(masked.len()),
            3 => {
                *masked = public.clone();
                masked.extend(r.trits(3));
            }
            4 => *public = masked[..masked.len() / 6 * 3].to_vec(),
            _ => {
                *public = id.clone();
                *masked = id.clone();
            }
        },
        Body::Keyload { id, nonce, psks, ntrus, prng, key } => match r.below(8) {
            0 => *key = prng.clone(),
            1 => *nonce = id.clone(),
            2 if !psks.is_empty() => *key = psks[0].1.clone(),
            3 if psks.len() > 1 => {
                // one secret under two identities
                let x = psks[0].1.clone();
                psks[1].1 = x;
            }
            4 if psks.len() > 1 => {
                // identities with a common beginning or end
                let n = r.range(1, 80);
                let x = psks[0].0.clone();
                if r.chance(1, 2) {
                    psks[1].0[..n].copy_from_slice(&x[..n]);
                } else {
                    psks[1].0[n..].copy_from_slice(&x[n..]);
                }
                if psks[1].0 == x {
                    psks[1].0[40] = (x[40] + 1) % 3;
                }
            }
            5 if psks.len() > 1 => {
                let k = r.below(81);
                let mut x = psks[0].0.clone();
                x[k] = (x[k] + 1 + r.below(2) as u8) % 3;
                let n = psks.len() - 1;
                psks[n].0 = x;
            }
            6 if !psks.is_empty() && !ntrus.is_empty() => psks[0].0 = ntrup(ntrus[0]).id(),
            7 if !psks.is_empty() => {
                let v = [0u8, 1, 2][r.below(3)];
                let n = psks.len() - 1;
                psks[n].0 = vec![v; 81];
                psks[0].1 = vec![v; 243];
            }
            _ => {}
        },
        Body::Subscribe { id, prng, nonce, sub, ch } => match r.below(3) {
            0 => *nonce = prng.clone(),
            1 => *nonce = id.clone(),
            _ => *ch = *sub,
        },
        Body::ChangeKey { k, lk, .. } => {
            let n = r.below(mssp(k.0).at.len());
            *lk = (k.0, n);
        }
        _ => {}
    }
}
fn gen_body_plain(r: &mut Rng, kind: usize) -> Body {
    let id = r.trits_biased(81);
    match kind {
        0 => {
            let n = r.tail(200);
            Body::Header { typ: r.trits(3 * n), appinst: r.trits_biased(243), msgid: r.trits_biased(81) }
        }
        1 => {
            let ntru = if r.chance(1, 2) { Some(r.below(NNTRU)) } else { None };
            Body::Announce { k: rk(r), ntru }
        }
        2 => Body::ChangeKey { id, k: rk(r), lk: rk(r) },
        3 => {
            let np = *r.pick(&[0usize, 1, 1, 2, 3, 5, 14, 15]);
            let nn = *r.pick(&[0usize, 0, 1, 1, 2, 3]);
            // someone must be able to open it
            gen_keyload(r, if nn == 0 { np.max(1) } else { np }, nn)
        }
        4 => Body::Signed { id, public: payload(r, 600), masked: payload(r, 600), k: rk(r) },
        5 => Body::Tagged { id, public: payload(r, 600), masked: payload(r, 600) },
        6 => {
            let n = r.tail(120);
            Body::Subscribe { id, prng: r.trits(243), nonce: r.trits(n), sub: r.below(NNTRU), ch: r.below(NNTRU) }
        }
        _ => Body::Unsubscribe { id, sub: r.below(NNTRU) },
    }
}
pub fn kind_of(b: &Body) -> usize {
    match b {
        Body::Header { .. } => 0,
        Body::Announce { .. } => 1,
        Body::ChangeKey { .. } => 2,
        Body::Keyload { .. } => 3,
        Body::Signed { .. } => 4,
        Body::Tagged { .. } => 5,
        Body::Subscribe { .. } => 6,
        Body::Unsubscribe { .. } => 7,
    }
}
pub fn body_id(b: &Body) -> Option<&Vec<u8>> {
    match b {
        Body::Header { .. } | Body::Announce { .. } => None,
        Body::ChangeKey { id, .. }
        | Body::Keyload { id, .. }
        | Body::Signed { id, .. }
        | Body::Tagged { id, .. }
        | Body::Subscribe { id, .. }
        | Body::Unsubscribe { id, .. } => Some(id),
    }
}
pub fn describe(b: &Body) -> String {
    match b {
        Body::Header { typ, .. } => format!("header type of {} trytes", typ.len() / 3),
        Body::Announce { k, ntru } => format!("announce mss height {} key {} ntru {:?}", mssp(k.0).height, k.1, ntru),
        Body::ChangeKey { k, lk, .. } => format!("change_key new height {} linked height {}", mssp(k.0).height, mssp(lk.0).height),
        Body::Keyload { psks, ntrus, .. } => format!("keyload {} psks, ntru recipients {:?}", psks.len(), ntrus),
        Body::Signed { public, masked, k, .. } => {
            format!("signed_packet public {} masked {} trits, mss height {} key {}", public.len(), masked.len(), mssp(k.0).height, k.1)
        }
        Body::Tagged { public, masked, .. } => format!("tagged_packet public {} masked {} trits", public.len(), masked.len()),
        Body::Subscribe { sub, ch, nonce, .. } => format!("subscribe sub {} ch {} nonce {} trits", sub, ch, nonce.len()),
        Body::Unsubscribe { sub, .. } => format!("unsubscribe {}", sub),
    }
}
/// A receiver entitled to the message.
pub fn honest(r: &mut Rng, b: &Body) -> Rx {
    let id = body_id(b).cloned();
    let want = match b {
        Body::Header { appinst, msgid, .. } => Want::Header { appinst: appinst.clone(), msgid: msgid.clone() },
        Body::Announce { .. } => Want::Announce,
        Body::ChangeKey { lk, .. } => Want::ChangeKey { linkpk: mssp(lk.0).pk.clone() },
        Body::Keyload { psks, ntrus, .. } => {
            let mut w = (vec![], vec![]);
            if !psks.is_empty() && (ntrus.is_empty() || r.chance(1, 2)) {
                w.0.push(r.pick(psks).clone());
            } else if !ntrus.is_empty() {
                let i = *r.pick(ntrus);
                w.1.push((ntrup(i).id(), i));
            }
            Want::Keyload { psks: w.0, ntrus: w.1 }
        }
        Body::Signed { k, .. } => {
            if r.chance(1, 2) {
                Want::SignedRecover
            } else {
                Want::SignedVerify { pk: mssp(k.0).pk.clone() }
            }
        }
        Body::Tagged { .. } => Want::Tagged,
        Body::Subscribe { ch, .. } => Want::Subscribe { ch: *ch },
        Body::Unsubscribe { sub, .. } => Want::Unsubscribe { sub: *sub },
    };
    Rx { want, id }
}
/// Content a successful unwrap must return.
pub fn content(b: &Body, w: &Want) -> Content {
    match b {
        Body::Header { typ, .. } => vec![typ.clone()],
        Body::Announce { k, ntru } => {
            vec![mssp(k.0).pk.clone(), ntru.map(|i| ntrup(i).pkt.clone()).unwrap_or_default()]
        }
        Body::ChangeKey { k, .. } => vec![mssp(k.0).pk.clone()],
        Body::Keyload { .. } => vec![],
        Body::Signed { public, masked, k, .. } => match w {
            Want::SignedRecover => vec![mssp(k.0).pk.clone(), public.clone(), masked.clone()],
            _ => vec![public.clone(), masked.clone()],
        },
        Body::Tagged { public, masked, .. } => vec![public.clone(), masked.clone()],
        Body::Subscribe { sub, .. } | Body::Unsubscribe { sub, .. } => vec![ntrup(*sub).pkt.clone()],
    }
}

pub fn lib_sizeof(b: &Body) -> usize {
    let sk = |k: &K| &mssp(k.0).at[k.1];
    match b {
        Body::Header { typ, .. } => header::sizeof(typ.len() / 3),
        Body::Announce { k, ntru } => announce::sizeof(sk(k), ntru.is_some()),
        Body::ChangeKey { k, lk, .. } => change_key::sizeof(sk(k), sk(lk)),
        Body::Keyload { psks, ntrus, .. } => {
            let p: Vec<(Trits, Trits)> = psks.iter().map(|(a, b)| (tr(a), tr(b))).collect();
            let n: Vec<(Trits, &ntru::PublicKey)> = ntrus.iter().map(|i| (tr(&ntrup(*i).id()), &ntrup(*i).pk)).collect();
            keyload::sizeof(&mut p.iter().map(|(a, b)| (a, b)), &mut n.iter().map(|(a, b)| (a, *b)))
        }
        Body::Signed { public, masked, k, .. } => signed_packet::sizeof(public.len() / 3, masked.len() / 3, sk(k)),
        Body::Tagged { public, masked, .. } => tagged_packet::sizeof(public.len() / 3, masked.len() / 3),
        Body::Subscribe { .. } => subscribe::sizeof(),
        Body::Unsubscribe { .. } => unsubscribe::sizeof(),
    }
}
/// Wrap into `b` exactly as an application would.
pub fn lib_wrap_into(m: &Body, s: &mut Spongos, slink: &mut Spongos, b: &mut TritSliceMut) -> Result<(), String> {
    let sk = |k: &K| &mssp(k.0).at[k.1];
    match m {
        Body::Header { typ, appinst: a, msgid: i } => {
            let i = msgid(i).ok_or("msgid not constructible")?;
            header::wrap(&Trytes(tr(typ)), &appinst(a), &i, s, b)
        }
        Body::Announce { k, ntru } => announce::wrap(sk(k), &ntru.map(|i| ntrup(i).pk.clone()), s, b),
        Body::ChangeKey { id, k, lk } => change_key::wrap(sl(id), slink, sk(k), sk(lk), s, b),
        Body::Keyload { id, nonce, psks, ntrus, prng, key } => {
            let p: Vec<(Trits, Trits)> = psks.iter().map(|(a, b)| (tr(a), tr(b))).collect();
            let n: Vec<(Trits, &ntru::PublicKey)> = ntrus.iter().map(|i| (tr(&ntrup(*i).id()), &ntrup(*i).pk)).collect();
            keyload::wrap(
                sl(id),
                slink,
                &tr(nonce),
                &mut p.iter().map(|(a, b)| (a, b)),
                &mut n.iter().map(|(a, b)| (a, *b)),
                &PRNG::init(sl(prng)),
                &tr(key),
                s,
                b,
            )
        }
        Body::Signed { id, public, masked, k } => {
            let i = msgid(id).ok_or("msgid not constructible")?;
            signed_packet::wrap(&i, slink, &Trytes(tr(public)), &Trytes(tr(masked)), sk(k), s, b)
        }
        Body::Tagged { id, public, masked } => {
            let i = msgid(id).ok_or("msgid not constructible")?;
            tagged_packet::wrap(&i, slink, &Trytes(tr(public)), &Trytes(tr(masked)), s, b)
        }
        Body::Subscribe { id, prng, nonce, sub, ch } => {
            subscribe::wrap(sl(id), slink, &PRNG::init(sl(prng)), sl(nonce), &ntrup(*sub).pk, &ntrup(*ch).pk, s, b)
        }
        Body::Unsubscribe { id, .. } => unsubscribe::wrap(sl(id), slink, s, b),
    }
    Ok(())
}
/// Wrap into a window of a larger buffer and check the window is filled and nothing else touched.
pub fn lib_wrap(m: &Body, s: &mut Spongos, slink: &mut Spongos, pad: (usize, usize), fill: u8) -> Result<Vec<u8>, String> {
    let n = lib_sizeof(m);
    let mut buf = vec![fill; pad.0 + n + pad.1];
    let left;
    {
        let mut b = slm(&mut buf).drop(pad.0).take(n);
        lib_wrap_into(m, s, slink, &mut b)?;
        left = b.size();
    }
    if left != 0 {
        return Err(format!("wrapping left {} of the {} advertised trits unused", left, n));
    }
    if let Some(i) = (0..buf.len()).find(|i| (*i < pad.0 || *i >= pad.0 + n) && buf[*i] != fill) {
        return Err(format!("wrapping changed trit {} outside of the message window {}..{}", i, pad.0, pad.0 + n));
    }
    if let Some(i) = buf.iter().position(|t| *t > 2) {
        return Err(format!("wrapped message has an invalid trit at {}", i as isize - pad.0 as isize));
    }
    Ok(buf[pad.0..pad.0 + n].to_vec())
}
pub struct Got {
    pub res: Result<Content, String>,
    pub used: usize,
    /// the input buffer was modified
    pub dirty: bool,
}
thread_local! {
    /// identifiers the link lookup was asked for, while recorded
    pub static ASKED: std::cell::RefCell<Option<Vec<Vec<u8>>>> = const { std::cell::RefCell::new(None) };
}
/// Unwrap the trits of `b`.
pub fn lib_unwrap(rx: &Rx, s: &mut Spongos, slink: &Spongos, mut b: TritSlice) -> Got {
    let n = b.size();
    let look = |id: TritSlice| {
        ASKED.with(|a| if let Some(a) = a.borrow_mut().as_mut() { a.push(tv(id)) });
        match &rx.id {
        Some(k) => {
            if tv(id) == *k {
                Some((slink.fork(), ()))
            } else {
                None
            }
        }
        None => Some((slink.fork(), ())),
        }
    };
    let e = |e: iota_mam::pb3::Err| format!("{:?}", e);
    let b = &mut b;
    let res = match &rx.want {
        Want::Header { appinst: a, msgid: i } => match msgid(i) {
            None => Err("msgid not constructible".to_string()),
            Some(i) => header::unwrap(&appinst(a), &i, s, b).map(|t| vec![tvt(&t.0)]).map_err(e),
        },
        Want::Announce => announce::unwrap(s, b)
            .map(|(p, n)| vec![msspk_v(&p), n.map(|k| ntrupk_v(&k)).unwrap_or_default()])
            .map_err(e),
        Want::ChangeKey { linkpk } => match msspk(linkpk) {
            None => Err("pk not constructible".into()),
            Some(pk) => {
                let f = |id: TritSlice| look(id).map(|(s, _)| (s, pk.clone()));
                change_key::unwrap(f, s, b).map(|p| vec![msspk_v(&p)]).map_err(e)
            }
        },
        Want::Keyload { psks, ntrus } => {
            let p: HashMap<Trits, Trits> = psks.iter().map(|(a, b)| (tr(a), tr(b))).collect();
            let n: HashMap<Trits, ntru::PrivateKey> = ntrus.iter().map(|(a, i)| (tr(a), ntrup(*i).sk.clone())).collect();
            keyload::unwrap(look, &p, &n, s, b).map(|_| vec![]).map_err(e)
        }
        Want::SignedRecover => signed_packet::unwrap_recover(look, s, b)
            .map(|(k, p, m)| vec![msspk_v(&k), tvt(&p.0), tvt(&m.0)])
            .map_err(e),
        Want::SignedVerify { pk } => match msspk(pk) {
            None => Err("pk not constructible".into()),
            Some(pk) => signed_packet::unwrap_verify(look, &pk, s, b).map(|(p, m)| vec![tvt(&p.0), tvt(&m.0)]).map_err(e),
        },
        Want::Tagged => tagged_packet::unwrap(look, s, b).map(|(p, m)| vec![tvt(&p.0), tvt(&m.0)]).map_err(e),
        Want::Subscribe { ch } => subscribe::unwrap(look, &ntrup(*ch).sk, s, b).map(|k| vec![ntrupk_v(&k)]).map_err(e),
        Want::Unsubscribe { sub } => {
            let f = |id: TritSlice| look(id).map(|(s, _)| (s, ntrup(*sub).pk.clone()));
            unsubscribe::unwrap(f, s, b).map(|k| vec![ntrupk_v(&k)]).map_err(e)
        }
    };
    Got { res, used: n.wrapping_sub(b.size()), dirty: false }
}
/// Unwrap with the whole message in a heap buffer of exactly its size, or inside a larger one.
pub fn lib_unwrap_v(rx: &Rx, s: &mut Spongos, slink: &Spongos, v: &[u8], r: &mut Rng) -> Got {
    if r.chance(1, 2) {
        lib_unwrap_exact(rx, s, slink, v)
    } else {
        lib_unwrap_embedded(rx, s, slink, v, r)
    }
}
pub fn lib_unwrap_exact(rx: &Rx, s: &mut Spongos, slink: &Spongos, v: &[u8]) -> Got {
    let c = v.to_vec().into_boxed_slice();
    let mut g = lib_unwrap(rx, s, slink, TritSlice::from_slice(c.len(), &c));
    g.dirty = c[..] != *v;
    g
}
pub fn lib_unwrap_embedded(rx: &Rx, s: &mut Spongos, slink: &Spongos, v: &[u8], r: &mut Rng) -> Got {
    let (a, z) = (r.below(30), r.below(600));
    let mut c = r.trits(a);
    c.extend_from_slice(v);
    c.extend(r.trits(z));
    let orig = c.clone();
    let mut g = lib_unwrap(rx, s, slink, sl(&c).drop(a).take(v.len()));
    g.dirty = c != orig;
    g
}

// ---------------------------------------------------------------- model
pub fn ref_wrap(m: &Body, s: &mut RS, slink: &mut RS) -> Option<Vec<u8>> {
    let mut o = vec![];
    let sign = |k: &K, h: &[u8]| twist(&mssp(k.0).model().sign(k.1, h));
    match m {
        Body::Header { typ, appinst, msgid } => {
            put(Md::Absorb, &unbal(1, 3), s, &mut o);
            put_trytes(Md::Absorb, typ, s, &mut o);
            s.absorb(appinst);
            s.absorb(msgid);
        }
        Body::Announce { k, ntru } => {
            put(Md::Absorb, mssp(k.0).model().pk(), s, &mut o);
            match ntru {
                Some(i) => {
                    put(Md::Absorb, &unbal(1, 3), s, &mut o);
                    put(Md::Absorb, &ntrup(*i).model().pk, s, &mut o);
                }
                None => put(Md::Absorb, &unbal(0, 3), s, &mut o),
            }
            let h = mss_hash(s);
            o.extend(sign(k, &h));
        }
        Body::ChangeKey { id, k, lk } => {
            s.join(slink);
            o.extend_from_slice(id);
            put(Md::Absorb, mssp(k.0).model().pk(), s, &mut o);
            let h = mss_hash(s);
            o.extend(sign(k, &h));
            o.extend(sign(lk, &h));
        }
        Body::Keyload { id, nonce, psks, ntrus, prng, key } => {
            s.join(slink);
            o.extend_from_slice(id);
            put(Md::Absorb, nonce, s, &mut o);
            put_size(Md::Absorb, psks.len() as u64, s, &mut o);
            for (i, p) in psks {
                let mut f = s.clone();
                put(Md::Absorb, i, &mut f, &mut o);
                f.absorb(p);
                f.commit();
                put(Md::Mask, key, &mut f, &mut o);
            }
            put_size(Md::Absorb, ntrus.len() as u64, s, &mut o);
            for i in ntrus {
                let mut f = s.clone();
                let pk = &ntrup(*i).model().pk;
                put(Md::Absorb, &pk[..81], &mut f, &mut o);
                o.extend(twist(&ntru_encr(&mut f, prng, pk, nonce, key)?));
            }
            s.absorb(key);
            s.commit();
        }
        Body::Signed { id, public, masked, k } => {
            s.join(slink);
            o.extend_from_slice(id);
            put_trytes(Md::Absorb, public, s, &mut o);
            put_trytes(Md::Mask, masked, s, &mut o);
            let h = mss_hash(s);
            o.extend(sign(k, &h));
        }
        Body::Tagged { id, public, masked } => {
            s.join(slink);
            o.extend_from_slice(id);
            put_trytes(Md::Absorb, public, s, &mut o);
            put_trytes(Md::Mask, masked, s, &mut o);
            put_mac(s, &mut o);
        }
        Body::Subscribe { id, prng: pk, nonce, sub, ch } => {
            s.join(slink);
            o.extend_from_slice(id);
            let uk = prng(pk, &[nonce], 243);
            o.extend(twist(&ntru_encr(s, pk, &ntrup(*ch).model().pk, nonce, &uk)?));
            s.commit();
            put(Md::Mask, &ntrup(*sub).model().pk, s, &mut o);
            put_mac(s, &mut o);
        }
        Body::Unsubscribe { id, .. } => {
            s.join(slink);
            o.extend_from_slice(id);
            put_mac(s, &mut o);
        }
    }
    Some(o)
}
fn ref_join(rx: &Rx, s: &mut RS, slink: &RS, c: &mut Cur) -> Rr<()> {
    let id = c.take(81)?;
    if let Some(k) = &rx.id {
        if id != &k[..] {
            return Err("link");
        }
    }
    s.join(&mut slink.clone());
    Ok(())
}
fn get_ntrupk(md: Md, s: &mut RS, c: &mut Cur) -> Rr<Vec<u8>> {
    let p = get(md, 9216, s, c)?;
    if ntru_pk_ok(&p) {
        Ok(p)
    } else {
        Err("ntru pk")
    }
}
pub fn ref_unwrap(rx: &Rx, s: &mut RS, slink: &RS, c: &mut Cur) -> Rr<Content> {
    Ok(match &rx.want {
        Want::Header { appinst, msgid } => {
            if bal(&get(Md::Absorb, 3, s, c)?) != 1 {
                return Err("version");
            }
            let t = get_trytes(Md::Absorb, s, c)?;
            s.absorb(appinst);
            s.absorb(msgid);
            vec![t]
        }
        Want::Announce => {
            let pk = get(Md::Absorb, 243, s, c)?;
            let n = match bal(&get(Md::Absorb, 3, s, c)?) {
                0 => vec![],
                1 => get_ntrupk(Md::Absorb, s, c)?,
                _ => return Err("oneof"),
            };
            let h = mss_hash(s);
            if get_sig(&h, c)? != pk {
                return Err("sig");
            }
            vec![pk, n]
        }
        Want::ChangeKey { linkpk } => {
            ref_join(rx, s, slink, c)?;
            let pk = get(Md::Absorb, 243, s, c)?;
            let h = mss_hash(s);
            if get_sig(&h, c)? != pk {
                return Err("sig");
            }
            if get_sig(&h, c)? != *linkpk {
                return Err("linked sig");
            }
            vec![pk]
        }
        Want::Keyload { psks, ntrus } => {
            ref_join(rx, s, slink, c)?;
            get(Md::Absorb, 81, s, c)?;
            let mut key = None;
            let np = get_size(Md::Absorb, s, c)?;
            for _ in 0..np {
                let mut f = s.clone();
                let id = c.take(81)?;
                let e = c.take(243)?;
                if key.is_none() {
                    // later duplicates override earlier ones in the receiver's map
                    if let Some((_, p)) = psks.iter().rev().find(|(i, _)| i == id) {
                        f.absorb(id);
                        f.absorb(p);
                        f.commit();
                        key = Some(f.decr(e));
                    }
                }
            }
            let nn = get_size(Md::Absorb, s, c)?;
            for _ in 0..nn {
                let mut f = s.clone();
                let id = c.take(81)?;
                let e = c.take(9216)?;
                if key.is_none() {
                    if let Some((_, i)) = ntrus.iter().rev().find(|(i, _)| i == id) {
                        f.absorb(id);
                        key = Some(ntru_decr(&mut f, &ntrup(*i).model().sk, e).ok_or("ntru")?);
                    }
                }
            }
            s.absorb(&key.ok_or("no key")?);
            s.commit();
            vec![]
        }
        Want::SignedRecover | Want::SignedVerify { .. } => {
            ref_join(rx, s, slink, c)?;
            let p = get_trytes(Md::Absorb, s, c)?;
            let m = get_trytes(Md::Mask, s, c)?;
            let h = mss_hash(s);
            let k = get_sig(&h, c)?;
            match &rx.want {
                Want::SignedVerify { pk } => {
                    if *pk != k {
                        return Err("sig");
                    }
                    vec![p, m]
                }
                _ => vec![k, p, m],
            }
        }
        Want::Tagged => {
            ref_join(rx, s, slink, c)?;
            let p = get_trytes(Md::Absorb, s, c)?;
            let m = get_trytes(Md::Mask, s, c)?;
            get_mac(s, c)?;
            vec![p, m]
        }
        Want::Subscribe { ch } => {
            ref_join(rx, s, slink, c)?;
            let e = c.take(9216)?;
            ntru_decr(s, &ntrup(*ch).model().sk, e).ok_or("ntru")?;
            s.commit();
            let p = get_ntrupk(Md::Mask, s, c)?;
            get_mac(s, c)?;
            vec![p]
        }
        Want::Unsubscribe { sub } => {
            ref_join(rx, s, slink, c)?;
            get_mac(s, c)?;
            vec![ntrup(*sub).pkt.clone()]
        }
    })
}
