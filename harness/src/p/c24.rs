//! C24 errors name the check that failed. Oracle: the position and cause at which the independent
//! decoder stops; for single designed faults also the cause the documentation names.
use crate::eng::*;
use crate::msg::*;
use crate::p::c02::gen_link;
use crate::p::c03::{genuine, judge};
use crate::p::{c03, c22};
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::spongos::Spongos;
use iota_mam::trits::TritSlice;

pub fn groups() -> Vec<Group> {
    vec![
        g("faults", 320, faults),
        g("recipients", 120, recipients),
        g("tags", 54, |c| with(c, c03::tags)),
        g("mutated", 200, |c| with(c, c03::mutated)),
        g("crafted", 240, |c| with(c, c03::crafted)),
        g("random", 100, |c| with(c, c03::random)),
        g("truncated", 160, |c| with(c, c03::truncated)),
        g("keyload", 120, |c| with(c, c03::keyload)),
        g("sighead", 42, |c| with(c, c03::sighead)),
        g("twisted", 260, |c| with(c, c03::twisted)),
        g("fields", 900, |c| with(c, c03::fields)),
        g("altered", 240, |c| with(c, c22::altered)),
        g("cut", 240, |c| with(c, c22::cut)),
        g("asym", 24, |c| with(c, c22::asym)),
        g("short", 120, short),
        g("repeated", 60, repeated),
        g("names", 11, names),
    ]
}
fn with(c: &mut Ctx, f: fn(&mut Ctx) -> R) -> R {
    c.causes = true;
    f(c)
}
/// The error must be one of those the documentation names for this fault.
fn expect(c: &mut Ctx, rx: &Rx, p0: &Pre, pl: &Pre, v: &[u8], want: &[&str], what: &str) -> R {
    let mut s = lib_state(p0);
    let got = lib_unwrap_exact(rx, &mut s, &lib_state(pl), v);
    match got.res {
        Err(e) if want.contains(&&e[..]) => {
            c.ev("designed faults named");
            Ok(())
        }
        r => Err(format!("{}: {} instead of {}", what, r.err().unwrap_or_else(|| "accepted".into()), want.join(" or "))),
    }
}
/// One fault in a message that is genuine otherwise.
fn faults(c: &mut Ctx) -> R {
    c.causes = true;
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let (m, rx, p0, pl, v) = genuine(&mut r, kind)?;
    let name = KIND_NAMES[kind];
    let signed = match &m {
        Body::Announce { k, .. } | Body::Signed { k, .. } => iota_mam::mss::sig_size(mssp(k.0).height),
        Body::ChangeKey { k, lk, .. } => iota_mam::mss::sig_size(mssp(k.0).height) + iota_mam::mss::sig_size(mssp(lk.0).height),
        _ => 0,
    };
    let linked = body_id(&m).is_some();
    // the end of the input
    for _ in 0..3 {
        let n = r.below(v.len());
        let want: &[&str] = if n < v.len() - signed { &["Eof"] } else { &["Eof", "BadValue"] };
        expect(c, &rx, &p0, &pl, &v[..n], want, &format!("{} cut to {} of {} trits", name, n, v.len()))?;
        judge(c, &mut r, &rx, &p0, &pl, &v[..n], "a truncated message")?;
    }
    if linked {
        // a link the receiver does not know, however wrong the rest is
        let mut w = v.clone();
        let i = r.below(81);
        w[i] = (w[i] + 1 + r.below(2) as u8) % 3;
        if r.chance(1, 2) {
            let j = 81 + r.below(w.len() - 81);
            w[j] = (w[j] + 1) % 3;
        }
        let n = match r.below(6) {
            0 => 81 + r.below((w.len() - 80).min(6)),
            1 => 81,
            2 => 81 + r.below(w.len() - 80),
            _ => w.len(),
        };
        expect(c, &rx, &p0, &pl, &w[..n], &["LinkNotFound"], &format!("{} with trit {} of its link altered, {} trits", name, i, n))?;
        judge(c, &mut r, &rx, &p0, &pl, &w[..n], "a message with another link")?;
        let other = Rx { want: rx.want.clone(), id: Some(r.trits(81)) };
        expect(c, &other, &p0, &pl, &v, &["LinkNotFound"], &format!("{} for a receiver without its link", name))?;
    }
    // one altered trit where it meets one check only
    let n = v.len();
    let at = |i: usize, by: u8| {
        let mut w = v.clone();
        w[i] = (w[i] + by) % 3;
        w
    };
    let by = 1 + r.below(2) as u8;
    match &m {
        Body::Header { .. } => {
            let w = at(r.below(3), by);
            expect(c, &rx, &p0, &pl, &w, &["VersionUnsupported"], "header of another version")?;
        }
        Body::Announce { .. } | Body::ChangeKey { .. } | Body::Signed { .. } => {
            let rx = match &m {
                Body::Signed { k, id, .. } => Rx { want: Want::SignedVerify { pk: mssp(k.0).pk.clone() }, id: Some(id.clone()) },
                _ => rx.clone(),
            };
            // public key and hash parts; never the two numbers in front of the (last) signature
            let last = match &m {
                Body::ChangeKey { lk, .. } => iota_mam::mss::sig_size(mssp(lk.0).height),
                _ => signed,
            };
            let i = n - last + 18 + r.below(last - 18);
            expect(c, &rx, &p0, &pl, &at(i, by), &["MssVerifyFailed"], &format!("{} with trit {} of its signature altered", name, i + last - n))?;
            if let Body::Announce { .. } = &m {
                let i = r.below(243);
                expect(c, &rx, &p0, &pl, &at(i, by), &["MssVerifyFailed"], "announce of another public key")?;
            }
            if let Body::ChangeKey { .. } = &m {
                let i = 81 + r.below(243);
                expect(c, &rx, &p0, &pl, &at(i, by), &["MssVerifyFailed"], "change to another public key")?;
                let mut pk = v[81..324].to_vec();
                if r.chance(1, 2) {
                    pk = r.trits(243);
                }
                if let Want::ChangeKey { linkpk } = &rx.want {
                    if *linkpk != pk {
                        let rx = Rx { want: Want::ChangeKey { linkpk: pk }, id: rx.id.clone() };
                        expect(c, &rx, &p0, &pl, &v, &["MssVerifyFailed"], "change key with another linked key")?;
                    }
                }
            }
            if let Body::Signed { .. } = &m {
                let rx = Rx { want: Want::SignedVerify { pk: r.trits(243) }, id: rx.id.clone() };
                expect(c, &rx, &p0, &pl, &v, &["MssVerifyFailed"], "signed packet verified with another key")?;
            }
            // starting states
            let mut q = p0.clone();
            q.push(POp::Absorb(r.trits(9)));
            judge(c, &mut r, &rx, &q, &pl, &v, "a message in another state")?;
        }
        Body::Tagged { public, masked, .. } => {
            let i = n - 1 - r.below(243);
            expect(c, &rx, &p0, &pl, &at(i, by), &["MacVerifyFailed"], "tagged packet with an altered MAC")?;
            if !masked.is_empty() {
                let i = n - 244 - r.below(masked.len());
                expect(c, &rx, &p0, &pl, &at(i, by), &["MacVerifyFailed"], "tagged packet with an altered masked payload")?;
            }
            if !public.is_empty() {
                let i = 81 + size_code(public.len() as u64 / 3).len() + r.below(public.len());
                judge(c, &mut r, &rx, &p0, &pl, &at(i, by), "a tagged packet with an altered public payload")?;
            }
        }
        Body::Subscribe { .. } => {
            let i = 81 + r.below(9216);
            expect(c, &rx, &p0, &pl, &at(i, by), &["NtruDecrFailed"], "subscription with an altered capsule")?;
            let i = n - 1 - r.below(243);
            expect(c, &rx, &p0, &pl, &at(i, by), &["MacVerifyFailed"], "subscription with an altered MAC")?;
            for _ in 0..3 {
                let i = 81 + 9216 + r.below(9216);
                // another key, or none at all
                expect(c, &rx, &p0, &pl, &at(i, by), &["MacVerifyFailed", "NtruBadPublicKey"], "subscription with an altered key")?;
                judge(c, &mut r, &rx, &p0, &pl, &at(i, by), "a subscription with an altered key")?;
            }
        }
        Body::Unsubscribe { .. } => {
            let i = n - 1 - r.below(243);
            expect(c, &rx, &p0, &pl, &at(i, by), &["MacVerifyFailed"], "unsubscription with an altered MAC")?;
            let mut q = pl.clone();
            q.insert(0, POp::Absorb(unbal(5, 9)));
            expect(c, &rx, &p0, &q, &v, &["MacVerifyFailed"], "unsubscription in another linked state")?;
        }
        Body::Keyload { .. } => {
            let rx = Rx { want: Want::Keyload { psks: vec![], ntrus: vec![] }, id: rx.id.clone() };
            expect(c, &rx, &p0, &pl, &v, &["KeyNotFound"], "keyload without keys")?;
        }
    }
    c.seen_b(&v);
    Ok(())
}
/// Keyloads for others, and for receivers with other secrets.
fn recipients(c: &mut Ctx) -> R {
    c.causes = true;
    let mut r = c.rng.clone();
    let (p0, pl) = (gen_pre(&mut r), gen_link(&mut r));
    let (np, nn) = (r.below(4), r.below(3));
    let m = gen_keyload(&mut r, np, nn);
    let v = lib_wrap(&m, &mut lib_state(&p0), &mut lib_state(&pl), (0, 0), 0)?;
    if let Body::Keyload { id, psks, ntrus, .. } = &m {
        let mut near: Vec<(Vec<u8>, Vec<u8>)> = psks
            .iter()
            .map(|p| {
                let mut i = p.0.clone();
                let k = r.below(81);
                i[k] = (i[k] + 1) % 3;
                (i, p.1.clone())
            })
            .collect();
        near.retain(|n| !psks.iter().any(|p| p.0 == n.0));
        let other: Vec<(Vec<u8>, usize)> = (0..4).filter(|i| !ntrus.iter().any(|n| ntrup(*n).id() == ntrup(*i).id())).map(|i| (ntrup(i).id(), i)).collect();
        let rx = |psks: Vec<(Vec<u8>, Vec<u8>)>, ntrus: Vec<(Vec<u8>, usize)>| Rx { want: Want::Keyload { psks, ntrus }, id: Some(id.clone()) };
        let who = rx(near.clone(), other.clone());
        expect(c, &who, &p0, &pl, &v, &["KeyNotFound"], "keyload for others")?;
        judge(c, &mut r, &who, &p0, &pl, &v, "a keyload for others")?;
        // trailing data does not matter
        let mut w = v.clone();
        let n = r.below(400);
        w.extend(r.trits(n));
        expect(c, &who, &p0, &pl, &w, &["KeyNotFound"], "keyload for others with other data behind")?;
        // the identity of one, the secret of another
        if let Some(k) = ntrus.first() {
            if let Some(o) = other.first() {
                let who = rx(near, vec![(ntrup(*k).id(), o.1)]);
                expect(c, &who, &p0, &pl, &v, &["NtruDecrFailed"], "keyload opened with the secret of another")?;
                judge(c, &mut r, &who, &p0, &pl, &v, "a keyload opened with the secret of another")?;
            }
        }
        // cut before an entry is complete: the end comes first
        let n = r.below(v.len());
        expect(c, &rx(vec![], vec![]), &p0, &pl, &v[..n], &["Eof"], "cut keyload for others")?;
    }
    c.seen_b(&v);
    Ok(())
}
/// Every field type and command one trit short of its fixed part, in all call forms.
fn short(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let pre = gen_pre(&mut r);
    let sizes = [3usize, 6, 9, 18, 243, 9216, 81, 243, 9216, 3, 3, 3];
    let k = c.idx % sizes.len();
    for round in 0..4 {
        let n = match round {
            0 => sizes[k] - 1,
            1 => 0,
            _ => r.below(sizes[k]),
        };
        let v = r.trits(n).into_boxed_slice();
        let mut s = lib_state(&pre);
        let mut b = TritSlice::from_slice(n, &v);
        let e: Result<(), pb3::Err> = {
            let (s, b) = (&mut s, &mut b);
            let mask = r.chance(1, 2);
            macro_rules! un {
                ($t:ty, $old:expr) => {
                    match (mask, r.chance(1, 2)) {
                        (true, true) => <$t>::unwrap_mask_sized(s, b).map(|_| ()),
                        (false, true) => <$t>::unwrap_absorb_sized(s, b).map(|_| ()),
                        (true, false) => {
                            let mut x: $t = $old;
                            x.unwrap_mask(s, b)
                        }
                        (false, false) => {
                            let mut x: $t = $old;
                            x.unwrap_absorb(s, b)
                        }
                    }
                };
            }
            match k {
                0 => un!(pb3::Trint3, pb3::Trint3(1)),
                1 => un!(pb3::Trint6, pb3::Trint6(1)),
                2 => un!(pb3::Trint9, pb3::Trint9(1)),
                3 => un!(pb3::Trint18, pb3::Trint18(1)),
                4 => un!(iota_mam::mss::PublicKey, mssp(0).at[0].public_key().clone()),
                5 => un!(iota_mam::ntru::PublicKey, ntrup(0).pk.clone()),
                6 => pb3::join::unwrap_join(|_| Some((Spongos::init(), ())), s, b).map(|_| ()),
                7 => pb3::mac::unwrap_mac(s, b),
                8 => {
                    let mut key = [0u8; 243];
                    pb3::ntrukem::unwrap_ntrukem(slm(&mut key), &ntrup(0).sk, s, b)
                }
                9 => un!(pb3::Size, pb3::Size(1)),
                10 => un!(pb3::Trytes, pb3::Trytes(tr(&[1; 9]))),
                _ => {
                    let mut x = [0u8; 3];
                    if mask {
                        pb3::unwrap_mask_trits(slm(&mut x), s, b)
                    } else {
                        pb3::unwrap_absorb_trits(slm(&mut x), s, b)
                    }
                }
            }
        };
        ck!(e == Err(pb3::Err::Eof), "field or command {} from {} trits: {:?} instead of Eof", k, n, e);
        c.ev("short inputs named");
        c.seen_b(&v);
    }
    Ok(())
}
/// The same refusal is the same error: again, in another order, in other threads.
fn repeated(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut jobs = vec![];
    for k in 0..6 {
        let (_, rx, p0, pl, mut w) = genuine(&mut r, (c.idx + k) % KINDS)?;
        if r.chance(1, 2) {
            let i = r.below(w.len());
            w[i] = (w[i] + 1) % 3;
        } else {
            let n = r.below(w.len());
            w.truncate(n);
        }
        jobs.push((rx, p0, pl, w));
    }
    let run = |j: &(Rx, Pre, Pre, Vec<u8>)| lib_unwrap_exact(&j.0, &mut lib_state(&j.1), &lib_state(&j.2), &j.3).res.map(|_| ());
    let first: Vec<Result<(), String>> = jobs.iter().map(run).collect();
    for k in (0..jobs.len()).rev() {
        ck!(run(&jobs[k]) == first[k], "the same input is refused with {:?} and with {:?}", first[k], run(&jobs[k]));
        c.ev("refusals repeated");
    }
    c.seen_b(&jobs.iter().flat_map(|j| j.3.clone()).collect::<Vec<u8>>());
    Ok(())
}
/// The errors themselves: told apart by comparison, name and text.
fn names(c: &mut Ctx) -> R {
    use pb3::Err as E;
    let all = [
        E::BadOneOf,
        E::BadValue,
        E::Eof,
        E::InternalError,
        E::KeyNotFound,
        E::LinkNotFound,
        E::MacVerifyFailed,
        E::MssVerifyFailed,
        E::NtruBadPublicKey,
        E::NtruDecrFailed,
        E::VersionUnsupported,
    ];
    let at = c.idx % all.len();
    let e = all[at];
    let boxed: Box<dyn std::error::Error> = Box::new(e);
    ck!(boxed.to_string() == e.to_string() && !e.to_string().is_empty(), "{:?} has the texts {} and {}", e, boxed, e);
    #[allow(deprecated)]
    let d = std::error::Error::description(&e).to_string();
    ck!(d == e.to_string(), "{:?} is described as {} and {}", e, d, e);
    for (i, f) in all.iter().enumerate() {
        let same = i == at;
        ck!((e == *f) == same && (e.to_string() == f.to_string()) == same && (format!("{:?}", e) == format!("{:?}", f)) == same, "{:?} and {:?} are not told apart", e, f);
        ck!(pb3::err::guard(true, *f) == Ok(()) && pb3::err::guard(false, *f) == Err(*f), "guard does not give {:?}", f);
        c.ev("errors compared");
    }
    let x = e;
    ck!(x == e.clone(), "a copy of {:?} differs", e);
    c.seen(at as u64 + 1);
    let _: Option<Rng> = None;
    Ok(())
}
