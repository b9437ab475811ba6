//! Conversions between plain vectors and the crate's containers; state fingerprints.
use crate::rmodel::RS;
use crate::rng::Rng;
use iota_mam::app::core::{AppInst, MsgId};
use iota_mam::pb3::Absorb;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use iota_mam::{mss, ntru};

pub fn tr(v: &[u8]) -> Trits {
    TritSlice::from_slice(v.len(), v).clone_trits()
}
pub fn tv(t: TritSlice) -> Vec<u8> {
    let mut v = vec![0u8; t.size()];
    t.get_trits(&mut v);
    v
}
pub fn tvt(t: &Trits) -> Vec<u8> {
    tv(t.slice())
}
pub fn sl(v: &[u8]) -> TritSlice<'_> {
    TritSlice::from_slice(v.len(), v)
}
pub fn slm(v: &mut [u8]) -> TritSliceMut<'_> {
    TritSliceMut::from_slice_mut(v.len(), v)
}
pub fn hexs(v: &[u8]) -> String {
    let s: String = v.iter().take(60).map(|t| (b'0' + t) as char).collect();
    if v.len() > 60 {
        format!("{}..({})", s, v.len())
    } else {
        s
    }
}
pub fn diff_at(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at trit {} of {}", i, a.len()),
        None => "equal".into(),
    }
}
/// State fingerprint: what a copy of the sponge would squeeze, over more than two blocks.
pub fn fp(s: &Spongos) -> Vec<u8> {
    let mut f = s.fork();
    tvt(&f.squeeze_trits(1100))
}
pub fn rfp(s: &RS) -> Vec<u8> {
    s.clone().squeeze(1100)
}
pub fn msspk(v: &[u8]) -> Option<mss::PublicKey> {
    let mut s = Spongos::init();
    let mut b = sl(v);
    mss::PublicKey::unwrap_absorb_sized(&mut s, &mut b).ok()
}
pub fn msspk_v(pk: &mss::PublicKey) -> Vec<u8> {
    let mut v = vec![0u8; mss::PK_SIZE];
    let mut s = Spongos::init();
    pk.wrap_absorb(&mut s, &mut slm(&mut v));
    v
}
pub fn ntrupk_v(pk: &ntru::PublicKey) -> Vec<u8> {
    tv(pk.trits())
}
pub fn msgid(v: &[u8]) -> Option<MsgId> {
    let mut s = Spongos::init();
    let mut b = sl(v);
    MsgId::unwrap_absorb_sized(&mut s, &mut b).ok()
}
pub fn appinst(v: &[u8]) -> AppInst {
    AppInst::from_trits(tr(v))
}

/// Recipe of a sponge state, buildable in the crate and in the model.
#[derive(Clone, Debug)]
pub enum POp {
    Absorb(Vec<u8>),
    Squeeze(usize),
    Encr(Vec<u8>),
    Commit,
}
pub type Pre = Vec<POp>;
pub fn gen_pre(r: &mut Rng) -> Pre {
    let mut p = vec![];
    match r.below(5) {
        0 => {}
        1 => p.push(POp::Absorb(r.trits(243))),
        _ => {
            for _ in 0..r.range(1, 4) {
                let n = r.tail(700);
                p.push(match r.below(4) {
                    0 => POp::Squeeze(n),
                    1 => {
                        let v = r.trits(n);
                        POp::Encr(v)
                    }
                    _ => {
                        let v = r.trits(n);
                        POp::Absorb(v)
                    }
                });
                if r.chance(1, 2) {
                    p.push(POp::Commit);
                }
            }
        }
    }
    p
}
pub fn lib_state(p: &Pre) -> Spongos {
    let mut s = Spongos::init();
    for o in p {
        match o {
            POp::Absorb(v) => s.absorb(sl(v)),
            POp::Squeeze(n) => {
                s.squeeze_trits(*n);
            }
            POp::Encr(v) => {
                s.encr_trits(&tr(v));
            }
            POp::Commit => s.commit(),
        }
    }
    s
}
pub fn ref_state(p: &Pre) -> RS {
    let mut s = RS::new();
    for o in p {
        match o {
            POp::Absorb(v) => s.absorb(v),
            POp::Squeeze(n) => {
                s.squeeze(*n);
            }
            POp::Encr(v) => {
                s.encr(v);
            }
            POp::Commit => s.commit(),
        }
    }
    s
}
