//! C05 wire format: crate and independent model produce and accept the same trits and states.
use crate::eng::*;
use crate::msg::*;
use crate::rmodel::*;
use crate::util::*;

pub fn groups() -> Vec<Group> {
    vec![g("wire", 480, wire), g("accept", 240, accept), g("sequence", 40, sequence)]
}
fn wire(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = if c.idx % 48 == 3 { gen_keyload(&mut r, 0, 0) } else { gen_body(&mut r, kind) };
    let (p0, pl) = (gen_pre(&mut r), gen_pre(&mut r));
    let d = describe(&m);
    c.sample(d.clone());
    let mut s = lib_state(&p0);
    let mut sl0 = lib_state(&pl);
    let v = lib_wrap(&m, &mut s, &mut sl0, (r.below(9), r.below(9)), r.below(3) as u8)?;
    let mut t = ref_state(&p0);
    let mut tl = ref_state(&pl);
    let w = ref_wrap(&m, &mut t, &mut tl).ok_or("HARNESS model cannot wrap")?;
    ck!(v == w, "{}: wire format differs from the documented protocol: {}", d, diff_at(&v, &w));
    let (a, b) = (fp(&s), rfp(&t));
    ck!(a == b, "{}: sender state after the message differs from the documented protocol: {}", d, diff_at(&a, &b));
    c.ev("messages compared trit by trit");
    c.ev(KIND_NAMES[kind]);
    c.evn("trits compared", v.len());
    c.seen_b(&v);
    c.dig(&v);
    Ok(())
}
/// Messages made by the model unwrap in the crate.
fn accept(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let kind = c.idx % KINDS;
    let m = gen_body(&mut r, kind);
    let (p0, pl) = (gen_pre(&mut r), gen_pre(&mut r));
    let d = describe(&m);
    let mut t = ref_state(&p0);
    let mut tl = ref_state(&pl);
    let w = ref_wrap(&m, &mut t, &mut tl).ok_or("HARNESS model cannot wrap")?;
    let rx = honest(&mut r, &m);
    let mut s = lib_state(&p0);
    let got = lib_unwrap_v(&rx, &mut s, &lib_state(&pl), &w, &mut r);
    let res = got.res.map_err(|e| format!("{}: message of the documented protocol rejected: {}", d, e))?;
    ck!(res == content(&m, &rx.want), "{}: content differs", d);
    ck!(got.used == w.len(), "{}: consumed {} of {}", d, got.used, w.len());
    let (a, b) = (fp(&s), rfp(&t));
    ck!(a == b, "{}: receiver state differs from the documented protocol: {}", d, diff_at(&a, &b));
    c.ev("model messages unwrapped");
    c.seen_b(&w);
    Ok(())
}
/// Header + body + linked follow-ups, compared with the model throughout.
fn sequence(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut links = vec![(iota_mam::spongos::Spongos::init(), RS::new())];
    for i in 0..4 {
        let kind = if i == 0 { 1 } else { r.range(2, 7) };
        let m = gen_body(&mut r, kind);
        let h = gen_body(&mut r, 0);
        let l = r.below(links.len());
        let (mut s, mut t) = (iota_mam::spongos::Spongos::init(), RS::new());
        let (mut ls, mut lt) = links[l].clone_pair();
        for x in [&h, &m] {
            let v = lib_wrap(x, &mut s, &mut ls, (0, 0), 0)?;
            let w = ref_wrap(x, &mut t, &mut lt).ok_or("HARNESS model cannot wrap")?;
            ck!(v == w, "{}: wire format of message {} in a sequence differs: {}", describe(x), i, diff_at(&v, &w));
            c.ev("messages compared trit by trit");
            c.seen_b(&v);
        }
        ck!(fp(&s) == rfp(&t), "state differs after message {} of a sequence", i);
        links.push((s, t));
    }
    Ok(())
}
trait ClonePair {
    fn clone_pair(&self) -> Self;
}
impl ClonePair for (iota_mam::spongos::Spongos, RS) {
    fn clone_pair(&self) -> Self {
        (self.0.fork(), self.1.clone())
    }
}
