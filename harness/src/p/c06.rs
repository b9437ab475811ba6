//! C06 field encodings: canonical, exact size, both ends in step; against the model codec.
use crate::eng::*;
use crate::rmodel::*;
use crate::rng::Rng;
use crate::util::*;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::spongos::Spongos;

pub fn groups() -> Vec<Group> {
    vec![
        g("ints", 60, ints),
        g("size", 400, size),
        g("sizedec", 60, sizedec),
        g("trytes", 500, trytes),
        g("keys", 80, keys),
        g("mixed", 160, mixed),
    ]
}
fn pre(r: &mut Rng) -> Pre {
    let mut p = gen_pre(r);
    if r.chance(1, 2) {
        // close to the rate boundary
        let n = r.range(470, 486);
        p.push(POp::Commit);
        p.push(POp::Absorb(r.trits(n)));
    }
    p
}
struct Enc {
    v: Vec<u8>,
    s: Spongos,
}
/// Encode one field into a window, check size and neighbourhood; compare with the model.
fn enc(r: &mut Rng, p: &Pre, mask: bool, adv: usize, x: &[u8], what: &str, w: &dyn Fn(&mut Spongos, &mut iota_mam::trits::TritSliceMut)) -> Result<Enc, String> {
    let mut s = lib_state(p);
    let (a, z) = (r.below(10), r.below(10));
    let fill = r.below(3) as u8;
    let mut buf = vec![fill; a + adv + z];
    let left;
    {
        let mut b = slm(&mut buf).drop(a);
        w(&mut s, &mut b);
        left = b.size();
    }
    ck!(left == z, "{}: encoding used {} trits instead of the advertised {}", what, (adv + z) as isize - left as isize, adv);
    ck!(
        buf[..a].iter().chain(&buf[a + adv..]).all(|t| *t == fill),
        "{}: encoding changed trits outside of its window",
        what
    );
    let v = buf[a..a + adv].to_vec();
    let mut t = ref_state(p);
    let mut o = vec![];
    put(if mask { Md::Mask } else { Md::Absorb }, x, &mut t, &mut o);
    ck!(v == o, "{}: encoding {} instead of {}", what, hexs(&v), hexs(&o));
    ck!(fp(&s) == rfp(&t), "{}: state after encoding differs from the documented one", what);
    Ok(Enc { v, s })
}
macro_rules! field {
    ($c:ident, $r:ident, $p:expr, $mask:expr, $val:expr, $ty:ty, $size:expr, $model:expr, $eq:expr, $what:expr) => {{
        let x = $val;
        let e = enc(&mut $r, $p, $mask, $size, $model, $what, &|s, b| {
            if $mask {
                x.wrap_mask(s, b)
            } else {
                x.wrap_absorb(s, b)
            }
        })?;
        let mut w = e.v.clone();
        let z = $r.below(30);
        w.extend($r.trits(z));
        let heap = w.clone().into_boxed_slice();
        let mut s = lib_state($p);
        let mut b = sl(&heap);
        let y = if $mask { <$ty>::unwrap_mask_sized(&mut s, &mut b) } else { <$ty>::unwrap_absorb_sized(&mut s, &mut b) };
        let y = y.map_err(|e| format!("{}: own encoding refused: {:?}", $what, e))?;
        ck!($eq(&x, &y), "{}: decodes to another value", $what);
        ck!(b.size() == z, "{}: decoding consumed {} of {} trits", $what, w.len() - b.size(), e.v.len());
        ck!(fp(&s) == fp(&e.s), "{}: states of the two ends differ", $what);
        // decoding into an object that holds something else
        let zeros = [0u8; 20_000];
        if let Ok(mut y) = <$ty>::unwrap_absorb_sized(&mut iota_mam::spongos::Spongos::init(), &mut sl(&zeros)) {
            let mut s = lib_state($p);
            let mut b = sl(&heap);
            let ok = if $mask { y.unwrap_mask(&mut s, &mut b) } else { y.unwrap_absorb(&mut s, &mut b) };
            ck!(ok.is_ok() && $eq(&x, &y) && b.size() == z && fp(&s) == fp(&e.s), "{}: decoding into an object differs", $what);
            $c.ev("decoded into an object");
        }
        // every truncation is refused
        let n = e.v.len();
        let cuts: Vec<usize> = if n <= 48 { (0..n).collect() } else { (0..8).map(|_| $r.below(n)).chain([n - 1, n - 3, 2]).collect() };
        for k in cuts {
            let heap = e.v[..k].to_vec().into_boxed_slice();
            let mut s = lib_state($p);
            let mut b = sl(&heap);
            let y = if $mask {
                <$ty>::unwrap_mask_sized(&mut s, &mut b).is_ok()
            } else {
                <$ty>::unwrap_absorb_sized(&mut s, &mut b).is_ok()
            };
            ck!(!y, "{}: encoding truncated to {} of {} trits accepted", $what, k, n);
            $c.ev("truncations refused");
        }
        $c.ev("fields encoded, compared and decoded");
        $c.ev(if $mask { "masked" } else { "absorbed" });
        $c.seen(crate::rng::fnv(&e.v));
        e
    }};
}
fn ints(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let mask = c.idx % 2 == 1;
    // every value of the small types, spread over the cases; boundaries in each
    let part = c.idx / 2;
    let v3: Vec<i64> = (-13..=13).collect();
    let v6: Vec<i64> = (-364i64..=364).filter(|v| v.rem_euclid(30) == part as i64 % 30).chain([-364, 364, -1, 0]).collect();
    let v9: Vec<i64> = (0..24).map(|_| r.irange(-9841, 9841)).chain([-9841, 9841, 0, -9840]).collect();
    let v18: Vec<i64> = (0..24)
        .map(|_| r.irange(-193_710_244, 193_710_244))
        .chain([-193_710_244, 193_710_244, 0, 9841, 9842, -9842, 193_710_243])
        .collect();
    let eq = |a: i64, b: i64| a == b;
    for v in v3 {
        let w = format!("trint3 {}", v);
        field!(c, r, &p, mask, pb3::Trint3(v as i8), pb3::Trint3, pb3::sizeof_tryte(), &unbal(v, 3), |a: &pb3::Trint3, b: &pb3::Trint3| eq(a.0 as i64, b.0 as i64), &w);
        let w = format!("oneof {}", v);
        field!(c, r, &p, mask, pb3::oneof(v as i8), pb3::OneOf, pb3::sizeof_oneof(), &unbal(v, 3), |a: &pb3::OneOf, b: &pb3::OneOf| eq(a.0 as i64, b.0 as i64), &w);
    }
    for v in v6 {
        let w = format!("trint6 {}", v);
        field!(c, r, &p, mask, pb3::Trint6(v as i16), pb3::Trint6, pb3::sizeof_trint(), &unbal(v, 6), |a: &pb3::Trint6, b: &pb3::Trint6| eq(a.0 as i64, b.0 as i64), &w);
    }
    for v in v9 {
        let w = format!("trint9 {}", v);
        field!(c, r, &p, mask, pb3::Trint9(v as i16), pb3::Trint9, pb3::sizeof_trint9(), &unbal(v, 9), |a: &pb3::Trint9, b: &pb3::Trint9| eq(a.0 as i64, b.0 as i64), &w);
    }
    for v in v18 {
        let w = format!("trint18 {}", v);
        field!(c, r, &p, mask, pb3::Trint18(v as i32), pb3::Trint18, 18, &unbal(v, 18), |a: &pb3::Trint18, b: &pb3::Trint18| eq(a.0 as i64, b.0 as i64), &w);
    }
    // the codec itself
    macro_rules! codec {
        ($ty:ident, $t:ty, $n:expr, $m:expr) => {
            for v in [-$m, $m, 0, 1, r.irange(-$m, $m)] {
                use pb3::TrintField;
                ck!(pb3::$ty::sizeof() == $n, "sizeof of a {}-trit integer is {}", $n, pb3::$ty::sizeof());
                let mut buf = [1u8; $n + 2];
                let mut b = slm(&mut buf).drop(1);
                pb3::$ty(v as $t).encode(&mut b);
                ck!(b.size() == 1, "encode of a {}-trit integer leaves {} trits", $n, b.size());
                ck!(buf[1..$n + 1] == unbal(v, $n)[..] && buf[0] == 1 && buf[$n + 1] == 1, "encode of {} in {} trits: {}", v, $n, hexs(&buf));
                let mut b = sl(&buf).drop(1);
                let x = pb3::$ty::decode_sized(&mut b);
                ck!(x == Ok(pb3::$ty(v as $t)) && b.size() == 1, "decode_sized of {} in {} trits gives {:?}", v, $n, x);
                let mut b = sl(&buf).drop(1);
                let mut x = pb3::$ty(7);
                ck!(x.decode(&mut b).is_ok() && x.0 as i64 == v && b.size() == 1, "decode of {} in {} trits gives {:?}", v, $n, x);
                let mut b = sl(&buf).drop(3);
                ck!(x.decode(&mut b).is_err() && pb3::$ty::decode_sized(&mut sl(&buf).drop(3)).is_err(), "decode of {} trits out of {}", $n, $n - 1);
                c.ev("integers through the codec");
            }
        };
    }
    codec!(Trint3, i8, 3, 13i64);
    codec!(Trint6, i16, 6, 364i64);
    codec!(Trint9, i16, 9, 9841i64);
    codec!(Trint18, i32, 18, 193_710_244i64);
    Ok(())
}
pub fn gen_size(r: &mut Rng) -> u64 {
    let n = match r.below(5) {
        0 => r.below(400) as u64,
        1 => {
            // limits of each length: (27^d - 1) / 2
            let d = r.range(0, 13) as u32;
            let m = ((27u128.pow(d) - 1) / 2) as u64;
            (m + r.below(5) as u64).saturating_sub(2)
        }
        2 => {
            let d = r.range(0, 12) as u32;
            (27u128.pow(d) as u64 * r.range(1, 13) as u64 + r.below(3) as u64).saturating_sub(1)
        }
        3 => SIZE_MAX - r.below(3) as u64,
        _ => r.u64() >> r.below(64),
    };
    n.min(SIZE_MAX)
}
fn size(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let mask = c.idx % 2 == 1;
    let n = if c.idx < 60 { (c.idx / 2) as u64 } else { gen_size(&mut r) };
    let code = size_code(n);
    let w = format!("size {}", n);
    c.sample(w.clone());
    ck!(pb3::sizeof_sizet(n as usize) == code.len(), "{}: advertised {} trits instead of {}", w, pb3::sizeof_sizet(n as usize), code.len());
    ck!(pb3::Size(n as usize).sizeof() == code.len(), "{}: advertised size differs", w);
    ck!(pb3::sizeof_repeated(n as usize) == code.len(), "{}: advertised size of repeated differs", w);
    field!(c, r, &p, mask, pb3::Size(n as usize), pb3::Size, code.len(), &code, |a: &pb3::Size, b: &pb3::Size| a.0 == b.0, &w);
    let w = format!("repeated {}", n);
    field!(c, r, &p, mask, pb3::repeated(n as usize), pb3::Repeated, code.len(), &code, |a: &pb3::Repeated, b: &pb3::Repeated| a.0 == b.0, &w);
    Ok(())
}
/// Decode strings exhaustively for up to three value trytes, sampled beyond; each value has one code.
fn sizedec(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let mask = c.idx % 2 == 1;
    let md = if mask { Md::Mask } else { Md::Absorb };
    let part = c.idx / 2;
    let mut list: Vec<Vec<u8>> = vec![];
    for h in -13..=13i64 {
        list.push(unbal(h, 3));
        for _ in 0..3 {
            let mut v = unbal(h, 3);
            let n = r.range(0, 42);
            v.extend(r.trits_biased(n));
            list.push(v);
        }
    }
    for a in -13..=13i64 {
        list.push([unbal(1, 3), unbal(a, 3)].concat());
        for b in -13..=13i64 {
            if (a * 27 + b).rem_euclid(30) == part as i64 % 30 {
                list.push([unbal(2, 3), unbal(a, 3), unbal(b, 3)].concat());
            }
            let t = r.irange(-13, 13);
            list.push([unbal(3, 3), unbal(t, 3), unbal(a, 3), unbal(b, 3)].concat());
        }
    }
    for v in list {
        let x = if mask { ref_state(&p).encr(&v) } else { v.clone() };
        let heap = x.clone().into_boxed_slice();
        let (mut s, mut b) = (lib_state(&p), sl(&heap));
        let l = if mask { pb3::Size::unwrap_mask_sized(&mut s, &mut b) } else { pb3::Size::unwrap_absorb_sized(&mut s, &mut b) };
        let (mut t, mut cur) = (ref_state(&p), Cur::new(&x));
        let m = get_size(md, &mut t, &mut cur);
        match (l, m) {
            (Ok(a), Ok(n)) => {
                ck!(a.0 as u64 == n, "size code {} decodes to {} instead of {}", hexs(&v), a.0, n);
                ck!(x.len() - b.size() == cur.pos, "size code {}: consumed {} instead of {}", hexs(&v), x.len() - b.size(), cur.pos);
                ck!(size_code(n)[..] == v[..cur.pos], "HARNESS model code not canonical");
                ck!(fp(&s) == rfp(&t), "size code {}: state differs", hexs(&v));
                c.ev("codes accepted");
            }
            (Err(_), Err(_)) => c.ev("codes refused"),
            (Ok(a), Err(e)) => return Err(format!("size code {} accepted as {} ({})", hexs(&v), a.0, e)),
            (Err(e), Ok(n)) => return Err(format!("size code {} of {} refused ({:?})", hexs(&v), n, e)),
        }
        c.seen_b(&v);
    }
    Ok(())
}
fn trytes(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let mask = c.idx % 2 == 1;
    let md = if mask { Md::Mask } else { Md::Absorb };
    let n = match c.idx {
        i if i < 200 => i / 2,
        i if i % 60 < 2 => r.range(7000, 60000),
        i if i % 200 < 2 && !c.small => r.range(265_719, 265_722),
        _ => r.tail(700),
    };
    let x = r.trits_biased(3 * n);
    let w = format!("trytes[{}]", n);
    let code = [size_code(n as u64), x.clone()].concat();
    ck!(pb3::sizeof_trytes(n) == code.len() && pb3::Trytes::sizeof(n) == code.len(), "{}: advertised size differs", w);
    ck!(pb3::sizeof_ntrytes(n) == 3 * n, "{}: advertised size of a fixed array differs", w);
    let val = pb3::Trytes(tr(&x));
    let e = field!(c, r, &p, mask, val, pb3::Trytes, code.len(), &code, |a: &pb3::Trytes, b: &pb3::Trytes| a.0 == b.0, &w);
    // decode into an existing object
    let mut y = pb3::Trytes(tr(&x));
    let (mut s, mut b) = (lib_state(&p), sl(&e.v));
    let ok = if mask { y.unwrap_mask(&mut s, &mut b) } else { y.unwrap_absorb(&mut s, &mut b) };
    ck!(ok.is_ok() && tvt(&y.0) == x && b.is_empty(), "{}: decoding into an object fails or differs", w);
    ck!(fp(&s) == fp(&e.s), "{}: state after decoding into an object differs", w);
    // fixed arrays and the helper functions
    let m = if r.chance(1, 2) { 3 * n } else { r.tail(900) };
    let x = r.trits_biased(m);
    let w = format!("array of {} trits", m);
    let xt = tr(&x);
    let which = r.below(2);
    let e = enc(&mut r, &p, mask, m, &x, &w, &|s, b| match (mask, which) {
        (true, 0) => xt.wrap_mask(s, b),
        (false, 0) => xt.wrap_absorb(s, b),
        (true, _) => pb3::wrap_mask_trits(xt.slice(), s, b),
        (false, _) => pb3::wrap_absorb_trits(xt.slice(), s, b),
    })?;
    for which in 0..2 {
        for cut in [0, 1, m] {
            if cut > m {
                continue;
            }
            let heap = e.v[..m - cut].to_vec().into_boxed_slice();
            let (mut s, mut b) = (lib_state(&p), sl(&heap));
            let mut y = tr(&vec![1; m]);
            let res = match (mask, which) {
                (true, 0) => y.unwrap_mask(&mut s, &mut b),
                (false, 0) => y.unwrap_absorb(&mut s, &mut b),
                (true, _) => pb3::unwrap_mask_trits(y.slice_mut(), &mut s, &mut b),
                (false, _) => pb3::unwrap_absorb_trits(y.slice_mut(), &mut s, &mut b),
            };
            if cut == 0 || m == 0 {
                ck!(res.is_ok() && tvt(&y) == x && b.is_empty(), "{}: does not decode to itself", w);
                ck!(fp(&s) == fp(&e.s), "{}: states of the two ends differ", w);
                c.ev("fixed arrays encoded, compared and decoded");
            } else {
                ck!(res.is_err(), "{}: accepted from {} trits", w, m - cut);
                c.ev("truncations refused");
            }
        }
    }
    if !mask {
        let (mut s, mut b) = (lib_state(&p), sl(&e.v));
        ck!(pb3::unwrap_absorb_n(m, &mut s, &mut b).is_ok() && b.is_empty() && fp(&s) == fp(&e.s), "{}: absorbing {} trits differs", w, m);
        if m > 0 {
            let (mut s, mut b) = (lib_state(&p), sl(&e.v[..m - 1]));
            ck!(pb3::unwrap_absorb_n(m, &mut s, &mut b).is_err(), "{}: absorbing {} of {} trits accepted", w, m, m - 1);
        }
    }
    // helper pair for variable arrays
    let x = r.trits(3 * r.clone().below(50));
    let xt = tr(&x);
    let mut t = ref_state(&p);
    let mut code = vec![];
    put_trytes(md, &x, &mut t, &mut code);
    let mut s = lib_state(&p);
    let mut buf = vec![0u8; code.len()];
    {
        let mut b = slm(&mut buf);
        if mask {
            pb3::wrap_mask_trytes(&xt, &mut s, &mut b)
        } else {
            pb3::wrap_absorb_trytes(&xt, &mut s, &mut b)
        }
        ck!(b.is_empty(), "trytes helper leaves {} trits", b.size());
    }
    ck!(buf == code, "trytes helper encodes differently");
    ck!(fp(&s) == rfp(&t), "trytes helper state differs");
    let (mut s2, mut b) = (lib_state(&p), sl(&buf));
    let y = if mask { pb3::unwrap_mask_trytes(&mut s2, &mut b) } else { pb3::unwrap_absorb_trytes(&mut s2, &mut b) };
    ck!(y.map(|y| tvt(&y) == x).unwrap_or(false) && b.is_empty(), "trytes helper does not decode to itself");
    ck!(fp(&s) == fp(&s2), "trytes helper states differ");
    Ok(())
}
fn keys(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let mask = c.idx % 2 == 1;
    let v = r.trits(243);
    let k = msspk(&v).ok_or("mss public key of arbitrary trits refused")?;
    field!(c, r, &p, mask, k, iota_mam::mss::PublicKey, 243, &v, |a: &iota_mam::mss::PublicKey, b: &iota_mam::mss::PublicKey| a == b && msspk_v(b) == v, "mss public key");
    let k = crate::msg::ntrup(r.below(crate::msg::NNTRU));
    let e = field!(c, r, &p, mask, k.pk.clone(), iota_mam::ntru::PublicKey, 9216, &k.pkt, |a: &iota_mam::ntru::PublicKey, b: &iota_mam::ntru::PublicKey| a == b && ntrupk_v(b) == k.pkt, "ntru public key");
    // decode into existing objects
    let mut o = crate::msg::ntrup(r.below(crate::msg::NNTRU)).pk.clone();
    let (mut s, mut b) = (lib_state(&p), sl(&e.v));
    let ok = if mask { o.unwrap_mask(&mut s, &mut b) } else { o.unwrap_absorb(&mut s, &mut b) };
    ck!(ok.is_ok() && b.is_empty() && o == k.pk && fp(&s) == fp(&e.s), "ntru public key: decoding into an object fails or differs");
    // and the decoded object encapsulates like the original
    let key = r.trits(243);
    let pr = iota_mam::prng::PRNG::init(sl(&key));
    let (mut y1, mut y2) = (vec![0; 9216], vec![0; 9216]);
    o.encr(&pr, sl(&v), sl(&key), slm(&mut y1));
    k.pk.encr(&pr, sl(&v), sl(&key), slm(&mut y2));
    ck!(y1 == y2, "decoded ntru public key encapsulates differently");
    let mut o = msspk(&r.trits(243)).ok_or("HARNESS")?;
    let x = if mask { ref_state(&p).encr(&v) } else { v.clone() };
    let (mut s, mut b) = (lib_state(&p), sl(&x));
    let ok = if mask { o.unwrap_mask(&mut s, &mut b) } else { o.unwrap_absorb(&mut s, &mut b) };
    ck!(ok.is_ok() && b.is_empty() && msspk_v(&o) == v, "mss public key: decoding into an object fails or differs");
    // message identifiers
    let id = r.trits(81);
    let mut s = lib_state(&p);
    let mut b = sl(&id);
    let m = iota_mam::app::core::MsgId::unwrap_absorb_sized(&mut s, &mut b).map_err(|e| format!("message id refused: {:?}", e))?;
    let mut t = ref_state(&p);
    t.absorb(&id);
    ck!(b.is_empty() && fp(&s) == rfp(&t), "message id: state or consumption differs");
    let mut buf = vec![0u8; 84];
    let mut s = lib_state(&p);
    {
        let mut b = slm(&mut buf);
        m.wrap_absorb(&mut s, &mut b);
        ck!(b.size() == 3, "message id encodes in {} trits", 84 - b.size());
    }
    ck!(buf[..81] == id[..] && fp(&s) == rfp(&t), "message id encodes differently");
    let mut b = sl(&id[..80]);
    ck!(iota_mam::app::core::MsgId::unwrap_absorb_sized(&mut lib_state(&p), &mut b).is_err(), "truncated message id accepted");
    Ok(())
}
/// Sequences of fields sharing one state.
fn mixed(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = pre(&mut r);
    let (mut s, mut t) = (lib_state(&p), ref_state(&p));
    let n = r.range(5, 25);
    let mut buf = vec![0u8; 60000];
    let mut o = vec![];
    // (kind, mask, value, trits)
    let mut items: Vec<(usize, bool, i64, Vec<u8>)> = vec![];
    for _ in 0..n {
        let k = r.below(6);
        let v = match k {
            0 => r.irange(-13, 13),
            1 => r.irange(-364, 364),
            2 => r.irange(-9841, 9841),
            3 => r.irange(-193_710_244, 193_710_244),
            4 => gen_size(&mut r) as i64,
            _ => 0,
        };
        let m = 3 * r.size(200);
        let x = if k == 5 { r.trits(m) } else { vec![] };
        items.push((k, r.chance(1, 2), v, x));
    }
    {
        let mut b = slm(&mut buf);
        for (k, mask, v, x) in &items {
            let md = if *mask { Md::Mask } else { Md::Absorb };
            macro_rules! w {
                ($e:expr) => {
                    if *mask {
                        $e.wrap_mask(&mut s, &mut b)
                    } else {
                        $e.wrap_absorb(&mut s, &mut b)
                    }
                };
            }
            match k {
                0 => w!(pb3::Trint3(*v as i8)),
                1 => w!(pb3::Trint6(*v as i16)),
                2 => w!(pb3::Trint9(*v as i16)),
                3 => w!(pb3::Trint18(*v as i32)),
                4 => w!(pb3::Size(*v as usize)),
                _ => w!(pb3::Trytes(tr(x))),
            }
            match k {
                0..=3 => put(md, &unbal(*v, [3, 6, 9, 18][*k]), &mut t, &mut o),
                4 => put_size(md, *v as u64, &mut t, &mut o),
                _ => put_trytes(md, x, &mut t, &mut o),
            }
        }
        ck!(60000 - b.size() == o.len(), "sequence of fields takes {} trits instead of {}", 60000 - b.size(), o.len());
    }
    ck!(buf[..o.len()] == o[..], "sequence of fields: {}", diff_at(&buf[..o.len()], &o));
    ck!(fp(&s) == rfp(&t), "sequence of fields: state differs");
    let mut s2 = lib_state(&p);
    let mut b = sl(&buf[..o.len()]);
    for (i, (k, mask, v, x)) in items.iter().enumerate() {
        macro_rules! u {
            ($t:ty, $f:expr) => {
                if *mask {
                    <$t>::unwrap_mask_sized(&mut s2, &mut b).map($f)
                } else {
                    <$t>::unwrap_absorb_sized(&mut s2, &mut b).map($f)
                }
            };
        }
        let ok = match k {
            0 => u!(pb3::Trint3, |y| y.0 as i64 == *v),
            1 => u!(pb3::Trint6, |y| y.0 as i64 == *v),
            2 => u!(pb3::Trint9, |y| y.0 as i64 == *v),
            3 => u!(pb3::Trint18, |y| y.0 as i64 == *v),
            4 => u!(pb3::Size, |y| y.0 as i64 == *v),
            _ => u!(pb3::Trytes, |y| tvt(&y.0) == *x),
        };
        ck!(ok == Ok(true), "field {} of a sequence does not decode to itself", i);
        c.ev("fields of sequences decoded");
    }
    ck!(b.is_empty() && fp(&s) == fp(&s2), "sequence of fields: decoder out of step");
    c.dig(&o);
    c.seen_b(&o);
    Ok(())
}
