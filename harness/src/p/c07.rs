//! C07 integers, trytes, text, remainders, increment: compared with plain integer arithmetic.
use crate::eng::*;
use crate::rmodel::{bal, unbal};
use crate::rng::Rng;
use crate::util::*;
use iota_mam::trits::{util as u, Trits};

pub fn groups() -> Vec<Group> {
    vec![
        g("ints", 200, ints),
        g("exhaustive", 6, exhaustive),
        g("wide", 200, wide),
        // with a scale of 60 every 18-trit integer
        g("all18", 9, all18),
        g("tryte", 27, tryte),
        g("bulk", 400, bulk),
        g("chars", 40, chars),
        g("text", 1500, text),
        g("partial", 800, partial),
        g("mods", 60, mods),
        g("inc", 600, inc),
        Group { name: "huge", n: 4, deep: 6, f: crate::p::huge::text },
    ]
}
const W: [usize; 5] = [1, 3, 6, 9, 18];
fn lim(w: usize) -> i64 {
    (3i64.pow(w as u32) - 1) / 2
}
/// Writes v at `off` of a window inside a random buffer, checks every trit of the buffer and reads back.
fn int_at(c: &mut Ctx, buf: &mut Vec<u8>, w: usize, v: i64, win: usize, off: usize) -> R {
    let before = buf.clone();
    let m = slm(buf).drop(win).drop(off);
    match w {
        1 => m.put1(v as i8),
        3 => m.put3(v as i8),
        6 => m.put6(v as i16),
        9 => m.put9(v as i16),
        _ => m.put18(v as i32),
    }
    let mut want = before;
    want[win + off..win + off + w].copy_from_slice(&unbal(v, w));
    ck!(*buf == want, "put{}({}) at {}: buffer {} instead of {}", w, v, win + off, hexs(&buf[win + off..]), hexs(&want[win + off..]));
    let s = sl(buf).drop(win + off).take(w);
    let x = match w {
        1 => s.get1() as i64,
        3 => s.get3() as i64,
        6 => s.get6() as i64,
        9 => s.get9() as i64,
        _ => s.get18() as i64,
    };
    ck!(x == v, "get{} returns {} for {}", w, x, v);
    c.evals += 1;
    Ok(())
}
fn ints(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    for _ in 0..60 {
        let w = *r.pick(&W);
        let l = lim(w);
        let v = match r.below(6) {
            0 => l,
            1 => -l,
            2 => r.irange(-1, 1),
            3 => {
                let p = 3i64.pow(r.below(w) as u32);
                (p / 2 + r.irange(-1, 1)).clamp(-l, l) * if r.chance(1, 2) { 1 } else { -1 }
            }
            _ => r.irange(-l, l),
        };
        let (win, off, tail) = (r.below(20), r.below(20), r.below(20));
        let mut b = r.trits_biased(win + off + w + tail);
        int_at(c, &mut b, w, v, win, off)?;
        c.ev("integers written, read back, neighbours compared");
        c.seen(v as u64 ^ ((w as u64) << 40) ^ ((win as u64) << 50) ^ ((off as u64) << 56));
    }
    Ok(())
}
/// Every value of the widths up to 9.
fn exhaustive(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let w = W[c.idx % 4];
    let l = lim(w);
    let (win, off, tail) = (r.below(9), r.below(9), r.below(9));
    let mut b = r.trits(win + off + w + tail);
    for v in -l..=l {
        int_at(c, &mut b, w, v, win, off)?;
        c.seen(v as u64 ^ ((w as u64) << 40));
    }
    c.evn("values of a width, exhaustively", (2 * l + 1) as usize);
    Ok(())
}
fn wide(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let l = lim(18);
    let mut b = r.trits(40);
    let n = if c.small {
        100
    } else if c.thorough {
        20000
    } else {
        4000
    };
    let start = r.irange(-l, l - n);
    for k in 0..n {
        let v = if c.idx % 2 == 0 { start + k } else { r.irange(-l, l) };
        int_at(c, &mut b, 18, v, 3, k as usize % 19)?;
    }
    c.evn("18-trit integers", n as usize);
    c.seen(start as u64);
    Ok(())
}
/// A stretch of the 18-trit integers, written and read back.
fn all18(c: &mut Ctx) -> R {
    const PARTS: i64 = 540;
    let mut r = c.rng.clone();
    let l = lim(18);
    let all = 2 * l + 1;
    let k = c.idx as i64 % PARTS;
    let (a, mut b) = (-l + all * k / PARTS, -l + all * (k + 1) / PARTS);
    if c.small {
        b = a + 50;
    }
    let off = r.below(7);
    let mut buf = r.trits(off + 18 + 6);
    let before = buf.clone();
    // the digits are counted up alongside
    let mut want = unbal(a, 18);
    let mut n = 0u64;
    for v in a..b {
        slm(&mut buf).drop(off).put18(v as i32);
        let x = sl(&buf).drop(off).get18();
        if buf[off..off + 18] != want[..] || x as i64 != v || buf[..off] != before[..off] || buf[off + 18..] != before[off + 18..] {
            return Err(format!("put18({}) at {}: buffer {} instead of {} within {}, read back {}", v, off, hexs(&buf), hexs(&want), hexs(&before), x));
        }
        for t in want.iter_mut() {
            *t = (*t + 1) % 3;
            // balanced: 1 + 1 = -1 with a carry
            if *t != 2 {
                break;
            }
        }
        n += 1;
    }
    c.evn("18-trit integers in sequence", n as usize);
    c.seen(k as u64);
    Ok(())
}
fn tryte(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let t = (c.idx % 27) as u8;
    for off in 0..30 {
        let mut b = r.trits(off + 3 + r.clone().below(9));
        let mut want = b.clone();
        slm(&mut b).drop(off).put_tryte(t);
        want[off] = t % 3;
        want[off + 1] = t / 3 % 3;
        want[off + 2] = t / 9;
        ck!(b == want, "put_tryte({}) at {} writes {} instead of {}", t, off, hexs(&b), hexs(&want));
        ck!(sl(&b).drop(off).get_tryte() == t, "get_tryte at {} does not return {}", off, t);
        c.ev("trytes written, read back, neighbours compared");
        c.seen(t as u64 * 100 + off as u64);
    }
    let v = u::tryte_to_trint3(t) as i64;
    ck!(v == if t > 13 { t as i64 - 27 } else { t as i64 }, "tryte_to_trint3({}) = {}", t, v);
    ck!(u::tryte_from_trint3(v as i8) == t, "tryte_from_trint3({}) is not {}", v, t);
    // text stores the signed value
    let mut b = vec![0u8; 3];
    slm(&mut b).put3(v as i8);
    let ch = alpha(t);
    ck!(u::tryte_to_char(t) == ch, "tryte_to_char({}) = {}", t, u::tryte_to_char(t));
    ck!(u::trint3_to_char(v as i8) == ch, "trint3_to_char({}) = {}", v, u::trint3_to_char(v as i8));
    ck!(sl(&b).get_char() == ch, "get_char of the integer {}", v);
    c.evn("tryte conversions", 6);
    Ok(())
}
fn alpha(t: u8) -> char {
    b"9ABCDEFGHIJKLMNOPQRSTUVWXYZ"[t as usize] as char
}
fn code(ch: char) -> Option<u8> {
    "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().position(|x| x == ch).map(|x| x as u8)
}
/// put_trits/get_trits/put1s/get1s/set_trit/set_zero on inner windows.
fn bulk(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(200);
    let off = r.below(40);
    let tail = r.below(40);
    let mut b = r.trits(off + n + tail);
    let mut want = b.clone();
    let x = r.trits_biased(n);
    let m = r.below(n + 1);
    slm(&mut b).drop(off).take(n).put_trits(&x[..m]);
    want[off..off + m].copy_from_slice(&x[..m]);
    ck!(b == want, "put_trits of {} trits at {}: {}", m, off, diff_at(&b, &want));
    let mut y = vec![9u8; m];
    sl(&b).drop(off).take(n).get_trits(&mut y);
    ck!(y == x[..m], "get_trits of {} trits at {}: {}", m, off, diff_at(&y, &x[..m]));
    let i1: Vec<i8> = x.iter().map(|t| bal(&[*t]) as i8).collect();
    let mut z = vec![9i8; m];
    sl(&b).drop(off).get1s(&mut z);
    ck!(z == i1[..m], "get1s of {} trits at {}", m, off);
    let x2 = r.trits(m);
    let i2: Vec<i8> = x2.iter().map(|t| bal(&[*t]) as i8).collect();
    slm(&mut b).drop(off).put1s(&i2);
    want[off..off + m].copy_from_slice(&x2);
    ck!(b == want, "put1s of {} trits at {}: {}", m, off, diff_at(&b, &want));
    let t = r.trit();
    slm(&mut b).drop(off).take(m).set_trit(t);
    want[off..off + m].fill(t);
    ck!(b == want, "set_trit({}) on {} trits at {}: {}", t, m, off, diff_at(&b, &want));
    slm(&mut b).drop(off).take(n).set_zero();
    want[off..off + n].fill(0);
    ck!(b == want, "set_zero on {} trits at {}: {}", n, off, diff_at(&b, &want));
    c.evn("bulk writes and reads", 6);
    c.seen_b(&x);
    Ok(())
}
/// All characters: only the 27 of the alphabet are accepted.
fn chars(c: &mut Ctx) -> R {
    let n = 0x110000u32;
    let part = c.idx as u32 % 40;
    let (lo, hi) = (n / 40 * part, if part == 39 { n } else { n / 40 * (part + 1) });
    let mut cnt = 0;
    for x in lo..hi {
        let Some(ch) = char::from_u32(x) else { continue };
        let w = code(ch);
        ck!(u::tryte_from_char(ch) == w, "tryte_from_char({:?}) = {:?}", ch, u::tryte_from_char(ch));
        let w3 = w.map(|t| if t > 13 { t as i8 - 27 } else { t as i8 });
        ck!(u::trint3_from_char(ch) == w3, "trint3_from_char({:?}) = {:?}", ch, u::trint3_from_char(ch));
        let mut b = [2u8, 1, 2, 1];
        let ok = slm(&mut b).drop(1).put_char(ch);
        ck!(ok == w.is_some(), "put_char({:?}) = {}", ch, ok);
        ck!(b[0] == 2, "put_char({:?}) changes its neighbour", ch);
        match w {
            Some(t) => {
                let v = if t > 13 { t as i64 - 27 } else { t as i64 };
                ck!(b[1..] == unbal(v, 3), "put_char({:?}) writes {:?}", ch, &b[1..])
            }
            None => {}
        }
        cnt += 1;
    }
    c.evn("characters", cnt);
    c.seen(part as u64);
    Ok(())
}
pub fn to_text(v: &[u8]) -> String {
    v.chunks(3)
        .map(|k| alpha(bal(k).rem_euclid(27) as u8))
        .collect()
}
fn text(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.size(250);
    let v = r.trits_biased(n);
    // trits -> text, any number of trits, window inside a buffer
    let (off, tail) = (r.below(8), r.below(8));
    let mut b = r.trits(off);
    b.extend_from_slice(&v);
    b.extend(r.trits(tail));
    let w = to_text(&v);
    let s = sl(&b).drop(off).take(n);
    ck!(s.to_str() == w, "to_str of {} is {} instead of {}", hexs(&v), s.to_str(), w);
    ck!(format!("{}", s) == w, "Display of {} is {}", hexs(&v), s);
    let mut b2 = b.clone();
    let m = slm(&mut b2).drop(off).take(n);
    ck!(format!("{}", m) == w, "Display of the mutable slice {} is {}", hexs(&v), m);
    ck!(tr(&v).to_str() == w, "Trits::to_str of {} is {}", hexs(&v), tr(&v).to_str());
    ck!(format!("{}", tr(&v)) == w, "Display of Trits of {}", hexs(&v));
    // text -> trits
    match Trits::from_str(&w) {
        Some(t) => {
            let mut p = v.clone();
            p.resize((n + 2) / 3 * 3, 0);
            ck!(tvt(&t) == p, "from_str({}) gives {} instead of {}", w, hexs(&tvt(&t)), hexs(&p));
        }
        None => return Err(format!("from_str rejects {}", w)),
    }
    c.evn("strings converted both ways", 6);
    // names and keys print as their text
    if r.chance(1, 8) {
        let v = r.trits(243);
        if let Some(k) = msspk(&v) {
            ck!(format!("{}", k) == to_text(&v), "Display of a signature key is {} instead of {}", k, to_text(&v));
            c.ev("signature keys printed");
        }
    }
    // one wrong character anywhere
    if !w.is_empty() {
        let bad = loop {
            let x = match r.below(3) {
                0 => *r.pick(&['8', '0', '@', '[', 'a', 'z', ' ', ':', '-', '\u{0}', '\u{141}', '\u{ff21}', '\u{10141}']),
                1 => r.below(128) as u8 as char,
                _ => char::from_u32(r.below(0xd800) as u32).unwrap_or('a'),
            };
            if code(x).is_none() {
                break x;
            }
        };
        let i = r.below(w.len());
        let mut cs: Vec<char> = w.chars().collect();
        if r.chance(1, 2) {
            cs[i] = bad;
        } else {
            cs.insert(i, bad);
        }
        let x: String = cs.into_iter().collect();
        ck!(Trits::from_str(&x).is_none(), "from_str accepts {:?}", x);
        let mut q = r.trits(3 * x.chars().count());
        ck!(!slm(&mut q).from_str(&x), "slice from_str accepts {:?}", x);
        c.evn("strings with a foreign character refused", 2);
    }
    c.seen_b(&v);
    c.sample(w);
    Ok(())
}
/// Strings that are shorter, longer or not aligned with the window.
fn partial(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = r.below(14);
    let k = r.below(7);
    let mut v = r.trits_biased(3 * k);
    if 3 * k > n && r.chance(2, 3) {
        // make it fit
        v[n..].fill(0);
        if r.chance(1, 3) {
            let i = r.range(n, 3 * k - 1);
            v[i] = 1 + r.below(2) as u8;
        }
    }
    let s = to_text(&v);
    let fits = v.len() <= n || v[n..].iter().all(|t| *t == 0);
    let (off, tail) = (r.below(6), r.below(6));
    let mut b = r.trits(off + n + tail);
    let b0 = b.clone();
    let ok = slm(&mut b).drop(off).take(n).from_str(&s);
    ck!(ok == fits, "from_str({}) into {} trits returns {}", s, n, ok);
    ck!(b[..off] == b0[..off] && b[off + n..] == b0[off + n..], "from_str({}) into {} trits changes its neighbours", s, n);
    if ok {
        let m = n.min(v.len());
        ck!(b[off..off + m] == v[..m], "from_str({}) into {} trits writes {}", s, n, hexs(&b[off..off + n]));
        ck!(b[off + m..] == b0[off + m..], "from_str({}) into {} trits changes trits beyond the string", s, n);
    }
    c.ev(if ok { "strings that fit" } else { "strings that do not fit refused" });
    c.seen(crate::rng::fnv(&v) ^ n as u64);
    // cycle_str
    let m = r.below(60);
    let t = Trits::cycle_str(m, &s);
    let w: Vec<u8> = (0..m).map(|i| if v.is_empty() { 0 } else { v[i % v.len()] }).collect();
    ck!(tvt(&t) == w, "cycle_str({}, {}) gives {}", m, s, hexs(&tvt(&t)));
    c.ev("cycled strings");
    Ok(())
}
fn rem(t: i128, m: i128) -> (i128, i128) {
    let mut x = t.rem_euclid(m);
    if x > m / 2 {
        x -= m;
    }
    (x, (t - x) / m)
}
fn pick_i32(r: &mut Rng, m: i64) -> i32 {
    let h = (m - 1) / 2;
    let (lo, hi) = (i32::MIN as i64 + h + 1, i32::MAX as i64 - h - 1);
    match r.below(5) {
        0 => lo + r.below(60) as i64,
        1 => hi - r.below(60) as i64,
        2 => {
            let p = m * r.irange(-70000, 70000) + r.irange(-2, 2) + if r.chance(1, 2) { h } else { 0 };
            return p.clamp(lo, hi) as i32;
        }
        3 => r.irange(-40, 40),
        _ => r.irange(lo, hi),
    }
    .clamp(lo, hi) as i32
}
fn mods(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    for _ in 0..4000 {
        let t = pick_i32(&mut r, 3);
        let (a, b) = u::mods1(t);
        ck!((a as i128, b as i128) == rem(t as i128, 3), "mods1({}) = ({}, {})", t, a, b);
        let t = pick_i32(&mut r, 27);
        let (a, b) = u::mods3(t);
        ck!((a as i128, b as i128) == rem(t as i128, 27), "mods3({}) = ({}, {})", t, a, b);
        let t = pick_i32(&mut r, 19683);
        let (a, b) = u::mods9(t);
        ck!((a as i128, b as i128) == rem(t as i128, 19683), "mods9({}) = ({}, {})", t, a, b);
        c.seen(t as u32 as u64);
        let t = match r.below(5) {
            0 => usize::MAX - r.below(60),
            1 => r.below(3000),
            2 => (1usize << r.below(64)).wrapping_sub(r.below(3)),
            3 => 27usize.pow(r.below(13) as u32) / 2 + r.below(3),
            _ => r.u64() as usize,
        };
        let (a, b) = u::mods1_usize(t);
        ck!((a as i128, b as i128) == rem(t as i128, 3), "mods1_usize({}) = ({}, {})", t, a, b);
        let (a, b) = u::mods3_usize(t);
        ck!((a as i128, b as i128) == rem(t as i128, 27), "mods3_usize({}) = ({}, {})", t, a, b);
        c.evals += 5;
    }
    c.evn("remainders", 0);
    *c.cov.entry("remainders").or_insert(0) += 20000;
    Ok(())
}
fn inc(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (n, cnt) = if c.idx % 3 == 0 { (r.below(7), if c.small { 60 } else { 800 }) } else { (r.size(120), 12) };
    let (off, tail) = (r.below(5), r.below(5));
    let mut b = r.trits(off + n + tail);
    if r.chance(2, 3) {
        let k = r.below(n + 1);
        b[off..off + k].fill(2);
    }
    for _ in 0..cnt {
        let mut w = b.clone();
        let mut carried = true;
        for t in &mut w[off..off + n] {
            *t = (*t + 1) % 3;
            if *t != 0 {
                carried = false;
                break;
            }
        }
        let ok = slm(&mut b).drop(off).take(n).inc();
        ck!(b == w, "inc of {} trits gives {} instead of {}", n, hexs(&b[off..]), hexs(&w[off..]));
        ck!(ok == !carried, "inc of {} trits returns {}, overflow {}", n, ok, carried);
        c.ev(if carried { "increments that overflow" } else { "increments" });
        c.seen_b(&b);
    }
    Ok(())
}
