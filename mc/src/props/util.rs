//! P26-P30: the value types and utilities.

/// Days since 1970-01-01 -> (year, month, day, weekday 0=Sunday), proleptic Gregorian. Counted year by
/// year and month by month, not by a closed formula.
pub fn civil(days: i64) -> (i64, u32, u32, u32) {
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let wd = (days + 4).rem_euclid(7) as u32;
    let mut d = days;
    let mut y = 1970 + d.div_euclid(146_097) * 400;
    d = d.rem_euclid(146_097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let mut m = 1;
    for n in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        if d < n {
            break;
        }
        d -= n;
        m += 1;
    }
    (y, m, d as u32 + 1, wd)
}

pub const WD: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];
pub const MON: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

/// "Wed, 08 Dec 2021 10:37:54 GMT"
pub fn http_date(secs: i64) -> String {
    let (y, m, d, w) = civil(secs.div_euclid(86_400));
    let s = secs.rem_euclid(86_400);
    format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", &WD[w as usize][..3], d, &MON[m as usize - 1][..3], y, s / 3600, s / 60 % 60, s % 60)
}

use super::req::*;
use super::resp::{big, cts, statuses};
use crate::explore::*;
use crate::run::Run;
use starry::header::ContentType;
use starry::utils::cryptos::base64::{Base64Decoder, Base64Encoder};
use starry::utils::cryptos::hex::{HexDecoder, HexEncoder};
use starry::utils::cryptos::{Base64, Hex};
use starry::utils::{Compress, Time};
use starry::{Method, MultipartValues, Status, Values, Version};
use std::collections::BTreeMap;

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| match e.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
    })
}

// ------------------------------------------------------------------ P26
/// The type of a file cannot be named outside the crate.
macro_rules! sh {
    ($f:expr) => {
        ($f.filename(), $f.size(), $f.content())
    };
}
type M = BTreeMap<String, Vec<String>>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum VOp {
    Set(usize, usize),
    SetStr(usize, usize),
    Add(usize, usize),
    AddStr(usize, usize),
    Del(usize),
    DelString(usize),
}
const VK: [&str; 4] = ["a", "A", "", "b c"];
const VV: [&str; 3] = ["1", "", "2"];

fn vops(k: usize, v: usize, full: bool) -> Vec<VOp> {
    let mut o = vec![];
    for i in 0..k {
        for j in 0..v {
            o.push(VOp::Set(i, j));
            o.push(VOp::Add(i, j));
            if full {
                o.push(VOp::SetStr(i, j));
                o.push(VOp::AddStr(i, j));
            }
        }
        o.push(VOp::Del(i));
        if full {
            o.push(VOp::DelString(i));
        }
    }
    o
}

fn vapply(im: &mut Values, m: &mut M, o: VOp) -> Result<(), String> {
    match o {
        VOp::Set(k, v) | VOp::SetStr(k, v) => {
            if matches!(o, VOp::Set(..)) {
                im.set(VK[k].to_string(), VV[v].to_string());
            } else {
                im.set_str(VK[k], VV[v]);
            }
            m.insert(VK[k].into(), vec![VV[v].into()]);
        }
        VOp::Add(k, v) | VOp::AddStr(k, v) => {
            if matches!(o, VOp::Add(..)) {
                im.add(VK[k].to_string(), VV[v].to_string());
            } else {
                im.add_str(VK[k], VV[v]);
            }
            m.entry(VK[k].into()).or_default().push(VV[v].into());
        }
        VOp::Del(k) | VOp::DelString(k) => {
            let got = if matches!(o, VOp::Del(_)) { im.del(VK[k]) } else { im.del(&VK[k].to_string()) };
            let want = m.remove(VK[k]).map(|v| v[0].clone());
            if got != want {
                return Err(format!("del({:?}) returned {:?}, expected {:?}", VK[k], got, want));
            }
        }
    }
    vstate(im, m)
}

fn vstate(im: &Values, m: &M) -> Result<(), String> {
    if im.len() != m.len() {
        return Err(format!("len() is {}, expected {}", im.len(), m.len()));
    }
    for k in VK.iter().chain(&["zz"]) {
        let w = m.get(*k);
        if im.vec(*k) != w.cloned() || im.vec(&k.to_string()) != w.cloned() {
            return Err(format!("vec({:?}) is {:?}, expected {:?}", k, im.vec(*k), w));
        }
        if im.get(*k) != w.map(|v| v[0].clone()) || im.get(&k.to_string()) != w.map(|v| v[0].clone()) {
            return Err(format!("get({:?}) is {:?}, expected the first of {:?}", k, im.get(*k), w));
        }
        if im.contain(*k) != w.is_some() || im.contain(&k.to_string()) != w.is_some() {
            return Err(format!("contain({:?}) is {}", k, im.contain(*k)));
        }
    }
    let mm: M = im.map().into_iter().collect();
    if mm != *m {
        return Err(format!("map() is {:?}, expected {:?}", mm, m));
    }
    Ok(())
}

/// All continuations of length `d`. Returns the number of states visited.
fn vdfs(im: &Values, m: &M, ops: &[VOp], d: u32, hist: &mut Vec<VOp>) -> Result<u64, Verdict> {
    if d == 0 {
        return Ok(1);
    }
    let mut n = 1;
    for &o in ops {
        let (mut i2, mut m2) = (im.clone(), m.clone());
        hist.push(o);
        match caught(|| vapply(&mut i2, &mut m2, o)) {
            Err(p) => return fail("panic", format!("after {:?}: panic {}", hist, p)),
            Ok(Err(e)) => return fail("multimap", format!("after {:?}: {}", hist, e)),
            Ok(Ok(())) => {}
        }
        n += vdfs(&i2, &m2, ops, d - 1, hist)?;
        hist.pop();
    }
    // the copies did not change the original
    if let Err(e) = vstate(im, m) {
        return fail("aliasing", format!("after {:?}, changing copies changed the original: {}", hist, e));
    }
    Ok(n)
}

/// All keys of the model, read every way.
fn vcompare(im: &Values, m: &M) -> Result<(), String> {
    if im.len() != m.len() {
        return Err(format!("len() is {}, expected {}", im.len(), m.len()));
    }
    for (k, w) in m {
        if im.vec(k.as_str()).as_ref() != Some(w) || im.get(k.as_str()).as_ref() != Some(&w[0]) || !im.contain(k.as_str()) || im.get(&k.to_string()).as_ref() != Some(&w[0]) {
            return Err(format!("vec({:?}) is {:?}, get {:?}, expected {:?}", k, im.vec(k.as_str()), im.get(k.as_str()), w));
        }
    }
    let mm: M = im.map().into_iter().collect();
    if mm != *m {
        return Err(format!("map() is {:?}, expected {:?}", mm, m));
    }
    Ok(())
}

/// `n` keys or values; pattern: how they are put in, and which are taken out again.
fn many_values(n: usize, pattern: u64) -> Result<(), String> {
    let (mut im, mut m) = (Values::new(), M::new());
    let key = |i: usize| match pattern % 3 {
        0 => format!("key{}", i),
        1 => format!("{}", "k".repeat(i % 300 + 1)) + &format!("{}", i / 300),
        _ => "one".to_string(),
    };
    for j in 0..n {
        let i = if pattern / 3 % 2 == 0 { j } else { n - 1 - j };
        let (k, v) = (key(i), format!("v{}", j));
        if pattern / 6 % 2 == 0 {
            im.add(k.clone(), v.clone());
        } else {
            im.add_str(&k, &v);
        }
        m.entry(k).or_default().push(v);
    }
    vcompare(&im, &m)?;
    let copy = im.clone();
    let mc = m.clone();
    // some replaced, some deleted, some extended
    for i in 0..n {
        let k = key(i);
        match (i as u64 + pattern / 12) % 4 {
            0 => {
                let (g, w) = (im.del(k.as_str()), m.remove(&k).map(|v| v[0].clone()));
                if g != w {
                    return Err(format!("del({:?}) returns {:?}, expected {:?}", k, g, w));
                }
            }
            1 => {
                im.set_str(&k, "s");
                m.insert(k, vec!["s".into()]);
            }
            2 => {
                im.add_str(&k, "t");
                m.entry(k).or_default().push("t".into());
            }
            _ => {}
        }
    }
    vcompare(&im, &m)?;
    vcompare(&copy, &mc).map_err(|e| format!("a copy made before: {}", e))
}

#[derive(Clone, Copy, Debug)]
enum FOp {
    Insert(usize, usize),
    InsertObj(usize, usize),
    Del(usize),
    DelString(usize),
}

pub fn p26(r: &mut Run) {
    r.assume("keys from {a, A, '', 'b c'}; every access path (by &str and by &String) is read after every step");
    for (name, k, v, full, q, t) in [("values-full", 3usize, 2usize, true, 4u32, 5u32), ("values-deep", 2, 2, false, 7, 8), ("values-wide", 4, 3, false, 4, 5)] {
        let ops = vops(k, v, full);
        let d = if r.thorough { t } else { q };
        let n = (ops.len() as u64).pow(2);
        r.enumerate(name, n, 1, opts(), move |lo, hi| {
            let mut states = 0;
            for it in lo..hi {
                at_item(it);
                let (mut im, mut m) = (Values::new(), M::new());
                let mut hist = vec![];
                for o in [ops[(it as usize) / ops.len()], ops[(it as usize) % ops.len()]] {
                    hist.push(o);
                    match caught(|| vapply(&mut im, &mut m, o)) {
                        Err(p) => return fail("panic", format!("after {:?}: panic {}", hist, p)),
                        Ok(Err(e)) => return fail("multimap", format!("after {:?}: {}", hist, e)),
                        Ok(Ok(())) => {}
                    }
                }
                states += vdfs(&im, &m, &ops, d - 2, &mut hist)?;
            }
            Ok(states)
        });
    }
    // many keys and values, in several orders; keys that differ in one character
    let cs = counts(r.thorough);
    let nc = cs.len() as u64;
    r.enumerate("counts", nc * 24, 24, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 24];
            many_values(n, it % 24).or_else(|e| fail("multimap", format!("{} names, pattern {}: {}", n, it % 24, e)))?;
        }
        Ok(0)
    });
    r.enumerate("characters", n_pairs(3), 500, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 3);
            let (k1, k2) = match t {
                0 => (c.clone(), d.clone()),
                1 => (format!("x{}{}", c, d), format!("x{}{}", d, c)),
                _ => (format!("{}{}", c, d), c.clone()),
            };
            let mut im = Values::new();
            let mut m = M::new();
            for (k, v) in [(&k1, &d), (&k2, &c), (&k1, &c)] {
                im.add_str(k, v);
                m.entry(k.clone()).or_default().push(v.clone());
            }
            vcompare(&im, &m).or_else(|e| fail("multimap", format!("keys {:?} {:?}: {}", k1, k2, e)))?;
            im.set_str(&k2, &d);
            m.insert(k2.clone(), vec![d.clone()]);
            vcompare(&im, &m).or_else(|e| fail("multimap", format!("keys {:?} {:?}, the second set: {}", k1, k2, e)))?;
            let (g, w) = (im.del(k1.as_str()), m.remove(&k1).map(|v| v[0].clone()));
            if g != w {
                return fail("multimap", format!("del({:?}) returns {:?}, expected {:?}", k1, g, w));
            }
            vcompare(&im, &m).or_else(|e| fail("multimap", format!("keys {:?} {:?}, the first deleted: {}", k1, k2, e)))?;
        }
        Ok(0)
    });
    // the file map
    let mut ops = vec![];
    for k in 0..2 {
        for c in 0..2 {
            ops.push(FOp::Insert(k, c));
            ops.push(FOp::InsertObj(k, c));
        }
        ops.push(FOp::Del(k));
        ops.push(FOp::DelString(k));
    }
    let d = if r.thorough { 6 } else { 5 };
    let n = (ops.len() as u64).pow(d);
    r.enumerate("file-map", n, n / 64 + 1, opts(), move |lo, hi| {
        const CONTENT: [&[u8]; 2] = [b"", b"\0\r\nx"];
        type F = (String, usize, Vec<u8>);
        for it in lo..hi {
            at_item(it);
            let mut x = it;
            let mut im = MultipartValues::new();
            let mut m: BTreeMap<String, F> = BTreeMap::new();
            let mut hist = vec![];
            for step in 0..d {
                let o = ops[(x % ops.len() as u64) as usize];
                x /= ops.len() as u64;
                hist.push(o);
                let old = match o {
                    FOp::Insert(k, c) | FOp::InsertObj(k, c) => {
                        let f: F = (format!("f{}", step), CONTENT[c].len(), CONTENT[c].to_vec());
                        let was = m.insert(VK[k].into(), f.clone());
                        let got = if matches!(o, FOp::Insert(..)) {
                            // by way of another map: file headers cannot be named outside the crate
                            let mut tmp = MultipartValues::new();
                            tmp.insert_obj("t".into(), f.0, f.2, ContentType::TEXT_PLAIN);
                            im.insert(VK[k].into(), tmp.get("t").unwrap())
                        } else {
                            im.insert_obj(VK[k].into(), f.0, f.2, ContentType::TEXT_PLAIN)
                        };
                        (was, got.map(|f| sh!(f)))
                    }
                    FOp::Del(k) => (m.remove(VK[k]), im.del(VK[k]).map(|f| sh!(f))),
                    FOp::DelString(k) => (m.remove(VK[k]), im.del(&VK[k].to_string()).map(|f| sh!(f))),
                };
                if old.0 != old.1 {
                    return fail("file-map", format!("after {:?}: returned {:?}, expected {:?}", hist, old.1, old.0));
                }
                for k in ["a", "A", "zz"] {
                    let w = m.get(k).cloned();
                    if im.get(k).map(|f| sh!(f)) != w || im.get(&k.to_string()).map(|f| sh!(f)) != w || im.have(k) != w.is_some() || im.have(&k.to_string()) != w.is_some() {
                        return fail("file-map", format!("after {:?}: get({:?}) is {:?}, expected {:?}", hist, k, im.get(k).map(|f| sh!(f)), w));
                    }
                }
                let all: BTreeMap<String, F> = im.map().iter().map(|(k, f)| (k.clone(), sh!(f))).collect();
                if all != m || im.len() != m.len() {
                    return fail("file-map", format!("after {:?}: map() is {:?}, len() {}, expected {:?}", hist, all, im.len(), m));
                }
            }
        }
        Ok(0)
    });
}

// ------------------------------------------------------------------ P27
fn hexs(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    b.iter().flat_map(|x| [D[(x >> 4) as usize] as char, D[(x & 15) as usize] as char]).collect()
}
fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2).map(|p| Some(v(p[0])? * 16 + v(p[1])?)).collect()
}

fn codec_bytes(b: &[u8]) -> Res {
    let (wb, wh) = (b64(b), hexs(b));
    let e = caught(|| (Base64::encode(b), Base64::encode(b.to_vec()), <Hex as HexEncoder<&[u8]>>::encode(b), <Hex as HexEncoder<Vec<u8>>>::encode(b.to_vec())));
    let (b1, b2, h1, h2) = match e {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("encoding {:?}: {}", b, p)),
    };
    if b1 != wb || b2 != wb {
        return fail("base64-encode", format!("base64 of {:?} is {:?} / {:?}, expected {:?}", b, b1, b2, wb));
    }
    if h1 != wh || h2 != wh {
        return fail("hex-encode", format!("hex of {:?} is {:?} / {:?}, expected {:?}", b, h1, h2, wh));
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let h3 = <Hex as HexEncoder<&str>>::encode(s);
        if h3 != wh {
            return fail("hex-encode", format!("hex of {:?} is {:?}, expected {:?}", s, h3, wh));
        }
    }
    for (n, t, d) in [
        ("base64 &str", &wb, caught(|| Base64::decode(&wb[..]))),
        ("base64 String", &wb, caught(|| Base64::decode(wb.clone()))),
        ("hex &str", &wh, caught(|| Hex::decode(&wh[..]))),
        ("hex String", &wh, caught(|| Hex::decode(wh.clone()))),
        ("hex upper case", &wh, caught(|| Hex::decode(wh.to_uppercase()))),
    ] {
        match d {
            Ok(Ok(x)) if x == b => {}
            x => return fail("decode", format!("decoding {:?} ({}) gave {:?}, expected {:?}", t, n, x.map(|y| y.map_err(|e| e.to_string())), b)),
        }
    }
    Ok(0)
}

fn codec_text(s: &str) -> Res {
    for (n, want, a, b) in [
        ("base64", unb64(s), caught(|| Base64::decode(s)), caught(|| Base64::decode(s.to_string()))),
        ("hex", unhex(s.as_bytes()), caught(|| Hex::decode(s)), caught(|| Hex::decode(s.to_string()))),
    ] {
        for d in [a, b] {
            match (d, &want) {
                (Err(p), _) => return fail("panic", format!("decoding {:?} as {}: panic {}", s, n, p)),
                (Ok(Ok(x)), Some(w)) if x == *w => {}
                (Ok(Err(_)), None) => {}
                (Ok(x), w) => return fail(n, format!("decoding {:?} as {} gave {:?}, expected {:?}", s, n, x.map_err(|e| e.to_string()), w)),
            }
        }
    }
    Ok(0)
}

pub fn p27(r: &mut Run) {
    r.assume("base64 with the standard alphabet and padding; a text is a valid encoding if it is what some byte string encodes to (hex digits in either case)");
    let two = 1 + 256 + 65536u64;
    let n = two + (1 << 24);
    r.enumerate("bytes-up-to-3", n, 20_000, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let b: Vec<u8> = if it == 0 {
                vec![]
            } else if it <= 256 {
                vec![(it - 1) as u8]
            } else if it < two {
                vec![((it - 257) >> 8) as u8, (it - 257) as u8]
            } else {
                let x = it - two;
                vec![(x >> 16) as u8, (x >> 8) as u8, x as u8]
            };
            codec_bytes(&b)?;
        }
        Ok(0)
    });
    r.enumerate("longer-bytes", 400 * 8, 200, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = (it / 8) as usize;
            let b = match it % 8 {
                0 => vec![0u8; n],
                1 => vec![0xff; n],
                2 => b"\xfb\xef\xbe".iter().cycle().take(n).copied().collect(),
                k => big(n, k as u32),
            };
            codec_bytes(&b)?;
        }
        Ok(0)
    });
    const BA: [&str; 24] = ["A", "B", "Q", "g", "w", "z", "a", "Z", "0", "9", "+", "/", "=", "-", "_", " ", "\n", "\r", "\t", ".", "%", "\0", "é", "f"];
    let d = if r.thorough { 6 } else { 5 };
    r.enumerate("texts", nstr(24, d), 20_000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            codec_text(&cat(&BA, &nth(24, it)))?;
        }
        Ok(0)
    });
    const BB: [&str; 6] = ["A", "B", "Q", "/", "=", " "];
    let d = if r.thorough { 11 } else { 9 };
    r.enumerate("padded-texts", nstr(6, d), 20_000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            codec_text(&cat(&BB, &nth(6, it)))?;
        }
        Ok(0)
    });
    const HA: [&str; 26] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "F", "g", "G", "/", ":", "@", "`", "é"];
    let d = if r.thorough { 6 } else { 5 };
    r.enumerate("hex-texts", nstr(26, d), 20_000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            codec_text(&cat(&HA, &nth(26, it)))?;
        }
        Ok(0)
    });
    // larger data
    let ln: Vec<usize> = [512usize, 1000, 1024, 2048, 3000, 4096, 8192, 12_288, 16_384, 32_768, 49_152, 65_535, 65_536, 100_000, 131_072, 262_144, 1 << 20].iter().flat_map(|n| [n - 1, *n, n + 1]).collect();
    let k = ln.len() as u64;
    r.enumerate("large-bytes", k * 4, 1, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = ln[it as usize / 4];
            let b = match it % 4 {
                0 => vec![0u8; n],
                1 => (0..n).map(|i| i as u8).collect(),
                2 => b"\xfb\xef\xbe".iter().cycle().take(n).copied().collect(),
                _ => big(n, 9),
            };
            codec_bytes(&b).map_err(|v: Verdict| Verdict { msg: format!("{} bytes: {}", n, v.msg.chars().take(300).collect::<String>()), ..v })?;
        }
        Ok(0)
    });
    // every text one edit away from a valid one
    r.enumerate("one-edit", 40 * 60 * 130, 2000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let b = big((it % 40) as usize, 5);
            let base = if it % 2 == 0 { b64(&b) } else { hexs(&b) };
            let at = (it / 40 % 60) as usize;
            let c = (it / 2400) as u8;
            if at > base.len() || c > 128 {
                continue;
            }
            let mut s: Vec<char> = base.chars().collect();
            if c == 128 {
                if at < s.len() {
                    s.remove(at);
                }
            } else if it % 3 == 0 || at == s.len() {
                s.insert(at, c as char);
            } else {
                s[at] = c as char;
            }
            codec_text(&s.into_iter().collect::<String>())?;
        }
        Ok(0)
    });
}

// ------------------------------------------------------------------ P28
const NS: [(&str, i128); 8] = [
    ("nanoseconds", 1), ("microseconds", 1_000), ("milliseconds", 1_000_000), ("seconds", 1_000_000_000), ("minutes", 60_000_000_000), ("hours", 3_600_000_000_000),
    ("days", 86_400_000_000_000), ("weeks", 604_800_000_000_000),
];
const AMOUNTS: [i64; 16] = [0, 1, -1, 2, 59, 60, -61, 999, 1000, -1001, 86_399, 1_000_000, 1_000_000_007, -2_147_483_649, 4_294_967_297, 23];

#[derive(Clone, Copy, Debug)]
struct TOp {
    unit: usize,
    sub: bool,
    n: i64,
}

fn tapply(t: &mut Time, o: TOp) {
    match (o.unit, o.sub) {
        (0, false) => t.add_nanoseconds(o.n),
        (1, false) => t.add_microseconds(o.n),
        (2, false) => t.add_milliseconds(o.n),
        (3, false) => t.add_seconds(o.n),
        (4, false) => t.add_minutes(o.n),
        (5, false) => t.add_hours(o.n),
        (6, false) => t.add_days(o.n),
        (7, false) => t.add_weeks(o.n),
        (0, true) => t.sub_nanoseconds(o.n),
        (1, true) => t.sub_microseconds(o.n),
        (2, true) => t.sub_milliseconds(o.n),
        (3, true) => t.sub_seconds(o.n),
        (4, true) => t.sub_minutes(o.n),
        (5, true) => t.sub_hours(o.n),
        (6, true) => t.sub_days(o.n),
        (7, true) => t.sub_weeks(o.n),
        // by way of a duration
        (8, false) => t.add(Time::from_nanoseconds(o.n).duration()),
        (8, true) => t.sub(Time::from_nanoseconds(o.n).duration()),
        (9, false) => t.add(Time::from_minutes(o.n).duration()),
        _ => t.sub(Time::from_minutes(o.n).duration()),
    }
}
fn tns(o: TOp) -> i128 {
    let k = match o.unit {
        8 => 1,
        9 => NS[4].1,
        u => NS[u].1,
    };
    let x = o.n as i128 * k;
    if o.sub { -x } else { x }
}

/// The unit accessors against the exact number of nanoseconds.
fn tstate(t: &Time, ns: i128) -> Result<(), String> {
    let fit = |x: i128| i64::try_from(x).ok();
    let got: [(&str, Option<i64>); 8] = [
        ("nanoseconds", t.num_nanoseconds()), ("microseconds", t.num_microseconds()), ("milliseconds", Some(t.num_milliseconds())), ("seconds", Some(t.num_seconds())),
        ("minutes", Some(t.num_minutes())), ("hours", Some(t.num_hours())), ("days", Some(t.num_days())), ("weeks", Some(t.num_weeks())),
    ];
    for ((n, g), (_, k)) in got.iter().zip(NS) {
        if *g != fit(ns / k) {
            return Err(format!("num_{} is {:?}, expected {} ({} ns)", n, g, ns / k, ns));
        }
    }
    Ok(())
}

fn tmake(base: usize) -> (Time, i128) {
    // (unit, amount)
    const B: [(usize, i64); 24] = [
        (3, 0), (3, 1_638_959_874), (0, 1_638_959_874_647_599_000), (3, -1), (0, -1), (0, 1), (0, 999_999_999), (0, -999_999_999), (1, -1_500_000), (2, 951_782_399_999),
        (3, 951_782_400), (3, 4_107_542_399), (3, -2_208_988_800), (4, 27_315_997), (4, -1), (3, 68_169_600), (2, -1), (1, 1), (3, 253_402_300_799), (3, -62_135_596_800),
        (0, i64::MAX), (0, i64::MIN), (2, 4_102_444_799_001), (1, i64::MAX),
    ];
    let (u, n) = B[base];
    let t = match u {
        0 => Time::from_nanoseconds(n),
        1 => Time::from_microseconds(n),
        2 => Time::from_milliseconds(n),
        3 => Time::from_secs(n),
        _ => Time::from_minutes(n),
    };
    (t, n as i128 * NS[u].1)
}

/// What `fmt` stands for at `secs`, field by field.
fn tformat(secs: i64, fmt: &str) -> String {
    let days = secs.div_euclid(86_400);
    let s = secs.rem_euclid(86_400);
    let (y, m, d, w) = civil(days);
    let (hh, mm, ss) = (s / 3600, s / 60 % 60, s % 60);
    let h12 = if hh % 12 == 0 { 12 } else { hh % 12 };
    let doy = (days - days_of(y, 1, 1)) + 1;
    // ISO week: the week of this day's Thursday
    let thu = days + 3 - (w as i64 + 6) % 7;
    let iy = civil(thu).0;
    let iw = (thu - days_of(iy, 1, 1)) / 7 + 1;
    let year = |y: i64| if (0..=9999).contains(&y) { format!("{:04}", y) } else { format!("{:+05}", y) };
    let mut o = String::new();
    let mut it = fmt.chars();
    while let Some(c) = it.next() {
        if c != '%' {
            o.push(c);
            continue;
        }
        match it.next().unwrap() {
            'Y' => o += &year(y),
            'm' => o += &format!("{:02}", m),
            'd' => o += &format!("{:02}", d),
            'e' => o += &format!("{:2}", d),
            'H' => o += &format!("{:02}", hh),
            'I' => o += &format!("{:02}", h12),
            'M' => o += &format!("{:02}", mm),
            'S' => o += &format!("{:02}", ss),
            'p' => o += if hh < 12 { "AM" } else { "PM" },
            'P' => o += if hh < 12 { "am" } else { "pm" },
            'a' => o += &WD[w as usize][..3],
            'A' => o += WD[w as usize],
            'b' => o += &MON[m as usize - 1][..3],
            'B' => o += MON[m as usize - 1],
            'j' => o += &format!("{:03}", doy),
            'y' => o += &format!("{:02}", y.rem_euclid(100)),
            'G' => o += &year(iy),
            'V' => o += &format!("{:02}", iw),
            'u' => o += &format!("{}", (w + 6) % 7 + 1),
            'w' => o += &format!("{}", w),
            's' => o += &format!("{}", secs),
            '%' => o.push('%'),
            x => panic!("format {}", x),
        }
    }
    o
}

fn days_of(y: i64, m: u32, d: u32) -> i64 {
    // days before the year, then before the month
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let z = y - 1;
    let mut n = z * 365 + z.div_euclid(4) - z.div_euclid(100) + z.div_euclid(400) - 719_162;
    for i in 1..m {
        n += match i {
            2 => if leap(y) { 29 } else { 28 },
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
    }
    n + d as i64 - 1
}

/// Formats with full date and time.
const FULL: [&str; 10] = [
    "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%a, %d %b %Y %H:%M:%S GMT", "%G-W%V-%u%H%M%S", "%d%b%Y%p%I%M%S", "%A %e %B %Y %I:%M:%S %P", "%Y/%j %H.%M.%S", "%Y%m%d%H%M%S", "%s", "%S %M %H %d %m %Y",
];

fn tcheck(secs: i64, sub: u32) -> Result<(), Verdict> {
    let t = if sub == 0 { Time::from_secs(secs) } else {
        let mut t = Time::from_secs(secs);
        t.add_nanoseconds(sub as i64);
        t
    };
    for f in FULL {
        let want = tformat(secs, f);
        let (a, b, c) = match caught(|| (t.format(f).to_string(), t.format_string(f), Time::format_data(t, f))) {
            Ok(x) => x,
            Err(p) => return fail("panic", format!("formatting {} s with {:?}: {}", secs, f, p)),
        };
        if a != want || b != want || c != want {
            return fail("format", format!("{} s + {} ns with {:?} is {:?} / {:?} / {:?}, expected {:?}", secs, sub, f, a, b, c, want));
        }
        if f == "%Y%m%d%H%M%S" && !(1000..=9999).contains(&civil(secs.div_euclid(86_400)).0) {
            continue; // digits run together: the year has no end
        }
        if f == "%s" && secs < 0 {
            continue; // chrono reads no sign there
        }
        match caught(|| Time::parse_from_str(&want, f)) {
            Err(p) => return fail("panic", format!("parsing {:?} with {:?}: {}", want, f, p)),
            Ok(Err(e)) => return fail("parse", format!("parsing {:?} with {:?} failed: {}", want, f, e)),
            Ok(Ok(p)) => {
                if p != Time::from_secs(secs) || p.num_seconds() != secs {
                    return fail("parse", format!("parsing {:?} with {:?} gives {} s, expected {}", want, f, p.num_seconds(), secs));
                }
            }
        }
    }
    if t.to_string() != tformat(secs, FULL[0]) {
        return fail("format", format!("to_string of {} s is {:?}", secs, t.to_string()));
    }
    Ok(())
}

pub fn p28(r: &mut Run) {
    r.assume("times within the range of the underlying durations and calendar; formats name the fields of POSIX strftime (plus ISO weeks); two-digit years stand for 1970-2069");
    // every day of a range, at several times of day
    let (d0, d1) = if r.thorough { (days_of(-400, 1, 1), days_of(10_400, 1, 1)) } else { (days_of(1590, 1, 1), days_of(2410, 1, 1)) };
    r.enumerate("every-day", (d1 - d0) as u64, 500, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let day = (d0 + it as i64) * 86_400;
            let k = it as i64 % 7;
            for (s, n) in [(0, 0), (86_399, 999_999_999), (43_200 + k, 1), ((it as i64 * 7919) % 86_400, 0)] {
                tcheck(day + s, n)?;
            }
        }
        Ok(0)
    });
    // some days of every year the calendar is used for
    let (y0, y1) = if r.thorough { (-9000i64, 99_000) } else { (-999, 9999) };
    r.enumerate("every-year", (y1 - y0) as u64, 100, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let y = y0 + it as i64;
            for (m, d) in [(1, 1), (2, 28), (3, 1), (12, 31), (1 + (y.rem_euclid(12)) as u32, 15)] {
                let day = days_of(y, m, d) * 86_400;
                for s in [0, 86_399] {
                    tcheck(day + s, 0)?;
                }
            }
        }
        Ok(0)
    });
    // every second of some days
    let ds = [0i64, -1, days_of(2000, 2, 29), days_of(1900, 2, 28), days_of(2021, 12, 31)];
    let nd = if r.thorough { 5 } else { 2 };
    r.enumerate("every-second", 86_400 * nd, 2000, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            tcheck(ds[(it / 86_400) as usize] * 86_400 + it as i64 % 86_400, (it % 3) as u32 * 499_999_999)?;
        }
        Ok(0)
    });
    // two-digit years
    r.enumerate("two-digit-years", 36_525, 1000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let secs = it as i64 * 86_400 + (it as i64 * 6007) % 86_400;
            for f in ["%y/%m/%d %H:%M:%S", "%d %b %y %I:%M:%S %p", "%y %j %H %M %S"] {
                let want = tformat(secs, f);
                let t = Time::from_secs(secs);
                if t.format_string(f) != want {
                    return fail("format", format!("{} s with {:?} is {:?}, expected {:?}", secs, f, t.format_string(f), want));
                }
                match Time::parse_from_str(&want, f) {
                    Ok(p) if p == t => {}
                    x => return fail("parse", format!("parsing {:?} with {:?} gives {:?}, expected {} s", want, f, x.map(|t| t.num_seconds()).map_err(|e| e.to_string()), secs)),
                }
            }
        }
        Ok(0)
    });
    // fields out of range are refused
    r.enumerate("field-ranges", 9 * 15 * 34 * 6, 1000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let y = [1600, 1900, 1999, 2000, 2001, 2004, 2021, 2100, 2400][(it % 9) as usize];
            let m = (it / 9 % 15) as u32;
            let d = (it / 135 % 34) as u32;
            let (h, mi, s) = [(0, 0, 0), (23, 59, 59), (24, 0, 0), (12, 60, 0), (12, 0, 61), (7, 8, 9)][(it / 4590) as usize];
            let txt = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", y, m, d, h, mi, s);
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let ok = (1..=12).contains(&m) && d >= 1 && d <= [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m.max(1) as usize - 1) % 12] && h < 24 && mi < 60 && s < 60;
            match (caught(|| Time::parse_from_str(&txt, FULL[0])), ok) {
                (Err(p), _) => return fail("panic", format!("parsing {:?}: {}", txt, p)),
                (Ok(Ok(t)), true) => {
                    let want = days_of(y, m, d) * 86_400 + h * 3600 + mi * 60 + s;
                    if t.num_seconds() != want {
                        return fail("parse", format!("{:?} is {} s, expected {}", txt, t.num_seconds(), want));
                    }
                }
                (Ok(Err(_)), false) => {}
                (Ok(x), _) => return fail("parse", format!("parsing {:?} gives {:?}", txt, x.map(|t| t.num_seconds()).map_err(|e| e.to_string()))),
            }
        }
        Ok(0)
    });
    // fractions of a second
    r.enumerate("fractions", 24 * 12 * 6, 100, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let base = [0i64, -1, 1, 59, -86_400, 951_782_399, 951_782_400, 1_638_959_874, 4_102_444_799, -2_208_988_801, -62_135_596_800, 253_402_300_799][(it % 12) as usize] + (it / 12 % 2) as i64 * 1_800;
            let ns = [0i64, 1, 999, 1_000, 123_456_789, 999_999_999, 1_000_000, 120_000_000, 999_999_000, 500_000_000, 100, 7_000_000][(it / 24 % 12) as usize];
            let mut t = Time::from_secs(base);
            t.add_nanoseconds(ns);
            let short = if ns == 0 { String::new() } else if ns % 1_000_000 == 0 { format!(".{:03}", ns / 1_000_000) } else if ns % 1_000 == 0 { format!(".{:06}", ns / 1_000) } else { format!(".{:09}", ns) };
            let (f, frac) = [("%.f", short), ("%.3f", format!(".{:03}", ns / 1_000_000)), ("%.6f", format!(".{:06}", ns / 1000)), ("%.9f", format!(".{:09}", ns)), ("x%f", format!("x{:09}", ns)), ("", String::new())][(it / 288) as usize].clone();
            for head in ["%Y-%m-%d %H:%M:%S", "%a, %d %b %Y %H:%M:%S", "%d%b%Y%p%I%M%S"] {
                let whole = tformat(base, head);
                match caught(|| (t.format(head).to_string(), t.format_string(head), Time::format_data(t, head))) {
                    Ok(x) if x.0 == whole && x.1 == whole && x.2 == whole => {}
                    x => return fail("format", format!("{} s + {} ns with {:?} is {:?}, expected {:?}", base, ns, head, x, whole)),
                }
                // (what is printed for a fraction is left open: the repository's own test has it print nothing)
                let (f, want) = (format!("{}{}", head, f), format!("{}{}", whole, frac));
                match Time::parse_from_str(&want, &f) {
                    Ok(p) => {
                        let mut d = t;
                        d.sub(p.duration());
                        let lost = d.duration().num_nanoseconds().unwrap_or(-1);
                        if !(0..1_000_000_000).contains(&lost) || p.num_seconds() != { let mut w = t; w.sub_nanoseconds(lost); w.num_seconds() } || (f.ends_with("%.9f") || f.ends_with("x%f") || f.ends_with("%.f")) && lost != 0 {
                            return fail("parse", format!("parsing {:?} with {:?} loses {} ns", want, f, lost));
                        }
                    }
                    Err(e) => return fail("parse", format!("parsing {:?} with {:?}: {}", want, f, e.to_string())),
                }
            }
        }
        Ok(0)
    });
    // the same for the other ways to write a field
    r.enumerate("field-ranges-2", 16 * 62 * 2 + 370 * 9, 500, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (txt, f, ok, want) = if it < 16 * 62 * 2 {
                let (h, mi, pm) = ((it % 16) as i64, (it / 16 % 62) as i64, it / 16 / 62 == 1);
                (format!("2021-12-08 {:02}:{:02}:07 {}", h, mi, if pm { "PM" } else { "AM" }), "%Y-%m-%d %I:%M:%S %p", (1..=12).contains(&h) && mi < 60, days_of(2021, 12, 8) * 86_400 + (h % 12 + if pm { 12 } else { 0 }) * 3600 + mi * 60 + 7)
            } else {
                let k = it - 16 * 62 * 2;
                let (d, y) = ((k % 370) as i64, [1900i64, 1970, 1996, 2000, 2004, 2021, 2024, 2100, 2400][(k / 370) as usize]);
                let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
                (format!("{}/{:03} 12.34.56", y, d), "%Y/%j %H.%M.%S", d >= 1 && d <= if leap { 366 } else { 365 }, (days_of(y, 1, 1) + d - 1) * 86_400 + 45_296)
            };
            match (caught(|| Time::parse_from_str(&txt, f)), ok) {
                (Ok(Ok(t)), true) if t.num_seconds() == want => {}
                (Ok(Err(_)), false) => {}
                (x, _) => return fail("parse", format!("parsing {:?} with {:?} gives {:?}, expected {}", txt, f, x.map(|x| x.map(|t| t.num_seconds()).map_err(|e| e.to_string())), if ok { format!("{} s", want) } else { "an error".into() })),
            }
        }
        Ok(0)
    });
    // texts over an alphabet: never a panic
    const A: [&str; 10] = ["2021", "-", "12", " ", ":", "9", "99999999999999999999", "x", "+", "é"];
    r.enumerate("texts", nstr(10, if r.thorough { 6 } else { 5 }), 5000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let s = cat(&A, &nth(10, it));
            for f in [FULL[0], FULL[2], FULL[3], FULL[8]] {
                if let Err(p) = caught(|| Time::parse_from_str(&s, f).map(|t| t.to_string())) {
                    // a number of seconds far outside the calendar cannot be formatted
                    if f != FULL[8] {
                        return fail("panic", format!("parsing {:?} with {:?}: {}", s, f, p));
                    }
                }
            }
        }
        Ok(0)
    });
    // amounts near the ends of what a time can hold, in every unit
    r.enumerate("far-operations", 24 * 10 * 2 * 14 * 8, 1000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (mut t, mut ns) = tmake((it % 24) as usize);
            let unit = (it / 24 % 10) as usize;
            // a time holds up to 2^63-1 milliseconds either way
            let k = match unit { 8 => 1, 9 => NS[4].1, u => NS[u].1 };
            let top = ((i64::MAX as i128) * 1_000_000 / k).min(i64::MAX as i128);
            let far = [top / 2, top / 3, top / 7, top / 100, top / 1_000, top / 30_000, top / 1_000_003, i64::MAX as i128 / k, i64::MAX as i128 / k + 1, i64::MAX as i128 / k * 2, i64::MAX as i128 * 1_000 / k, i64::MAX as i128 * 1_000 / k + 1, 1 << 31, 1 << 32];
            let n = far[(it / 480 % 14) as usize];
            let sign = if it / 240 % 2 == 0 { 1 } else { -1 };
            let o = TOp { unit, sub: it / 6720 % 2 == 1, n: (n.min(top) * sign) as i64 };
            let then = TOp { unit: [1usize, 3, 6, 2][(it / 13440) as usize], sub: it % 3 == 0, n: 1_000_003 };
            for o in [o, then] {
                let next = ns + tns(o);
                if next.abs() / 1_000_000 >= i64::MAX as i128 - 1 {
                    break;
                }
                ns = next;
                if let Err(p) = caught(|| tapply(&mut t, o)) {
                    return fail("panic", format!("base {} and {:?}: {}", it % 24, o, p));
                }
                if let Err(e) = tstate(&t, ns) {
                    return fail("arithmetic", format!("base {} after {:?}: {}", it % 24, o, e));
                }
            }
        }
        Ok(0)
    });
    // sequences of additions and subtractions
    for (name, amounts, q, t) in [("operations", 16usize, 2u32, 2u32), ("operation-sequences", 3, 3, 3), ("long-operation-sequences", 1, 4, 4)] {
        let mut ops = vec![];
        for unit in 0..10 {
            for sub in [false, true] {
                for &n in [&AMOUNTS[..], &[1, -61, 1_000_000_007], &[-1]][match amounts { 16 => 0, 3 => 1, _ => 2 }] {
                    ops.push(TOp { unit, sub, n });
                }
            }
        }
        let len = if r.thorough { t } else { q };
        let bases = if name == "operation-sequences" && !r.thorough { 8u64 } else { 24 };
        let n = (ops.len() as u64).pow(len) * bases;
        r.enumerate(name, n, n / 64 + 1, opts(), move |lo, hi| {
            for it in lo..hi {
                at_item(it);
                let base = (it % bases) as usize;
                let (mut t, mut ns) = tmake(base);
                let mut x = it / bases;
                let start = t;
                let mut done = vec![];
                if let Err(e) = tstate(&t, ns) {
                    return fail("units", format!("base {}: {}", base, e));
                }
                for _ in 0..len {
                    let o = ops[(x % ops.len() as u64) as usize];
                    x /= ops.len() as u64;
                    done.push(o);
                    ns += tns(o);
                    if let Err(p) = caught(|| tapply(&mut t, o)) {
                        return fail("panic", format!("base {} after {:?}: {}", base, done, p));
                    }
                    if let Err(e) = tstate(&t, ns) {
                        return fail("arithmetic", format!("base {} after {:?}: {}", base, done, e));
                    }
                }
                // and back
                for o in done.iter().rev() {
                    tapply(&mut t, TOp { sub: !o.sub, ..*o });
                }
                if t != start {
                    return fail("inverse", format!("base {}: {:?} and then their inverses do not restore the time", base, done));
                }
            }
            Ok(0)
        });
    }
}

// ------------------------------------------------------------------ P30
fn methods() -> [(Method, &'static str, bool, bool); 12] {
    // text, safe, cacheable
    [
        (Method::OPTIONS, "OPTIONS", true, false), (Method::GET, "GET", true, true), (Method::POST, "POST", false, true), (Method::PUT, "PUT", false, false),
        (Method::DELETE, "DELETE", false, false), (Method::HEAD, "HEAD", true, true), (Method::TRACE, "TRACE", true, false), (Method::CONNECT, "CONNECT", false, false),
        (Method::PATCH, "PATCH", false, false), (Method::LINK, "LINK", false, false), (Method::UNLINK, "UNLINK", false, false), (Method::PRI, "PRI", false, false),
    ]
}

fn method_text(b: &[u8]) -> Res {
    let want = methods().into_iter().find(|m| m.1.as_bytes() == b).map(|m| m.0);
    if b.is_empty() {
        return Ok(0); // stands for GET in client requests
    }
    for (n, g) in [("from_bytes", caught(|| Method::from_bytes(b))), ("from_str", caught(|| Method::from_str(std::str::from_utf8(b).unwrap_or("\u{1}"))))] {
        match (g, &want) {
            (Err(p), _) => return fail("panic", format!("Method::{}({:?}): {}", n, b, p)),
            (Ok(Ok(m)), Some(w)) if m == *w => {}
            (Ok(Err(_)), None) => {}
            (Ok(x), _) => return fail("method", format!("Method::{}({:?}) is {:?}, expected {:?}", n, String::from_utf8_lossy(b), x.map_err(|e| e.to_string()), want)),
        }
    }
    Ok(0)
}
fn version_text(s: &str) -> Res {
    let want = match s {
        "HTTP/1.0" => Some(Version::HTTP_10),
        "HTTP/1.1" => Some(Version::HTTP_11),
        _ => None,
    };
    match (caught(|| Version::from_str(s)), want) {
        (Err(p), _) => fail("panic", format!("Version::from_str({:?}): {}", s, p)),
        (Ok(Ok(v)), Some(w)) if v == w && v.to_string() == s && v.as_slice() == s.as_bytes() => Ok(0),
        (Ok(Err(_)), None) => Ok(0),
        (Ok(x), w) => fail("version", format!("Version::from_str({:?}) is {:?}, expected {:?}", s, x.map_err(|e| e.to_string()), w)),
    }
}
fn type_text(s: &str) -> Res {
    let g = match caught(|| ContentType::from_str(s)) {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("ContentType::from_str({:?}): {}", s, p)),
    };
    let low = s.split(';').next().unwrap().trim().to_ascii_lowercase();
    let known = (0..17u8).filter(|i| *i != 3 && *i != 4).map(cts_n).find(|x| x.1 == low);
    let want = match known {
        Some((c, _)) => c,
        None if low == "multipart/form-data" => return if g.as_str() == "multipart/form-data" || g == ContentType::default() { Ok(0) } else { fail("media-type", format!("{:?} is {:?}", s, g)) },
        None => ContentType::default(),
    };
    if g != want {
        return fail("media-type", format!("ContentType::from_str({:?}) is {:?}, expected {:?}", s, g, want));
    }
    Ok(0)
}
fn cts_n(i: u8) -> (ContentType, &'static str) {
    if i > 15 { (ContentType::TEXT_PLAIN, "text/plain") } else { cts(i) }
}

/// All strings one insertion, deletion, replacement or swap away from `s`.
fn neighbours(s: &str) -> Vec<Vec<u8>> {
    let b = s.as_bytes();
    let mut v = vec![];
    for i in 0..=b.len() {
        for c in 0..=255u8 {
            let mut x = b.to_vec();
            x.insert(i, c);
            v.push(x);
            if i < b.len() {
                let mut x = b.to_vec();
                x[i] = c;
                v.push(x);
            }
        }
        if i < b.len() {
            let mut x = b.to_vec();
            x.remove(i);
            v.push(x);
            for j in 0..i {
                let mut x = b.to_vec();
                x.swap(i, j);
                v.push(x);
            }
        }
    }
    v
}

pub fn p30(r: &mut Run) {
    r.assume("the empty method stands for GET in client requests (documented); a media type may carry parameters and any letter case; unknown media types are octet streams (documented default)");
    r.enumerate("constants", 1, 1, opts(), |_, _| {
        at_item(0);
        let ms = methods();
        for (i, (m, t, safe, cache)) in ms.iter().enumerate() {
            if m.as_str() != *t || m.to_string() != *t || *m != **t || format!("{:?}", m) != *t || AsRef::<str>::as_ref(m) != *t {
                return fail("method", format!("{} has the texts {:?} {:?}", t, m.as_str(), m.to_string()));
            }
            method_text(t.as_bytes())?;
            if m.is_safe() != *safe || m.is_cacheable() != *cache {
                return fail("method-attributes", format!("{}: safe {}, cacheable {}", t, m.is_safe(), m.is_cacheable()));
            }
            for (j, o) in ms.iter().enumerate() {
                if (m == &o.0) != (i == j) {
                    return fail("method", format!("{} == {}", t, o.1));
                }
            }
        }
        for (v, t, a, b) in [(Version::HTTP_10, "HTTP/1.0", 1, 0), (Version::HTTP_11, "HTTP/1.1", 1, 1)] {
            if v.to_string() != t || v.major() != a || v.minor() != b || v != *t || v.as_slice() != t.as_bytes() {
                return fail("version", format!("{} is {:?} {}.{}", t, v, v.major(), v.minor()));
            }
            version_text(t)?;
        }
        for i in 0..16u8 {
            let (c, t) = cts(i);
            let media = if i == 4 { "multipart/form-data" } else { t };
            if c.as_str() != media {
                return fail("media-type", format!("{:?} has the text {:?}", t, c.as_str()));
            }
            if i != 3 {
                let back = ContentType::from_str(t);
                if back != c {
                    return fail("media-type", format!("{:?} reads back as {:?}", t, back));
                }
            }
        }
        Ok(0)
    });
    r.enumerate("status-codes", 65536, 4096, opts(), |lo, hi| {
        let st = statuses();
        for it in lo..hi {
            at_item(it);
            let c = it as u16;
            match (caught(|| Status::from_code(c)), st.iter().find(|s| s.0 == c)) {
                (Err(p), _) => return fail("panic", format!("Status::from_code({}): {}", c, p)),
                (Ok(Err(_)), None) => {}
                (Ok(Ok(s)), Some(w)) => {
                    let norm = |x: &str| x.to_ascii_lowercase().replace('-', " ");
                    if s.code() != c || norm(s.phrase()) != norm(w.2) || s.phrase_as_slice() != s.phrase().as_bytes() || s != c || c != s {
                        return fail("status", format!("{} is {:?}, expected {:?}", c, s, w.2));
                    }
                    for o in &st {
                        if (o.1 == s) != (o.0 == c) {
                            return fail("status", format!("{} and {} compare equal", c, o.0));
                        }
                    }
                }
                (Ok(x), w) => return fail("status", format!("Status::from_code({}) is {:?}, expected {:?}", c, x.map_err(|e| e.to_string()), w.map(|w| w.2))),
            }
        }
        Ok(0)
    });
    // all short byte strings, and everything one edit away from a valid text
    let three = 1 + 256 + 65536 + (1u64 << 24);
    r.enumerate("short-texts", three, 50_000, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let b: Vec<u8> = if it < 257 {
                if it == 0 { vec![] } else { vec![(it - 1) as u8] }
            } else if it < 65793 {
                vec![((it - 257) >> 8) as u8, (it - 257) as u8]
            } else {
                let x = it - 65793;
                vec![x as u8, (x >> 8) as u8, (x >> 16) as u8]
            };
            method_text(&b)?;
            if let Ok(s) = std::str::from_utf8(&b) {
                version_text(s)?;
                type_text(s)?;
            }
        }
        Ok(0)
    });
    let texts: Vec<&'static str> = methods().iter().map(|m| m.1).chain(["HTTP/1.0", "HTTP/1.1"]).chain((0..16u8).map(|i| cts(i).1)).collect();
    let nt = texts.len() as u64;
    r.enumerate("one-edit", nt, 1, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            for b in neighbours(texts[it as usize]) {
                method_text(&b)?;
                if let Ok(s) = std::str::from_utf8(&b) {
                    version_text(s)?;
                    if it < 14 || (!b.is_empty() && !s.trim_start().is_empty()) {
                        type_text(s)?;
                    }
                }
            }
        }
        Ok(0)
    });
    // upper-case words over the letters of the methods
    const L: [&str; 8] = ["G", "E", "T", "P", "U", "I", "R", "O"];
    r.enumerate("words", nstr(8, if r.thorough { 9 } else { 7 }), 20_000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            method_text(cat(&L, &nth(8, it)).as_bytes())?;
        }
        Ok(0)
    });
}

// ------------------------------------------------------------------ P32
type Enc = fn(&[u8], flate2::Compression) -> starry::utils::errors::StarryResult<Vec<u8>>;
type Dec = fn(&[u8]) -> starry::utils::errors::StarryResult<Vec<u8>>;
/// name, compress, uncompress, uncompress another's
const CODECS: [(&str, Enc, Dec); 3] = [("gzip", Compress::gzip, Compress::un_gzip), ("zlib", Compress::zlib, Compress::un_zlib), ("deflate", Compress::deflate, Compress::un_deflate)];

/// Decoding by the independent inflater.
fn inflate_ref(codec: usize, b: &[u8]) -> Option<Vec<u8>> {
    use crate::inflate::*;
    let r = match codec {
        0 => gzip(b),
        1 => zlib(b),
        _ => inflate(b),
    };
    r.map(|x| x.0)
}

fn roundtrip(b: &[u8], codec: usize, level: u32) -> Res {
    let (n, e, d) = CODECS[codec];
    let show = |b: &[u8]| if b.len() > 60 { format!("{} bytes", b.len()) } else { format!("{:?}", b) };
    let c = match caught(|| e(b, flate2::Compression::new(level))) {
        Ok(Ok(c)) => c,
        Ok(Err(x)) => return fail("compress", format!("{} of {} at level {}: {}", n, show(b), level, x)),
        Err(p) => return fail("panic", format!("{} of {} at level {}: {}", n, show(b), level, p)),
    };
    match caught(|| d(&c)) {
        Ok(Ok(x)) if x == b => {}
        Ok(x) => return fail("round-trip", format!("{} of {} at level {} comes back as {}", n, show(b), level, match x { Ok(x) => show(&x), Err(e) => e.to_string() })),
        Err(p) => return fail("panic", format!("un_{} of {:?}: {}", n, c, p)),
    }
    match inflate_ref(codec, &c) {
        Some(x) if x == b => Ok(0),
        x => fail("format", format!("{} of {} at level {} is {}, which another decoder reads as {:?}", n, show(b), level, show(&c), x.map(|x| show(&x)))),
    }
}

pub fn p32(r: &mut Run) {
    r.assume("data after the end of a compressed stream are ignored; damage to raw deflate data, which carry no checksum, may go unnoticed, their truncation not");
    r.enumerate("bytes-up-to-2", 65793 * 3 * 3, 5000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let x = it / 9;
            let b: Vec<u8> = if x == 0 { vec![] } else if x < 257 { vec![(x - 1) as u8] } else { vec![((x - 257) >> 8) as u8, (x - 257) as u8] };
            roundtrip(&b, (it % 3) as usize, [0, 6, 9][(it / 3 % 3) as usize])?;
        }
        Ok(0)
    });
    const A: [&[u8]; 4] = [b"a", b"b", b"\0", b"abab"];
    let dep = if r.thorough { 9 } else { 7 };
    r.enumerate("strings", nstr(4, dep) * 12, 5000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            roundtrip(&catb(&A, &nth(4, it / 12)), (it % 3) as usize, [0, 1, 6, 9][(it / 3 % 4) as usize])?;
        }
        Ok(0)
    });
    const LEN: [usize; 18] = [0, 1, 100, 257, 258, 259, 1023, 1024, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200_000, 1_000_000];
    r.enumerate("lengths", 18 * 5 * 3 * 10, 30, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = LEN[(it / 150) as usize];
            let b = match it / 30 % 5 {
                0 => vec![b'a'; n],
                1 => vec![0; n],
                2 => (0..n).map(|i| i as u8).collect(),
                3 => b"hello world, ".iter().cycle().take(n).copied().collect(),
                _ => big(n, 3),
            };
            roundtrip(&b, (it % 3) as usize, (it / 3 % 10) as u32)?;
        }
        Ok(0)
    });
    // truncation at every byte
    let samples: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), b"hello hello hello".to_vec(), vec![0; 1000], big(300, 1), (0..200u8).collect(), b"abc".iter().cycle().take(5000).copied().collect(), big(5000, 2)];
    let sm = samples.clone();
    r.enumerate("truncated", 8 * 3 * 3 * 5200, 5000, opts(), move |lo, hi| {
        let mut cache: Option<(u64, Vec<u8>)> = None;
        for it in lo..hi {
            at_item(it);
            let (k, cut) = (it / 5200, (it % 5200) as usize);
            let (n, e, d) = CODECS[(k % 3) as usize];
            let b = &sm[(k / 9) as usize];
            if cache.as_ref().map_or(true, |c| c.0 != k) {
                cache = Some((k, e(b, flate2::Compression::new([0, 6, 9][(k / 3 % 3) as usize])).unwrap_or_default()));
            }
            let c = &cache.as_ref().unwrap().1;
            if cut >= c.len() {
                continue;
            }
            match caught(|| d(&c[..cut])) {
                Err(p) => return fail("panic", format!("un_{} of the first {} bytes of {}: {}", n, cut, c.len(), p)),
                Ok(Err(_)) => {}
                Ok(Ok(x)) => return fail("truncation-unnoticed", format!("un_{} of the first {} of {} bytes returned {} bytes ({} were compressed)", n, cut, c.len(), x.len(), b.len())),
            }
        }
        Ok(0)
    });
    // every byte changed to every value
    r.enumerate("damaged", 6 * 3 * 360 * 255, 20_000, opts(), move |lo, hi| {
        let mut cache: Option<(u64, Vec<u8>)> = None;
        for it in lo..hi {
            at_item(it);
            let (k, at, x) = (it / 91_800, (it / 255 % 360) as usize, (it % 255) as u8 + 1);
            let (n, e, d) = CODECS[(k % 3) as usize];
            let b = &samples[(k / 3) as usize];
            if cache.as_ref().map_or(true, |c| c.0 != k) {
                cache = Some((k, e(b, flate2::Compression::new(6)).unwrap_or_default()));
            }
            let mut c = cache.as_ref().unwrap().1.clone();
            if at >= c.len() {
                continue;
            }
            c[at] ^= x;
            match caught(|| d(&c)) {
                Err(p) => return fail("panic", format!("un_{} of damaged data {:?}: {}", n, c, p)),
                Ok(Ok(y)) if k % 3 != 2 && y != *b => return fail("damage-unnoticed", format!("un_{} of data with byte {} of {} changed by {:#x} returned {} bytes other than those compressed", n, at, c.len(), x, y.len())),
                _ => {}
            }
        }
        Ok(0)
    });
    // arbitrary data
    const T: [&[u8]; 12] = [b"\x1f\x8b", b"\x08", b"\0", b"\0\0\0\0", b"\xff", b"\x78", b"\x9c", b"\x01", b"\x03", b"\x4b\x04\0", b"\xed", b"\x1f"];
    let dep = if r.thorough { 6 } else { 5 };
    r.enumerate("arbitrary", nstr(12, dep), 5000, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let b = catb(&T, &nth(12, it));
            for (i, (n, _, d)) in CODECS.iter().enumerate() {
                match (caught(|| d(&b)), inflate_ref(i, &b)) {
                    (Err(p), _) => return fail("panic", format!("un_{} of {:?}: {}", n, b, p)),
                    (Ok(Ok(x)), Some(y)) if x != y => return fail("invented", format!("un_{} of {:?} returned {:?}, another decoder {:?}", n, b, x, y)),
                    _ => {}
                }
            }
        }
        Ok(0)
    });
}
