//! C18: the codecs against references that share no code with them, and against damaged input.

use flate2::{Compression, Decompress, FlushDecompress, Status as Flate};
use serde_json::json;
use starry::utils::cryptos::base64::{Base64Decoder, Base64Encoder};
use starry::utils::cryptos::hex::{HexDecoder, HexEncoder};
use starry::utils::cryptos::{Base64, Hex};
use starry::utils::Compress;

use crate::report::{guarded, run_cases, show, Report};
use crate::request::{b64, unb64};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Codec {
    Gzip,
    Zlib,
    Deflate,
}

fn enc(c: Codec, x: &[u8], level: u32) -> Result<Vec<u8>, String> {
    let l = match level {
        10 => Compression::default(),
        11 => Compression::fast(),
        12 => Compression::best(),
        n => Compression::new(n),
    };
    let r = guarded(|| match c {
        Codec::Gzip => Compress::gzip(x, l).map_err(|e| e.to_string()),
        Codec::Zlib => Compress::zlib(x, l).map_err(|e| e.to_string()),
        Codec::Deflate => Compress::deflate(x, l).map_err(|e| e.to_string()),
    });
    r.and_then(|r| r.map_err(|e| format!("Err({})", e)))
}

/// Err(Some(..)): panic, Err(None): refused
fn dec(c: Codec, x: &[u8]) -> Result<Vec<u8>, Option<String>> {
    match guarded(|| match c {
        Codec::Gzip => Compress::un_gzip(x).ok(),
        Codec::Zlib => Compress::un_zlib(x).ok(),
        Codec::Deflate => Compress::un_deflate(x).ok(),
    }) {
        Err(p) => Err(Some(p)),
        Ok(None) => Err(None),
        Ok(Some(v)) => Ok(v),
    }
}

/// reference inflater; returns the bytes and how much input they took
fn inflate(x: &[u8], zlib: bool) -> Option<(Vec<u8>, usize)> {
    let mut d = Decompress::new(zlib);
    let mut out: Vec<u8> = Vec::with_capacity(4096);
    loop {
        let (i, o) = (d.total_in(), d.total_out());
        let st = d.decompress_vec(&x[i as usize..], &mut out, FlushDecompress::None).ok()?;
        match st {
            Flate::StreamEnd => return Some((out, d.total_in() as usize)),
            _ => {
                if out.len() == out.capacity() {
                    out.reserve(out.len().max(4096));
                } else if d.total_in() == i && d.total_out() == o {
                    return None;
                }
            }
        }
    }
}

fn crc32(x: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in x {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

fn adler(x: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in x {
        a = (a + *c as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

/// reads one member as RFC 1952 describes it
fn ungzip_ref(x: &[u8]) -> Option<(Vec<u8>, usize)> {
    if x.len() < 18 || x[0] != 0x1f || x[1] != 0x8b || x[2] != 8 || x[3] & 0xe0 != 0 {
        return None;
    }
    let flg = x[3];
    let mut at = 10;
    if flg & 4 != 0 {
        let n = *x.get(at)? as usize | (*x.get(at + 1)? as usize) << 8;
        at += 2 + n;
    }
    for bit in [8, 16] {
        if flg & bit != 0 {
            while *x.get(at)? != 0 {
                at += 1
            }
            at += 1;
        }
    }
    if flg & 2 != 0 {
        at += 2;
    }
    let (out, used) = inflate(x.get(at..)?, false)?;
    let t = x.get(at + used..at + used + 8)?;
    let crc = u32::from_le_bytes([t[0], t[1], t[2], t[3]]);
    let len = u32::from_le_bytes([t[4], t[5], t[6], t[7]]);
    if crc != crc32(&out) || len != out.len() as u32 {
        return None;
    }
    Some((out, at + used + 8))
}

fn unzlib_ref(x: &[u8]) -> Option<(Vec<u8>, usize)> {
    if x.len() < 6 || x[0] & 15 != 8 || x[0] >> 4 > 7 || ((x[0] as u32) << 8 | x[1] as u32) % 31 != 0 || x[1] & 32 != 0 {
        return None;
    }
    let (out, used) = inflate(&x[2..], false)?;
    let t = x.get(2 + used..6 + used)?;
    if u32::from_be_bytes([t[0], t[1], t[2], t[3]]) != adler(&out) {
        return None;
    }
    Some((out, 6 + used))
}

fn reference(c: Codec, x: &[u8]) -> Option<(Vec<u8>, usize)> {
    match c {
        Codec::Gzip => ungzip_ref(x),
        Codec::Zlib => unzlib_ref(x),
        Codec::Deflate => inflate(x, false),
    }
}

pub fn content(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => rng.range(1, 3),
        2..=5 => rng.range(1, 300),
        6 => *rng.pick(&[32767, 32768, 32769, 65535, 65536, 8191, 8192, 8193, 4096, 258, 259, 1024]),
        7 => rng.range(0, max),
        _ => rng.range(0, 4000),
    };
    let n = n.min(max);
    match rng.below(5) {
        // far repetition: distances up to and beyond the window
        0 if n > 600 => {
            let k = rng.range(300, n / 2);
            let unit = rng.bytes(k);
            unit.iter().cycle().take(n).cloned().collect()
        }
        _ => rng.blob(n),
    }
}

fn damage(rng: &mut Rng, x: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = x.to_vec();
    let kind = match rng.below(7) {
        0 | 1 => {
            v.truncate(rng.below(x.len().max(1)));
            return (v, "truncated");
        }
        2 => {
            let n = rng.range(1, 20);
            v.extend(rng.bytes(n));
            return (v, "trailing");
        }
        3 | 4 => {
            for _ in 0..rng.range(1, 3) {
                if !v.is_empty() {
                    let (i, b) = (rng.below(v.len()), rng.below(8));
                    v[i] ^= 1 << b;
                }
            }
            "bit flips"
        }
        5 => {
            if !v.is_empty() {
                let i = rng.below(v.len());
                let n = rng.range(1, 8).min(v.len() - i);
                let r = rng.bytes(n);
                v[i..i + n].copy_from_slice(&r);
            }
            "overwritten"
        }
        _ => {
            let i = rng.below(v.len() + 1);
            if rng.chance(1, 2) {
                let n = rng.range(1, 6);
                let r = rng.bytes(n);
                v.splice(i..i, r);
            } else {
                let j = (i + rng.range(1, 6)).min(v.len());
                v.drain(i..j);
            }
            "shifted"
        }
    };
    (v, kind)
}

fn compression_case(rep: &Report, case: u64, rng: &mut Rng) {
    let c = *rng.pick(&[Codec::Gzip, Codec::Zlib, Codec::Deflate]);
    let x = content(rng, if rep.opts.thorough { 3_000_000 } else { 400_000 });
    let level = rng.below(13) as u32;
    rep.distinct_hash(crate::rng::hash_bytes(&x) ^ (level as u64) << 3 ^ c as u64);
    rep.count(&format!("{:?} round trips", c), 1);
    let fail = |what: String| rep.violation(case, what, json!({"codec": format!("{:?}", c), "level": level, "length": x.len(), "head": show(&x[..x.len().min(60)])}));
    let e = match enc(c, &x, level) {
        Ok(e) => e,
        Err(p) => return fail(format!("encoding {:?} level {} of {} bytes: {}", c, level, x.len(), p)),
    };
    match reference(c, &e) {
        Some((y, used)) if y == x && used == e.len() => {}
        r => return fail(format!("the {:?} encoding (level {}) of {} bytes is not the standard format: an independent decoder gets {:?}", c, level, x.len(),
                                 r.map(|r| (r.0.len(), r.1, e.len())))),
    }
    match dec(c, &e) {
        Ok(y) if y == x => {}
        Ok(y) => return fail(format!("decoding the {:?} encoding (level {}) of {} bytes gave {} other bytes", c, level, x.len(), y.len())),
        Err(p) => return fail(format!("decoding the {:?} encoding (level {}) of {} bytes: {}", c, level, x.len(), p.unwrap_or("refused".into()))),
    }
    for _ in 0..rng.range(1, 12) {
        let (bad, kind) = damage(rng, &e);
        rep.count(&format!("{:?} {}", c, kind), 1);
        let got = dec(c, &bad);
        if let Err(Some(p)) = &got {
            return fail(format!("{:?} decoder on {} input: {}", c, kind, p));
        }
        if bad == e {
            continue;
        }
        let want = reference(c, &bad);
        let wrong = match (&got, &want) {
            // bytes after the end of the stream may be an error or be left unread
            (_, Some((_, used))) if got.is_err() && *used < bad.len() => false,
            (Ok(y), Some((z, _))) => y != z,
            (Ok(_), None) => true,
            // optional parts of the header may be verified or not
            (Err(None), Some(_)) => c == Codec::Deflate || kind == "truncated",
            (Err(_), _) => false,
        };
        if wrong {
            return fail(format!("{:?} decoder on {} input ({} of {} bytes): got {:?} bytes, an independent decoder {:?}", c, kind, bad.len(), e.len(),
                                got.ok().map(|y| y.len()), want.map(|z| z.0.len())));
        }
    }
    rep.sample(|| json!({"codec": format!("{:?}", c), "level": level, "bytes": x.len(), "encoded": e.len()}));
}

fn garbage_case(rep: &Report, case: u64, rng: &mut Rng) {
    let n = rng.size(4000);
    let mut x = rng.blob(n);
    if rng.chance(1, 2) {
        let head: &[u8] = rng.pick(&[&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3][..], &[0x1f, 0x8b, 8, 31, 0, 0, 0, 0, 0, 3], &[0x78, 0x9c], &[0x78, 0xda], &[0x78, 1], &[0x1f, 0x8b], &[5, 0x80]]);
        x.splice(0..0, head.iter().cloned());
    }
    rep.distinct(&x);
    for c in [Codec::Gzip, Codec::Zlib, Codec::Deflate] {
        rep.count("garbage", 1);
        let got = dec(c, &x);
        let want = reference(c, &x);
        match (got, want) {
            (Err(Some(p)), _) => rep.violation(case, format!("{:?} decoder on arbitrary bytes {}: {}", c, show(&x), p), json!({})),
            (Ok(y), Some((z, _))) if y == z => {}
            (Ok(y), z) => rep.violation(case, format!("{:?} decoder took arbitrary bytes {} for an encoding of {} bytes; an independent decoder: {:?}", c, show(&x), y.len(), z.map(|z| z.0.len())), json!({})),
            _ => {}
        }
    }
}

fn base64_case(rep: &Report, case: u64, rng: &mut Rng) {
    let x = content(rng, 100_000);
    let fail = |what: String| rep.violation(case, what, json!({"length": x.len(), "head": show(&x[..x.len().min(60)])}));
    let want = b64(&x);
    rep.count("base64 round trips", 1);
    rep.distinct(&x);
    let got = guarded(|| (Base64::encode(x.as_slice()), Base64::encode(x.clone())));
    match &got {
        Ok((a, b)) if *a == want && *b == want => {}
        _ => return fail(format!("base64 encoding of {} bytes: {:?}", x.len(), got.map(|g| crate::report::clip(&g.0, 80)))),
    }
    let back = |s: &str| guarded(|| {
        let a = Base64::decode(s).ok();
        let b = Base64::decode(s.to_string()).ok();
        (a, b)
    });
    match back(&want) {
        Ok((a, b)) if a.as_deref() == Some(&x[..]) && b == a => {}
        r => return fail(format!("base64 decoding of the encoding of {} bytes: {:?}", x.len(), r.map(|r| r.0.map(|v| v.len())))),
    }
    for _ in 0..rng.range(1, 10) {
        let mut c: Vec<char> = want.chars().take(400).collect();
        for _ in 0..rng.range(1, 2) {
            let at = rng.below(c.len() + 1);
            match rng.below(7) {
                0 => c.insert(at, *rng.pick(&['=', '-', '_', ' ', '\n', '\r', '\0', '!', 'é', 'A', '%', '\u{3000}', '\u{7f}', '@', '[', '`', '{', '/', ':'])),
                1 if !c.is_empty() => {
                    c.remove(at.min(c.len() - 1));
                }
                2 => c.truncate(at),
                3 | 4 if !c.is_empty() => {
                    let i = at.min(c.len() - 1);
                    c[i] = *rng.pick(&['=', '-', '_', ' ', '\n', '!', '\u{80}', 'B', '/', '+', '.', ',', '\u{100}'])
                }
                5 => c.push(*rng.pick(&['=', '-', '\n', ' ', 'A'])),
                _ => {
                    while c.last() == Some(&'=') {
                        c.pop();
                    }
                }
            }
        }
        let s: String = c.into_iter().collect();
        rep.count("base64 damaged", 1);
        let (a, b) = match back(&s) {
            Ok(r) => r,
            Err(p) => return fail(format!("base64 decoder on {:?}: {}", crate::report::clip(&s, 100), p)),
        };
        if a != b {
            return fail(format!("base64 decoding of {:?} differs between &str and String", s));
        }
        let trimmed = s.trim();
        match (a, unb64(&s), unb64(trimmed)) {
            // canonical or not, only these bytes can be meant
            (Some(y), _, Some(z)) if y == z => {}
            (Some(y), _, z) => return fail(format!("base64 decoding of {:?} gave {}, expected {:?}", s, show(&y), z.map(|z| show(&z)))),
            (None, Some(z), _) if b64(&z) == s => return fail(format!("base64 text {:?} is refused", s)),
            (None, _, _) => {}
        }
    }
}

fn hex_case(rep: &Report, case: u64, rng: &mut Rng) {
    let x = content(rng, 20_000);
    let fail = |what: String| rep.violation(case, what, json!({"length": x.len(), "head": show(&x[..x.len().min(60)])}));
    let want: String = x.iter().map(|b| format!("{:02x}", b)).collect();
    rep.count("hex round trips", 1);
    rep.distinct(&x);
    let got = guarded(|| {
        let t = std::str::from_utf8(&x).ok().map(|s| Hex::encode(s));
        (Hex::encode(x.as_slice()), Hex::encode(x.clone()), t)
    });
    match &got {
        Ok((a, b, t)) if *a == want && *b == want && t.as_ref().map(|t| *t == want).unwrap_or(true) => {}
        _ => return fail(format!("hex encoding of {} bytes: {:?}", x.len(), got.map(|g| crate::report::clip(&g.0, 80)))),
    }
    let back = |s: &str| guarded(|| (Hex::decode(s).ok(), Hex::decode(s.to_string()).ok()));
    let mixed: String = want.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
    for s in [&want, &mixed, &want.to_uppercase()] {
        match back(s) {
            Ok((a, b)) if a.as_deref() == Some(&x[..]) && b == a => {}
            r => return fail(format!("hex decoding of the encoding of {} bytes: {:?}", x.len(), r.map(|r| r.0.map(|v| v.len())))),
        }
    }
    for _ in 0..rng.range(1, 6) {
        let mut c: Vec<char> = mixed.chars().take(200).collect();
        let at = rng.below(c.len() + 1);
        match rng.below(3) {
            0 => c.insert(at, *rng.pick(&['g', 'x', ' ', '\n', '0', 'é', '\0', 'G', '`', '@', ':', '/'])),
            1 if !c.is_empty() => {
                c.remove(at.min(c.len() - 1));
            }
            _ if !c.is_empty() => {
                let i = at.min(c.len() - 1);
                c[i] = *rng.pick(&['g', '-', 'z', 'O', ' ', 'é', '`', 'G', '\u{130}'])
            }
            _ => c.push('0'),
        }
        let s: String = c.into_iter().collect();
        rep.count("hex damaged", 1);
        let valid = s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit());
        let want = valid.then(|| s.as_bytes().chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect::<Vec<u8>>());
        match back(&s) {
            Ok((a, b)) if a == want && a == b => {}
            Ok((a, _)) => return fail(format!("hex decoding of {:?} gave {:?}, expected {:?}", s, a, want)),
            Err(p) => return fail(format!("hex decoder on {:?}: {}", s, p)),
        }
    }
}

/// data of many megabytes, in both ratios: nothing is cut off at some buffer or limit
fn large_case(rep: &Report, case: u64, rng: &mut Rng) {
    let c = [Codec::Gzip, Codec::Zlib, Codec::Deflate][case as usize % 3];
    let n = rng.range(9 << 20, 20 << 20);
    let x = if case % 2 == 0 {
        vec![rng.below(256) as u8; n]
    } else {
        let unit = rng.bytes(70_001);
        unit.iter().cycle().take(n).cloned().collect::<Vec<u8>>()
    };
    let level = rng.range(1, 3) as u32;
    rep.eval();
    rep.count("round trips of 9 to 20 MiB", 1);
    rep.distinct(format!("{:?} {} {}", c, n, level).as_bytes());
    let detail = || json!({"codec": format!("{:?}", c), "bytes": n, "level": level});
    let z = match enc(c, &x, level) {
        Ok(z) => z,
        Err(e) => return rep.violation(case, format!("compressing {} bytes: {}", n, e), detail()),
    };
    match dec(c, &z) {
        Ok(y) if y == x => {}
        Ok(y) => rep.violation(case, format!("{} bytes come back as {} bytes, first difference at {:?}", n, y.len(), x.iter().zip(&y).position(|(a, b)| a != b)), detail()),
        Err(e) => rep.violation(case, format!("{} bytes do not decompress: {:?}", n, e), detail()),
    }
}

/// base64 and hex of some megabytes
fn large_text_case(rep: &Report, case: u64, rng: &mut Rng) {
    let n = rng.range(2 << 20, 5 << 20);
    let x = rng.bytes(n);
    rep.count("base64 and hex of 2 to 5 MiB", 1);
    rep.distinct(format!("text {}", n).as_bytes());
    let bad = |what: &str| rep.violation(case, format!("{} of {} bytes", what, n), json!({}));
    match guarded(|| Base64::encode(x.as_slice())) {
        Ok(s) if s == b64(&x) => match guarded(|| Base64::decode(s.as_str()).ok()) {
            Ok(Some(y)) if y == x => {}
            _ => return bad("base64 decoding of the encoding"),
        },
        _ => return bad("base64 encoding"),
    }
    match guarded(|| Hex::encode(x.as_slice())) {
        Ok(s) if s.len() == 2 * n && s.bytes().zip(x.iter().flat_map(|b| [b >> 4, b & 15])).all(|(c, d)| c == b"0123456789abcdef"[d as usize]) => {
            match guarded(|| Hex::decode(s).ok()) {
                Ok(Some(y)) if y == x => {}
                _ => bad("hex decoding of the encoding"),
            }
        }
        _ => bad("hex encoding"),
    }
}

pub fn c18(rep: &'static Report) {
    run_cases(rep, 1, u64::MAX, |rep, case, rng| match rng.below(10) {
        _ if case < rep.opts.shards as u64 => large_case(rep, case, rng),
        _ if case < 2 * rep.opts.shards as u64 => large_text_case(rep, case, rng),
        0..=4 => compression_case(rep, case, rng),
        5 => garbage_case(rep, case, rng),
        6 | 7 => base64_case(rep, case, rng),
        _ => hex_case(rep, case, rng),
    });
}

/// Line protocol for drivers that bring their own reference (or run this process under a memory checker):
/// `op level hex` per line of the file, one line `ok hex`, `err` or `panic text` each on stdout.
pub fn serve(file: &str) {
    let hexed = |x: &[u8]| x.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let mut out = String::new();
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let p: Vec<&str> = line.split(' ').collect();
        let level: u32 = p[1].parse().unwrap();
        let x: Vec<u8> = p.get(2).unwrap_or(&"").as_bytes().chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect();
        let text = String::from_utf8_lossy(&x).to_string();
        let r: Result<Option<Vec<u8>>, String> = match p[0] {
            "gzip" => enc(Codec::Gzip, &x, level).map(Some),
            "zlib" => enc(Codec::Zlib, &x, level).map(Some),
            "deflate" => enc(Codec::Deflate, &x, level).map(Some),
            "ungzip" | "unzlib" | "undeflate" => {
                let c = match p[0] {
                    "ungzip" => Codec::Gzip,
                    "unzlib" => Codec::Zlib,
                    _ => Codec::Deflate,
                };
                match dec(c, &x) {
                    Ok(v) => Ok(Some(v)),
                    Err(None) => Ok(None),
                    Err(Some(p)) => Err(p),
                }
            }
            "b64" => guarded(|| Some(Base64::encode(x.as_slice()).into_bytes())),
            "unb64" => guarded(|| Base64::decode(text.as_str()).ok()),
            "hex" => guarded(|| Some(Hex::encode(x.as_slice()).into_bytes())),
            "unhex" => guarded(|| Hex::decode(text.as_str()).ok()),
            other => panic!("harness/src: unknown operation {}", other),
        };
        out.push_str(&match r {
            Ok(Some(v)) => format!("ok {}\n", hexed(&v)),
            Ok(None) => "err\n".to_string(),
            Err(p) => format!("panic {}\n", p.replace('\n', " ")),
        });
    }
    print!("{}", out);
}
