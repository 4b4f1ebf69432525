//! C17 (containers) and C21 (protocol tokens): the public API against reference models.

use std::collections::{BTreeMap, HashMap};

use serde_json::json;
use starry::header::{AcceptEncoding, ContentType};
use starry::{Inner, Method, MultipartValues, Response, Status, Values, Version};

use crate::report::{guarded, run_cases, Report};
use crate::rng::Rng;

// ---------------------------------------------------------------- C17

const KEYCH: &[char] = &['a', 'A', 'b', 'é', '=', '\0', ' ', '日'];

fn keys(rng: &mut Rng) -> Vec<String> {
    let mut v = vec!["a".to_string(), "A".into(), "".into(), "a ".into(), "Host".into(), "host".into()];
    for _ in 0..rng.range(0, 12) {
        v.push(rng.string(KEYCH, 0, 4));
    }
    v.sort();
    v.dedup();
    rng.shuffle(&mut v);
    v.truncate(rng.range(1, 9).min(v.len()));
    if rng.chance(1, 12) {
        // a large container
        v.extend((0..rng.range(50, 600)).map(|i| format!("key-{}", i)));
    }
    v
}

fn text(rng: &mut Rng) -> String {
    if rng.chance(1, 12) {
        "x".repeat(rng.size(5000))
    } else {
        let s = rng.string(&['x', 'y', 'Z', '0', 'é', '\n', ';', ','], 0, 6);
        if rng.chance(1, 8) { rng.spice(&s) } else { s }
    }
}

fn values_history(rep: &Report, case: u64, rng: &mut Rng) {
    let ks = keys(rng);
    let mut pairs = vec![(Values::new(), BTreeMap::<String, Vec<String>>::new())];
    let mut log: Vec<String> = vec![];
    let steps = if ks.len() > 40 { rng.range(300, 1200) } else { rng.range(5, 120) };
    for _ in 0..steps {
        let at = rng.below(pairs.len());
        let k = rng.pick(&ks).clone();
        let v = text(rng);
        let mut bad = None;
        let op = rng.below(20);
        if op == 19 && pairs.len() < 4 {
            // copies are independent
            let c = (pairs[at].0.clone(), pairs[at].1.clone());
            pairs.push(c);
            log.push(format!("clone #{}", at));
        }
        let (real, model) = &mut pairs[at];
        match op {
            0 | 1 => {
                log.push(format!("#{} set({:?}, {} chars)", at, k, v.len()));
                real.set(k.clone(), v.clone());
                model.insert(k.clone(), vec![v]);
            }
            2 => {
                log.push(format!("#{} set_str({:?})", at, k));
                real.set_str(&k, &v);
                model.insert(k.clone(), vec![v]);
            }
            3..=7 => {
                log.push(format!("#{} add({:?})", at, k));
                real.add(k.clone(), v.clone());
                model.entry(k.clone()).or_default().push(v);
            }
            8 | 9 => {
                log.push(format!("#{} add_str({:?})", at, k));
                real.add_str(&k, &v);
                model.entry(k.clone()).or_default().push(v);
            }
            10..=12 => {
                log.push(format!("#{} del({:?})", at, k));
                let got = if rng.chance(1, 2) { real.del(k.as_str()) } else { real.del(&k) };
                let want = model.remove(&k).map(|l| l[0].clone());
                if got != want {
                    bad = Some(format!("del({:?}) returned {:?}, expected {:?}", k, got, want));
                }
            }
            _ => {}
        }
        rep.count("operations", 1);
        let ask = rng.pick(&ks).clone();
        for (i, (real, model)) in pairs.iter().enumerate() {
            if i != at && !rng.chance(1, 4) {
                continue;
            }
            for q in [&k, &ask] {
                let want = model.get(q);
                let get = if rng.chance(1, 2) { real.get(q.as_str()) } else { real.get(q) };
                if get != want.map(|l| l[0].clone()) {
                    bad = Some(format!("#{} get({:?}) = {:?}, expected {:?}", i, q, get, want.map(|l| &l[0])));
                }
                let vec = if rng.chance(1, 2) { real.vec(q.as_str()) } else { real.vec(q) };
                if vec.as_ref() != want {
                    bad = Some(format!("#{} vec({:?}) = {:?}, expected {:?}", i, q, vec, want));
                }
                let has = if rng.chance(1, 2) { real.contain(q.as_str()) } else { real.contain(q) };
                if has != want.is_some() {
                    bad = Some(format!("#{} contain({:?}) = {}", i, q, has));
                }
            }
            if real.len() != model.len() {
                bad = Some(format!("#{} len() = {}, expected {}", i, real.len(), model.len()));
            }
            if rng.chance(1, if ks.len() > 40 { 60 } else { 3 }) {
                let want: HashMap<String, Vec<String>> = model.clone().into_iter().collect();
                if real.map() != want {
                    bad = Some(format!("#{} map() = {:?}, expected {:?}", i, real.map(), want));
                }
            }
            rep.count("observations", 8);
        }
        if let Some(b) = bad {
            rep.violation(case, format!("Values: {}", b), json!({"keys": ks, "history": log.iter().rev().take(200).rev().collect::<Vec<_>>()}));
            return;
        }
    }
    rep.distinct(format!("v{:?}{:?}", ks, log).as_bytes());
    rep.sample(|| json!({"container": "Values", "keys": ks, "history": log.iter().take(12).collect::<Vec<_>>()}));
}

type File = (String, usize, Vec<u8>);

/// the type of an entry has no public name
macro_rules! plain {
    ($f:expr) => {
        $f.as_ref().map(|f| -> File { (f.filename(), f.size(), f.content()) })
    };
}

fn multipart_history(rep: &Report, case: u64, rng: &mut Rng) {
    let ks = keys(rng);
    let mut pairs = vec![(MultipartValues::new(), BTreeMap::<String, File>::new())];
    let mut log: Vec<String> = vec![];
    let steps = if ks.len() > 40 { rng.range(100, 300) } else { rng.range(5, 80) };
    for _ in 0..steps {
        let at = rng.below(pairs.len());
        let k = rng.pick(&ks).clone();
        let mut bad = None;
        let op = rng.below(12);
        if op == 11 && pairs.len() < 4 {
            let c = (pairs[at].0.clone(), pairs[at].1.clone());
            pairs.push(c);
            log.push(format!("clone #{}", at));
        }
        let (real, model) = &mut pairs[at];
        match op {
            0..=5 => {
                let filename = text(rng);
                let content = { let n = rng.size(3000); rng.blob(n) };
                log.push(format!("#{} insert({:?}, {:?}, {} bytes)", at, k, crate::report::clip(&filename, 20), content.len()));
                let got = real.insert_obj(k.clone(), filename.clone(), content.clone(), ContentType::TEXT_PLAIN);
                let want = model.insert(k.clone(), (filename, content.len(), content));
                if plain!(got) != want {
                    bad = Some(format!("insert_obj({:?}) returned {:?}, expected {:?}", k, got, want));
                }
            }
            6 => {
                // an entry taken out of one map and put into another under another key
                let from = rng.pick(&ks).clone();
                if let Some(f) = real.get(from.as_str()) {
                    log.push(format!("#{} insert({:?}, get({:?}))", at, k, from));
                    let m = model[&from].clone();
                    let got = real.insert(k.clone(), f);
                    let want = model.insert(k.clone(), m);
                    if plain!(got) != want {
                        bad = Some(format!("insert({:?}) returned {:?}, expected {:?}", k, got, want));
                    }
                }
            }
            7 | 8 => {
                log.push(format!("#{} del({:?})", at, k));
                let got = if rng.chance(1, 2) { real.del(k.as_str()) } else { real.del(&k) };
                let want = model.remove(&k);
                if plain!(got) != want {
                    bad = Some(format!("del({:?}) returned {:?}, expected {:?}", k, got, want));
                }
            }
            _ => {}
        }
        rep.count("operations", 1);
        let ask = rng.pick(&ks).clone();
        for (i, (real, model)) in pairs.iter().enumerate() {
            if i != at && !rng.chance(1, 4) {
                continue;
            }
            for q in [&k, &ask] {
                let want = model.get(q);
                let get = if rng.chance(1, 2) { real.get(q.as_str()) } else { real.get(q) };
                if plain!(get).as_ref() != want {
                    bad = Some(format!("#{} get({:?}) = {:?}, expected {:?}", i, q, get, want));
                }
                let has = if rng.chance(1, 2) { real.have(q.as_str()) } else { real.have(q) };
                if has != want.is_some() {
                    bad = Some(format!("#{} have({:?}) = {}", i, q, has));
                }
            }
            if real.len() != model.len() {
                bad = Some(format!("#{} len() = {}, expected {}", i, real.len(), model.len()));
            }
            if rng.chance(1, if ks.len() > 40 { 60 } else { 3 }) {
                let got: BTreeMap<String, File> = real.map().iter().map(|(k, f)| (k.clone(), (f.filename(), f.size(), f.content()))).collect();
                if &got != model {
                    bad = Some(format!("#{} map() = {:?}, expected {:?}", i, got, model));
                }
            }
            rep.count("observations", 6);
        }
        if let Some(b) = bad {
            rep.violation(case, crate::report::clip(&format!("MultipartValues: {}", b), 1500), json!({"keys": ks, "history": log.iter().rev().take(200).rev().collect::<Vec<_>>()}));
            return;
        }
    }
    rep.distinct(format!("m{:?}{:?}", ks, log).as_bytes());
}

pub fn c17(rep: &'static Report) {
    run_cases(rep, 2, u64::MAX, |rep, case, rng| {
        if case < rep.opts.shards as u64 {
            // one key with very many values: each addition must not cost what all earlier ones did
            let n = rng.range(100_000, 200_000);
            let mut v = Values::new();
            for i in 0..n {
                v.add("k".into(), i.to_string());
                if i % 1000 == 0 {
                    v.add_str("other", "x")
                }
            }
            rep.eval();
            rep.count("keys with 100000 values and more", 1);
            rep.distinct(format!("many {}", n).as_bytes());
            let got = v.vec("k").unwrap_or_default();
            if got.len() != n || got.iter().enumerate().any(|(i, s)| *s != i.to_string()) || v.get("k") != Some("0".to_string()) {
                rep.violation(case, format!("{} values added to one key, {} are there", n, got.len()), json!({}))
            }
        } else if rng.chance(3, 5) {
            values_history(rep, case, rng)
        } else {
            multipart_history(rep, case, rng)
        }
    });
}

// ---------------------------------------------------------------- C21

/// token, constant, safe, idempotent, cacheable (RFC 9110 9.2, RFC 5789); None: not defined there
fn methods() -> Vec<(&'static str, Method, Option<(bool, bool, bool)>)> {
    vec![
        ("OPTIONS", Method::OPTIONS, Some((true, true, false))),
        ("GET", Method::GET, Some((true, true, true))),
        ("HEAD", Method::HEAD, Some((true, true, true))),
        ("POST", Method::POST, Some((false, false, true))),
        ("PUT", Method::PUT, Some((false, true, false))),
        ("DELETE", Method::DELETE, Some((false, true, false))),
        ("TRACE", Method::TRACE, Some((true, true, false))),
        ("CONNECT", Method::CONNECT, Some((false, false, false))),
        ("PATCH", Method::PATCH, Some((false, false, false))),
        ("LINK", Method::LINK, None),
        ("UNLINK", Method::UNLINK, None),
        ("PRI", Method::PRI, None),
    ]
}

/// registered codes and phrases (IANA, as of the RFCs the crate names); several when a later RFC renamed one
const STATUS: &[(u16, &[&str])] = &[
    (100, &["Continue"]), (101, &["Switching Protocols"]), (102, &["Processing"]),
    (200, &["OK"]), (201, &["Created"]), (202, &["Accepted"]), (203, &["Non-Authoritative Information"]), (204, &["No Content"]),
    (205, &["Reset Content"]), (206, &["Partial Content"]), (207, &["Multi-Status"]), (208, &["Already Reported"]), (226, &["IM Used"]),
    (300, &["Multiple Choices"]), (301, &["Moved Permanently"]), (302, &["Found"]), (303, &["See Other"]), (304, &["Not Modified"]),
    (305, &["Use Proxy"]), (307, &["Temporary Redirect"]), (308, &["Permanent Redirect"]),
    (400, &["Bad Request"]), (401, &["Unauthorized"]), (402, &["Payment Required"]), (403, &["Forbidden"]), (404, &["Not Found"]),
    (405, &["Method Not Allowed"]), (406, &["Not Acceptable"]), (407, &["Proxy Authentication Required"]), (408, &["Request Timeout"]),
    (409, &["Conflict"]), (410, &["Gone"]), (411, &["Length Required"]), (412, &["Precondition Failed"]),
    (413, &["Payload Too Large", "Content Too Large"]), (414, &["URI Too Long"]), (415, &["Unsupported Media Type"]),
    (416, &["Range Not Satisfiable"]), (417, &["Expectation Failed"]), (418, &["I'm a teapot"]), (421, &["Misdirected Request"]),
    (422, &["Unprocessable Entity", "Unprocessable Content"]), (423, &["Locked"]), (424, &["Failed Dependency"]),
    (426, &["Upgrade Required"]), (428, &["Precondition Required"]), (429, &["Too Many Requests"]),
    (431, &["Request Header Fields Too Large"]), (451, &["Unavailable For Legal Reasons"]),
    (500, &["Internal Server Error"]), (501, &["Not Implemented"]), (502, &["Bad Gateway"]), (503, &["Service Unavailable"]),
    (504, &["Gateway Timeout"]), (505, &["HTTP Version Not Supported"]), (506, &["Variant Also Negotiates"]),
    (507, &["Insufficient Storage"]), (508, &["Loop Detected"]), (510, &["Not Extended"]), (511, &["Network Authentication Required"]),
];

/// codes registered later or only provisionally: either answer is fine
const OPEN: &[u16] = &[103, 104, 306, 425];

fn constants() -> Vec<(u16, Status)> {
    vec![
        (100, Status::CONTINUE), (101, Status::SWITCHING_PROTOCOLS), (102, Status::PROCESSING), (200, Status::OK), (201, Status::CREATED),
        (202, Status::ACCEPTED), (203, Status::NON_AUTHORITATIVE_INFORMATION), (204, Status::NO_CONTENT), (205, Status::RESET_CONTENT),
        (206, Status::PARTIAL_CONTENT), (207, Status::MULTI_STATUS), (208, Status::ALREADY_REPORTED), (226, Status::IM_USED),
        (300, Status::MULTIPLE_CHOICES), (301, Status::MOVED_PERMANENTLY), (302, Status::FOUND), (303, Status::SEE_OTHER),
        (304, Status::NOT_MODIFIED), (305, Status::USE_PROXY), (307, Status::TEMPORARY_REDIRECT), (308, Status::PERMANENT_REDIRECT),
        (400, Status::BAD_REQUEST), (401, Status::UNAUTHORIZED), (402, Status::PAYMENT_REQUIRED), (403, Status::FORBIDDEN),
        (404, Status::NOT_FOUND), (405, Status::METHOD_NOT_ALLOWED), (406, Status::NOT_ACCEPTABLE), (407, Status::PROXY_AUTHENTICATION_REQUIRED),
        (408, Status::REQUEST_TIMEOUT), (409, Status::CONFLICT), (410, Status::GONE), (411, Status::LENGTH_REQUIRED),
        (412, Status::PRECONDITION_FAILED), (413, Status::PAYLOAD_TOO_LARGE), (414, Status::URI_TOO_LONG), (415, Status::UNSUPPORTED_MEDIA_TYPE),
        (416, Status::RANGE_NOT_SATISFIABLE), (417, Status::EXPECTATION_FAILED), (418, Status::IM_A_TEAPOT), (421, Status::MISDIRECTED_REQUEST),
        (422, Status::UNPROCESSABLE_ENTITY), (423, Status::LOCKED), (424, Status::FAILED_DEPENDENCY), (426, Status::UPGRADE_REQUIRED),
        (428, Status::PRECONDITION_REQUIRED), (429, Status::TOO_MANY_REQUESTS), (431, Status::REQUEST_HEADER_FIELDS_TOO_LARGE),
        (451, Status::UNAVAILABLE_FOR_LEGAL_REASONS), (500, Status::INTERNAL_SERVER_ERROR), (501, Status::NOT_IMPLEMENTED),
        (502, Status::BAD_GATEWAY), (503, Status::SERVICE_UNAVAILABLE), (504, Status::GATEWAY_TIMEOUT), (505, Status::HTTP_VERSION_NOT_SUPPORTED),
        (506, Status::VARIANT_ALSO_NEGOTIATES), (507, Status::INSUFFICIENT_STORAGE), (508, Status::LOOP_DETECTED), (510, Status::NOT_EXTENDED),
        (511, Status::NETWORK_AUTHENTICATION_REQUIRED),
    ]
}

fn media() -> Vec<(&'static str, ContentType)> {
    vec![
        ("text/html", ContentType::TEXT_HTML), ("text/plain", ContentType::TEXT_PLAIN), ("text/xml", ContentType::TEXT_XML),
        ("image/gif", ContentType::IMAGE_GIF), ("image/jpeg", ContentType::IMAGE_JPEG), ("image/png", ContentType::IMAGE_PNG),
        ("application/xhtml+xml", ContentType::APPLICATION_XHTML_XML), ("application/xml", ContentType::APPLICATION_XML),
        ("application/atom+xml", ContentType::APPLICATION_ATOM_XML), ("application/json", ContentType::APPLICATION_JSON),
        ("application/pdf", ContentType::APPLICATION_PDF), ("application/msword", ContentType::APPLICATION_MS_WORD),
        ("application/octet-stream", ContentType::APPLICATION_OCTET_STREAM),
        ("application/x-www-form-urlencoded", ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED),
    ]
}

/// every comparison of a token with another and with its text gives the same answer
macro_rules! compare {
    ($x:expr, $y:expr, $text:expr) => {{
        let (x, y, text): (_, _, &str) = ($x, $y, $text);
        [*x == *y, *x == y, x == *y, *x == *text, *text == *x, *x == text, text == *x, x == y, !(*x != *y), !(*x != text), !(text != *x)]
    }};
}

fn tables(rep: &Report, case: u64) {
    let bad = |what: String| rep.violation(case, what, json!({}));
    let finding = |what: String| rep.finding(case, what, json!({}));
    let ms = methods();
    for (i, (text, m, class)) in ms.iter().enumerate() {
        if m.as_str() != *text || m.to_string() != *text || format!("{:?}", m) != *text || m.as_ref() != *text {
            bad(format!("method {} prints as {:?} / {:?}", text, m.as_str(), m.to_string()));
        }
        for (j, (other, n, _)) in ms.iter().enumerate() {
            let same = i == j;
            let o: &str = other;
            if compare!(m, n, o).iter().any(|c| *c != same) {
                bad(format!("method {} compared with {} is wrong", text, other));
            }
        }
        if let Some((safe, idem, cache)) = class {
            if m.is_safe() != *safe {
                bad(format!("method {} is_safe() is {}", text, m.is_safe()));
            }
            if m.is_idempotent() != *idem {
                if case == 0 { finding(format!("method {} is_idempotent() is {}", text, m.is_idempotent())) }
            }
            if m.is_cacheable() != *cache {
                bad(format!("method {} is_cacheable() is {}", text, m.is_cacheable()));
            }
        }
        rep.count("method properties", 4);
    }
    let cs = constants();
    for (code, s) in &cs {
        let phrases = STATUS.iter().find(|x| x.0 == *code).unwrap().1;
        if s.code() != *code || !phrases.contains(&s.phrase()) || s.phrase_as_slice() != s.phrase().as_bytes() {
            bad(format!("the status constant of {} carries {} {:?}", code, s.code(), s.phrase()));
        }
        for (c2, s2) in &cs {
            if (s == s2) != (code == c2) || (*s == *c2) != (code == c2) || (*c2 == *s) != (code == c2) {
                bad(format!("status {} compared with {} is wrong", code, c2));
            }
            let p: &str = s2.phrase();
            let owned = p.to_string();
            let mut all = compare!(s, s2, p).to_vec();
            all.extend([*s == owned, owned == *s, *s == *c2, *c2 == *s]);
            if all.iter().any(|c| *c != (code == c2)) {
                bad(format!("status {} compared with {:?} is wrong", code, p));
            }
        }
    }
    for code in 0..=u16::MAX {
        let want = STATUS.iter().find(|x| x.0 == code);
        match (guarded(|| Status::from_code(code)), want) {
            (Err(p), _) => bad(format!("Status::from_code({}): {}", code, p)),
            (Ok(Ok(s)), Some((_, phrases))) => {
                if s.code() != code || !phrases.contains(&s.phrase()) {
                    bad(format!("Status::from_code({}) is {} {:?}", code, s.code(), s.phrase()));
                }
            }
            (Ok(Err(_)), Some(_)) => bad(format!("Status::from_code({}) is rejected", code)),
            (Ok(Ok(s)), None) => {
                if !OPEN.contains(&code) || s.code() != code {
                    bad(format!("Status::from_code({}), not registered, is {} {:?}", code, s.code(), s.phrase()));
                }
            }
            (Ok(Err(_)), None) => {}
        }
        rep.count("status codes", 1);
    }
    for (text, v, major, minor) in [("HTTP/1.0", Version::HTTP_10, 1, 0), ("HTTP/1.1", Version::HTTP_11, 1, 1)] {
        if v.as_ref() != text || v.to_string() != text || v.as_slice() != text.as_bytes() || v.major() != major || v.minor() != minor {
            bad(format!("version {} prints as {:?}, {}.{}", text, v.to_string(), v.major(), v.minor()));
        }
        for (t2, v2) in [("HTTP/1.0", Version::HTTP_10), ("HTTP/1.1", Version::HTTP_11)] {
            if compare!(&v, &v2, t2).iter().any(|c| *c != (text == t2)) || (v.protocol() == v2.protocol()) != (text == t2) {
                bad(format!("version {} compared with {} is wrong", text, t2));
            }
        }
    }
    for (i, (text, t)) in media().iter().enumerate() {
        if t.as_str() != *text || t.as_ref() != *text {
            bad(format!("media type {} prints as {:?}", text, t.as_str()));
        }
        for (j, (other, u)) in media().iter().enumerate() {
            let o: &str = other;
            if compare!(t, u, o).iter().any(|c| *c != (i == j)) {
                bad(format!("media type {} compared with {} is wrong", text, other));
            }
        }
    }
    // ready-made responses
    let made: Vec<(u16, Response)> = vec![(200, Response::success()), (400, Response::bad_request()), (401, Response::unauthorized()), (403, Response::forbidden()),
        (404, Response::not_found()), (405, Response::method_not_allowed()), (406, Response::not_acceptable()), (408, Response::request_timeout()),
        (411, Response::length_required()), (417, Response::expectation_failed()), (505, Response::http_version_not_supported())];
    #[cfg(not(starry_verif))]
    drop(made);
    #[cfg(starry_verif)]
    for (code, mut r) in made.into_iter().chain(cs.iter().map(|(c, s)| (*c, Response::custom(s.clone())))) {
        if r.verif_status() != code || !r.body().is_empty() {
            bad(format!("the ready-made response of {} has status {} and {} body bytes", code, r.verif_status(), r.body().len()));
        }
        rep.count("ready-made responses", 1);
    }
    // content codings
    let codings = [("gzip", AcceptEncoding::GZip), ("deflate", AcceptEncoding::Deflate), ("br", AcceptEncoding::Br), ("zlib", AcceptEncoding::ZLib)];
    for (i, (text, c)) in codings.iter().enumerate() {
        let t: &str = text;
        if c.to_string() != t || AcceptEncoding::from(t) != *c || AcceptEncoding::from(t.to_string()) != *c {
            bad(format!("content coding {} prints as {:?}", text, c.to_string()));
        }
        for (j, (other, d)) in codings.iter().enumerate() {
            let o: &str = other;
            if compare!(c, d, o).iter().any(|c| *c != (i == j)) {
                bad(format!("content coding {} compared with {} is wrong", text, other));
            }
        }
        if AcceptEncoding::from(format!("{}x", text)) != AcceptEncoding::None {
            bad(format!("the unknown content coding {}x is taken for a known one", text));
        }
    }
    rep.distinct(b"tables");
}

fn mutate(rng: &mut Rng, token: &str) -> String {
    let mut c: Vec<char> = token.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let at = rng.below(c.len() + 1);
        match rng.below(8) {
            0 if !c.is_empty() => {
                c.remove(at.min(c.len() - 1));
            }
            1 => c.insert(at, *rng.pick(&['A', 'T', ' ', '\0', '/', '.', '1', '\t', '\r', 'é'])),
            2 => c = c.iter().map(|x| x.to_ascii_lowercase()).collect(),
            3 if !c.is_empty() => {
                let i = at.min(c.len() - 1);
                c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }
            }
            4 if !c.is_empty() => {
                let i = at.min(c.len() - 1);
                c[i] = *rng.pick(&['A', 'B', 'E', 'T', 'S', '0', '2', '3', 'K', '-', ',']);
            }
            5 if c.len() > 1 => {
                let i = at.min(c.len() - 2);
                c.swap(i, i + 1)
            }
            6 => c.truncate(at),
            _ => {
                let d = c.clone();
                c.extend(d)
            }
        }
    }
    c.into_iter().collect()
}

fn method_case(rep: &Report, case: u64, rng: &mut Rng) {
    let ms = methods();
    let src: Vec<u8> = match rng.below(4) {
        0 => ms[rng.below(ms.len())].0.as_bytes().to_vec(),
        1 | 2 => {
            let t = ms[rng.below(ms.len())].0;
            mutate(rng, t).into_bytes()
        }
        _ => {
            let n = rng.range(1, 9);
            if rng.chance(1, 2) { rng.bytes(n) } else { (0..n).map(|_| b"GETPUSOHADLNKCR"[rng.below(15)]).collect() }
        }
    };
    if src.is_empty() {
        return;
    }
    rep.distinct(&[b"m", src.as_slice()].concat());
    rep.count("method texts", 1);
    let want = ms.iter().find(|m| m.0.as_bytes() == src.as_slice());
    let mut got = vec![guarded(|| Method::from_bytes(&src))];
    if let Ok(s) = std::str::from_utf8(&src) {
        got.push(guarded(|| Method::from_str(s)));
        for (t, m, _) in &ms {
            if (m == s) != (*t == s) || (s == m) != (*t == s) {
                rep.violation(case, format!("method {} compared with {:?} is wrong", t, s), json!({}));
            }
        }
    }
    for g in got {
        let show = crate::report::show(&src);
        match (g, want) {
            (Err(p), _) => rep.violation(case, format!("Method::from_bytes({}): {}", show, p), json!({})),
            (Ok(Ok(m)), Some(w)) if m == w.1 && m.as_str() == w.0 => {}
            (Ok(Err(_)), None) => {}
            (Ok(Ok(m)), _) => rep.violation(case, format!("method text {} was taken for {}", show, m), json!({})),
            (Ok(Err(_)), Some(_)) => rep.violation(case, format!("method {} is rejected", show), json!({})),
        }
    }
}

fn version_case(rep: &Report, case: u64, rng: &mut Rng) {
    let s = match rng.below(5) {
        0 => "HTTP/1.0".to_string(),
        1 => "HTTP/1.1".to_string(),
        2 => format!("HTTP/{}.{}", rng.below(12), rng.below(12)),
        _ => {
            let t = *rng.pick(&["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/2"]);
            mutate(rng, t)
        }
    };
    rep.distinct(format!("v{}", s).as_bytes());
    rep.count("version texts", 1);
    let want = match s.as_str() {
        "HTTP/1.0" => Some(Version::HTTP_10),
        "HTTP/1.1" => Some(Version::HTTP_11),
        _ => None,
    };
    // versions of HTTP the crate may come to know are open
    let open = matches!(s.as_str(), "HTTP/2.0" | "HTTP/2" | "HTTP/3" | "HTTP/3.0" | "HTTP/0.9");
    match guarded(|| Version::from_str(&s)) {
        Err(p) => rep.violation(case, format!("Version::from_str({:?}): {}", s, p), json!({})),
        Ok(Ok(v)) => {
            let ok = want.as_ref().map(|w| *w == v).unwrap_or(open) && v.to_string() == s;
            if !ok {
                rep.violation(case, format!("version text {:?} was taken for {}", s, v.to_string()), json!({}))
            }
        }
        Ok(Err(_)) => {
            if want.is_some() {
                rep.violation(case, format!("version {:?} is rejected", s), json!({}))
            }
        }
    }
    for v in [Version::HTTP_10, Version::HTTP_11] {
        if (&v == s.as_str()) != (v.to_string() == s) || (s.as_str() == &v) != (v.to_string() == s) {
            rep.violation(case, format!("version {} compared with {:?} is wrong", v.to_string(), s), json!({}))
        }
    }
}

fn media_case(rep: &Report, case: u64, rng: &mut Rng) {
    let ts = media();
    let (name, t) = rng.pick(&ts).clone();
    let ows = |rng: &mut Rng| rng.pick(&["", " ", "  "]).to_string();
    match rng.below(5) {
        0 | 1 => {
            let mut s = name.to_string();
            if rng.chance(2, 3) {
                s = s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            }
            for _ in 0..rng.below(3) {
                s = format!("{}{};{}{}", s, ows(rng), ows(rng), rng.pick(&["charset=utf-8", "q=0.5", "boundary=xyz", "a=\"b\"", "version=1"]));
            }
            rep.distinct(format!("t{}", s).as_bytes());
            rep.count("media types", 1);
            let got = ContentType::from_str(&s);
            if got != t || got.as_str() != name || got.inner().as_str() != name {
                rep.violation(case, format!("media type {:?} was taken for {}", s, got.as_str()), json!({}));
            }
        }
        2 => {
            const BCH: &[char] = &['a', 'Z', '0', '-', '\'', '(', ')', '+', '_', ',', '.', '/', ':', '=', '?'];
            let b = rng.string(BCH, 1, 60);
            let key: String = "boundary".chars().map(|c| if rng.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
            let mut s = "multipart/form-data".to_string();
            if rng.chance(1, 3) {
                s = s.to_ascii_uppercase();
            }
            if rng.chance(1, 4) {
                s.push_str("; charset=utf-8");
            }
            s.push_str(&if rng.chance(1, 3) { format!(";{}{}=\"{}\"", ows(rng), key, b) } else { format!(";{}{}={}", ows(rng), key, b) });
            if rng.chance(1, 4) {
                s.push_str("; q=1");
            }
            rep.distinct(format!("t{}", s).as_bytes());
            rep.count("media types", 1);
            let got = ContentType::from_str(&s);
            let ok = matches!(got.inner(), Inner::MultipartFormData(x) if x == b) && got.as_str() == "multipart/form-data";
            if !ok || got != ContentType::multipart_form_data_str(&b) || got != ContentType::multipart_form_data(b.clone()) {
                rep.violation(case, format!("multipart type {:?} (boundary {:?}) was taken for {}", s, b, got.as_str()), json!({}));
            }
        }
        3 => {
            let s = mutate(rng, name);
            let base = s.split(';').next().unwrap().trim().to_ascii_lowercase();
            let known = ts.iter().find(|x| x.0 == base);
            rep.distinct(format!("t{}", s).as_bytes());
            rep.count("media types", 1);
            match guarded(|| ContentType::from_str(&s)) {
                Err(p) => rep.violation(case, format!("ContentType::from_str({:?}): {}", s, p), json!({})),
                Ok(got) => {
                    let want = known.map(|x| x.1.clone()).unwrap_or(ContentType::APPLICATION_OCTET_STREAM);
                    if got != want && !base.starts_with("multipart/") {
                        rep.violation(case, format!("media type {:?} was taken for {}", s, got.as_str()), json!({}))
                    }
                }
            }
        }
        _ => {
            let s = { let n = rng.range(1, 30); String::from_utf8_lossy(&rng.blob(n)).to_string() };
            rep.distinct(format!("c{}", s).as_bytes());
            let a = ContentType::custom_str(&s);
            let b = ContentType::custom(s.clone());
            if a.as_str() != s || a != b {
                rep.violation(case, format!("custom media type {:?} prints as {:?}", s, a.as_str()), json!({}));
            }
            if let Err(p) = guarded(|| ContentType::from_str(&s)) {
                rep.violation(case, format!("ContentType::from_str({:?}): {}", s, p), json!({}));
            }
        }
    }
}

pub fn c21(rep: &'static Report) {
    let max = if rep.opts.thorough { 150_000 } else { 12_000 };
    run_cases(rep, 1, max, |rep, case, rng| {
        // the tables are checked whole, once per shard; several findings may come from them
        if case < rep.opts.shards as u64 {
            tables(rep, case);
            return;
        }
        for _ in 0..50 {
            match rng.below(3) {
                0 => method_case(rep, case, rng),
                1 => version_case(rep, case, rng),
                _ => media_case(rep, case, rng),
            }
        }
        rep.sample(|| json!({"case": case, "texts": 50}));
    });
}
