//! C19: Time against 128-bit integer arithmetic and an independent civil calendar.

use chrono::Duration;
use serde_json::json;
use starry::utils::Time;

use crate::report::{guarded, run_cases, Report};
use crate::rng::Rng;

const NS: i128 = 1_000_000_000;
/// chrono's Duration holds +-i64::MAX milliseconds
const MAX: i128 = (i64::MAX as i128) * 1_000_000;

/// days since 1970-01-01 to (year, month, day); counts year by year and month by month
fn civil(mut days: i128) -> (i64, u32, u32) {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let cycles = days.div_euclid(146097);
    days = days.rem_euclid(146097);
    let mut y = 1970 + cycles as i64 * 400;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    let len = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while days >= len[m] {
        days -= len[m];
        m += 1;
    }
    (y, m as u32 + 1, days as u32 + 1)
}

pub struct Civil {
    pub y: i64,
    pub mo: u32,
    pub d: u32,
    pub h: u32,
    pub mi: u32,
    pub s: u32,
    /// 0 = Monday
    pub wd: u32,
    /// day of the year, from 1
    pub yd: u32,
    pub secs: i128,
}

pub fn civil_of(ns: i128) -> Civil {
    let secs = ns.div_euclid(NS);
    let days = secs.div_euclid(86400);
    let t = secs.rem_euclid(86400) as u32;
    let (y, mo, d) = civil(days);
    // day of the year: distance to January 1st
    let mut first = days;
    while civil(first - 1).0 == y {
        first -= 1;
    }
    Civil { y, mo, d, h: t / 3600, mi: t / 60 % 60, s: t % 60, wd: (days + 3).rem_euclid(7) as u32, yd: (days - first) as u32 + 1, secs }
}

pub const DAYS: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
pub const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

impl Civil {
    /// ISO 8601 week: the year of this week's Thursday and its ordinal
    fn iso(&self) -> (i64, u32) {
        let days = self.secs.div_euclid(86400);
        let thu = days - self.wd as i128 + 3;
        let (y, _, _) = civil(thu);
        let mut first = thu;
        let mut n = 0;
        while civil(first - 7).0 == y {
            first -= 7;
            n += 1;
        }
        (y, n + 1)
    }
    pub fn spec(&self, c: &str) -> String {
        let h12 = if self.h % 12 == 0 { 12 } else { self.h % 12 };
        match c {
            "%Y" => format!("{:04}", self.y),
            "%m" => format!("{:02}", self.mo),
            "%d" => format!("{:02}", self.d),
            "%e" => format!("{:2}", self.d),
            "%H" => format!("{:02}", self.h),
            "%k" => format!("{:2}", self.h),
            "%I" => format!("{:02}", h12),
            "%l" => format!("{:2}", h12),
            "%M" => format!("{:02}", self.mi),
            "%S" => format!("{:02}", self.s),
            "%p" => (if self.h < 12 { "AM" } else { "PM" }).into(),
            "%P" => (if self.h < 12 { "am" } else { "pm" }).into(),
            "%y" => format!("{:02}", self.y % 100),
            "%C" => format!("{:02}", self.y / 100),
            "%j" => format!("{:03}", self.yd),
            "%a" => DAYS[self.wd as usize][..3].into(),
            "%A" => DAYS[self.wd as usize].into(),
            "%b" | "%h" => MONTHS[self.mo as usize - 1][..3].into(),
            "%B" => MONTHS[self.mo as usize - 1].into(),
            "%u" => format!("{}", self.wd + 1),
            "%w" => format!("{}", (self.wd + 1) % 7),
            // weeks of the year starting on the first Sunday / Monday
            "%U" => format!("{:02}", (self.yd + 6 - (self.wd + 1) % 7) / 7),
            "%W" => format!("{:02}", (self.yd + 6 - self.wd) / 7),
            "%G" => format!("{:04}", self.iso().0),
            "%g" => format!("{:02}", self.iso().0 % 100),
            "%V" => format!("{:02}", self.iso().1),
            "%F" => format!("{:04}-{:02}-{:02}", self.y, self.mo, self.d),
            "%D" => format!("{:02}/{:02}/{:02}", self.mo, self.d, self.y % 100),
            "%T" => format!("{:02}:{:02}:{:02}", self.h, self.mi, self.s),
            "%R" => format!("{:02}:{:02}", self.h, self.mi),
            "%r" => format!("{:02}:{:02}:{:02} {}", h12, self.mi, self.s, if self.h < 12 { "AM" } else { "PM" }),
            "%s" => format!("{}", self.secs),
            "%-d" => format!("{}", self.d),
            "%-m" => format!("{}", self.mo),
            "%-H" => format!("{}", self.h),
            "%_m" => format!("{:2}", self.mo),
            "%.f" => String::new(),
            "%3f" => "000".into(),
            "%n" => "\n".into(),
            "%t" => "\t".into(),
            "%%" => "%".into(),
            literal => literal.into(),
        }
    }
}

const SPECS: &[&str] = &["%Y", "%m", "%d", "%e", "%H", "%k", "%I", "%l", "%M", "%S", "%p", "%P", "%y", "%C", "%j", "%a", "%A", "%b", "%h", "%B", "%u", "%w",
    "%U", "%W", "%G", "%g", "%V", "%F", "%D", "%T", "%R", "%r", "%s", "%-d", "%-m", "%-H", "%_m", "%.f", "%n", "%t", "%%"];
const LITERAL: &[&str] = &["-", "/", ":", " ", "T", "GMT", ", ", "Z", "x", "年", "UTC ", "."];

/// first and last second of the years 1 to 9999
const LO: i64 = -62135596800;
const HI: i64 = 253402300799;

fn instant(rng: &mut Rng) -> i64 {
    match rng.below(10) {
        0 => rng.irange(-100_000, 100_000),
        1 => *rng.pick(&[0, -1, 1, 59, 60, 86399, 86400, -86400, -86401, 951782400, 951868799, 951868800, 4107542400, -2203891200, LO, HI, 1638907696, -9223372037, 9223372036, 9223372037]),
        2..=4 => rng.irange(-9_000_000_000, 9_000_000_000),
        // around the turn of a year or month
        5 | 6 => {
            let y = rng.irange(1, 9999);
            let days = (civil_days(y, rng.range(1, 12) as u32)) as i64;
            (days * 86400 + rng.irange(-3 * 86400, 3 * 86400)).clamp(LO, HI)
        }
        _ => rng.irange(LO, HI),
    }
}

fn civil_days(y: i64, m: u32) -> i128 {
    // search, the calendar above is the only source
    let mut d = (y as i128 - 1970) * 365 + (y as i128 - 1970) / 4;
    loop {
        let (yy, mm, dd) = civil(d);
        if yy == y && mm == m && dd == 1 {
            return d;
        }
        let ahead = (y as i128 - yy as i128) * 365 + (m as i128 - mm as i128) * 28;
        d += if ahead == 0 { 1 - dd as i128 } else { ahead.clamp(-100000, 100000) };
        if ahead == 0 && civil(d) != (y, m, 1) {
            d += if (yy, mm) < (y, m) { 1 } else { -1 };
        }
    }
}

fn arithmetic_case(rep: &Report, case: u64, rng: &mut Rng) {
    let unit = rng.below(6);
    let size: i128 = [60 * NS, NS, 1_000_000, 1000, 1, 1][unit];
    let bound = (MAX / size / 2).min(i64::MAX as i128 / 2) as i64;
    let amount = |rng: &mut Rng, b: i64| match rng.below(7) {
        0 => rng.irange(-5, 5),
        1 => b,
        2 => -b,
        3 => rng.irange(-b, b),
        _ => rng.irange(-(b.min(10_000_000_000)), b.min(10_000_000_000)),
    };
    let n = amount(rng, bound);
    let mut log = vec![];
    let names = ["from_minutes", "from_secs", "from_milliseconds", "from_microseconds", "from_nanoseconds", "from"];
    log.push(format!("{}({})", names[unit], n));
    rep.count("constructions", 1);
    let t = guarded(|| match unit {
        0 => Time::from_minutes(n),
        1 => Time::from_secs(n),
        2 => Time::from_milliseconds(n),
        3 => Time::from_microseconds(n),
        4 => Time::from_nanoseconds(n),
        _ => Time::from(Duration::nanoseconds(n)),
    });
    let mut t = match t {
        Ok(t) => t,
        Err(p) => return rep.violation(case, format!("Time::{}({}): {}", names[unit], n, p), json!({})),
    };
    let mut model = n as i128 * size;
    let units: [(&str, i128); 9] = [("nanoseconds", 1), ("microseconds", 1000), ("milliseconds", 1_000_000), ("seconds", NS), ("minutes", 60 * NS), ("hours", 3600 * NS),
        ("days", 86400 * NS), ("weeks", 7 * 86400 * NS), ("", 1)];
    for _ in 0..rng.range(0, 12) {
        let (name, size) = units[rng.below(9)];
        let plus = rng.chance(1, 2);
        let b = (MAX / size / 4).min(i64::MAX as i128 / 2) as i64;
        let v = amount(rng, b);
        let delta = v as i128 * size * if plus { 1 } else { -1 };
        if (model + delta).abs() >= MAX {
            continue;
        }
        log.push(format!("{}_{}({})", if plus { "add" } else { "sub" }, name, v));
        let before = t;
        let apply = |t: &mut Time, plus: bool| {
            match (name, plus) {
                ("nanoseconds", true) => t.add_nanoseconds(v),
                ("microseconds", true) => t.add_microseconds(v),
                ("milliseconds", true) => t.add_milliseconds(v),
                ("seconds", true) => t.add_seconds(v),
                ("minutes", true) => t.add_minutes(v),
                ("hours", true) => t.add_hours(v),
                ("days", true) => t.add_days(v),
                ("weeks", true) => t.add_weeks(v),
                ("", true) => t.add(Duration::nanoseconds(v)),
                ("nanoseconds", false) => t.sub_nanoseconds(v),
                ("microseconds", false) => t.sub_microseconds(v),
                ("milliseconds", false) => t.sub_milliseconds(v),
                ("seconds", false) => t.sub_seconds(v),
                ("minutes", false) => t.sub_minutes(v),
                ("hours", false) => t.sub_hours(v),
                ("days", false) => t.sub_days(v),
                ("weeks", false) => t.sub_weeks(v),
                _ => t.sub(Duration::nanoseconds(v)),
            }
        };
        rep.count("additions and subtractions", 1);
        if let Err(p) = guarded(|| apply(&mut t, plus)) {
            return rep.violation(case, format!("{:?}: {}", log, p), json!({}));
        }
        model += delta;
        let mut back = t;
        match guarded(|| apply(&mut back, !plus)) {
            Ok(()) if back == before => {}
            _ => return rep.violation(case, format!("{:?}: undoing the last step does not restore the value", log), json!({})),
        }
    }
    let fit = |x: i128| i64::try_from(x).ok();
    let got = guarded(|| {
        (t.num_weeks(), t.num_days(), t.num_hours(), t.num_minutes(), t.num_seconds(), t.num_milliseconds(), t.num_microseconds(), t.num_nanoseconds())
    });
    let want = ((model / (7 * 86400 * NS)) as i64, (model / (86400 * NS)) as i64, (model / (3600 * NS)) as i64, (model / (60 * NS)) as i64, (model / NS) as i64,
        (model / 1_000_000) as i64, fit(model / 1000), fit(model));
    rep.count("unit conversions", 8);
    if got.as_ref().ok() != Some(&want) {
        return rep.violation(case, format!("{:?} is {} ns: weeks, days, hours, minutes, seconds, ms, us, ns are {:?}, expected {:?}", log, model, got, want), json!({}));
    }
    let d = t.duration();
    if d.num_seconds() as i128 * NS + d.subsec_nanos() as i128 != model || Time::from(d) != t {
        return rep.violation(case, format!("{:?} is {} ns, duration() is {:?}", log, model, d), json!({}));
    }
    rep.distinct(format!("{:?}", log).as_bytes());
    rep.sample(|| json!({"history": log, "nanoseconds": model.to_string()}));
    if (LO as i128 * NS..=HI as i128 * NS).contains(&model) {
        formats(rep, case, rng, t, model);
    }
}

fn formats(rep: &Report, case: u64, rng: &mut Rng, t: Time, ns: i128) {
    let c = civil_of(ns);
    let want = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", c.y, c.mo, c.d, c.h, c.mi, c.s);
    match guarded(|| t.to_string()) {
        Ok(s) if s == want => {}
        r => return rep.violation(case, format!("to_string() of {} ns is {:?}, expected {:?}", ns, r, want), json!({})),
    }
    for _ in 0..rng.range(1, 5) {
        let mut f = String::new();
        let mut want = String::new();
        for _ in 0..rng.range(1, 8) {
            let s = if rng.chance(2, 3) { *rng.pick(SPECS) } else { *rng.pick(LITERAL) };
            f.push_str(s);
            want.push_str(&c.spec(s));
        }
        rep.count("formats", 1);
        let got = guarded(|| (t.format_string(&f), t.format(&f).to_string(), Time::format_data(t, &f)));
        match &got {
            Ok((a, b, d)) if *a == want && a == b && a == d => {}
            _ => return rep.violation(case, format!("{} ns ({:04}-{:02}-{:02} {:02}:{:02}:{:02}) formatted with {:?} is {:?}, expected {:?}", ns, c.y, c.mo, c.d, c.h, c.mi, c.s, f, got, want), json!({})),
        }
    }
}

fn round_trip_case(rep: &Report, case: u64, rng: &mut Rng) {
    let mut secs = instant(rng);
    let dates = ["%Y-%m-%d", "%F", "%Y-%j", "%G-W%V-%u", "%d %b %Y", "%d %B %Y", "%A, %d %b %Y", "%a, %d %b %Y", "%Y%m%d", "%e.%m.%Y", "%b %-d, %Y", "%m/%d/%Y", "%Y/%-m/%-d",
        "%d%b%Y", "%Y W%U %w", "%Y W%W %u", "%D", "%d-%b-%y", "%y%m%d"];
    let times = ["%H:%M:%S", "%T", "%I:%M:%S %p", "%r", "%H%M%S", "%p%I%M%S", "%k-%M-%S", "%-H.%M.%S", "%l:%M:%S%P", "%T%.f", "%R:%S"];
    let di = rng.below(dates.len());
    if di >= 16 {
        // two-digit years stand for 1970 to 2069
        secs = rng.irange(0, 3155759999);
    }
    let sep = *rng.pick(&[" ", "T", ", ", " at ", "-"]);
    let f = match rng.below(12) {
        // chrono parses no signs here
        0 if secs >= 0 => "%s".to_string(),
        1 => format!("%a, %d %b %Y %H:%M:%S GMT"),
        2..=4 => format!("{}{}{}", rng.pick(&times), sep, dates[di]),
        _ => format!("{}{}{}", dates[di], sep, rng.pick(&times)),
    };
    let c = civil_of(secs as i128 * NS);
    // the text an independent formatter gives
    let mut text = String::new();
    let b: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '%' {
            let n = if "-_.".contains(b[i + 1]) { 3 } else { 2 };
            text.push_str(&c.spec(&b[i..i + n].iter().collect::<String>()));
            i += n;
        } else {
            text.push(b[i]);
            i += 1;
        }
    }
    let t = Time::from_secs(secs);
    rep.count("parse round trips", 1);
    rep.distinct(format!("{} {}", text, f).as_bytes());
    match guarded(|| t.format_string(&f)) {
        Ok(s) if s == text => {}
        r => return rep.violation(case, format!("{} s formatted with {:?} is {:?}, expected {:?}", secs, f, r, text), json!({})),
    }
    match guarded(|| Time::parse_from_str(&text, &f).map_err(|e| e.to_string())) {
        Ok(Ok(u)) if u == t => {}
        r => return rep.violation(case, format!("parse_from_str({:?}, {:?}) is {:?}, expected {} s", text, f, r, secs), json!({})),
    }
    // fractions of a second
    let frac = rng.below(1_000_000_000) as i64;
    if rng.chance(1, 3) {
        let text = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:09}", c.y, c.mo, c.d, c.h, c.mi, c.s, frac);
        let mut want = t;
        want.add_nanoseconds(frac);
        match guarded(|| Time::parse_from_str(&text, "%Y-%m-%d %H:%M:%S%.f").map_err(|e| e.to_string())) {
            Ok(Ok(u)) if u == want => {}
            r => return rep.violation(case, format!("parse_from_str({:?}) is {:?}, expected {} s and {} ns", text, r, secs, frac), json!({})),
        }
    }
}

fn hostile_case(rep: &Report, case: u64, rng: &mut Rng) {
    let specs = ["%Y-%m-%d %H:%M:%S", "%s", "%a, %d %b %Y %H:%M:%S GMT", "%G-W%V-%u%H%M%S", "%y/%m/%d %H:%M:%S", "%Y-%j %T", "%c", "%+", "%Y-%m-%dT%H:%M:%S%z", "%s%.f", "%D %r", "%C%y %j %R"];
    let (s, f): (String, String) = match rng.below(4) {
        0 => {
            let n = rng.range(0, 30);
            (String::from_utf8_lossy(&rng.blob(n)).to_string(), rng.pick(&specs).to_string())
        }
        1 => {
            let c = civil_of(instant(rng) as i128 * NS);
            let mut v: Vec<char> = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", c.y, c.mo, c.d, c.h, c.mi, c.s).chars().collect();
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(v.len());
                v[i] = *rng.pick(&['9', '0', '-', '+', ' ', 'é', '6', '3']);
            }
            (v.into_iter().collect(), specs[0].into())
        }
        2 => {
            let y = *rng.pick(&["+262142", "-262143", "+262143", "-262144", "99999", "+99999999999", "0000", "-0001", "+2000"]);
            (format!("{}-12-31 23:59:{}", y, rng.pick(&["59", "60", "61"])), "%Y-%m-%d %H:%M:%S".into())
        }
        _ => {
            let n = *rng.pick(&["9223372036854775807", "-9223372036854775808", "8210266876799", "8210266876800", "-8334601228800", "-8334601228801", "99999999999999999999", "-62135596801"]);
            (n.into(), "%s".into())
        }
    };
    rep.count("hostile texts", 1);
    rep.distinct(format!("{} {}", s, f).as_bytes());
    match guarded(|| Time::parse_from_str(&s, &f).ok()) {
        Err(p) => rep.violation(case, format!("parse_from_str({:?}, {:?}): {}", s, f, p), json!({})),
        Ok(Some(t)) => {
            // what was accepted is what the text says
            let shape = s.chars().zip("0000-00-00 00:00:00".chars()).all(|(a, b)| if b == '0' { a.is_ascii_digit() } else { a == b });
            if f == specs[0] && s.len() == 19 && shape && !s.ends_with("60") {
                let back = t.format_string(&f);
                if back != s {
                    rep.violation(case, format!("parse_from_str({:?}) gave {}", s, back), json!({}));
                }
            }
        }
        Ok(None) => {}
    }
}

/// now() lies between two readings of the system clock, moved by the zone's offset
fn now_case(rep: &Report, case: u64) {
    let utc = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i128;
    let offset = |ns: i128| unsafe {
        let secs = (ns / NS) as libc::time_t;
        let mut tm: libc::tm = std::mem::zeroed();
        libc::localtime_r(&secs, &mut tm);
        tm.tm_gmtoff as i128 * NS
    };
    let mut seen = vec![];
    // a clock that is being set may step between the readings
    for _ in 0..4 {
        let a = utc();
        let t = match guarded(Time::now) {
            Ok(t) => t,
            Err(p) => return rep.violation(case, format!("Time::now(): {}", p), json!({})),
        };
        let b = utc();
        rep.count("readings of now()", 1);
        let ns = t.num_nanoseconds().map(|x| x as i128);
        let (from, to) = (a + offset(a), b + offset(b));
        match ns {
            Some(ns) if from <= ns && ns <= to => {
                rep.distinct(b"now");
                return formats(rep, case, &mut Rng::new(case, 0x90), t, ns);
            }
            _ => seen.push(format!("{:?}, the local clock went from {} to {}", ns, from, to)),
        }
    }
    rep.violation(case, format!("Time::now() is not the local time: {:?}", seen), json!({}));
}

pub fn c19(rep: &'static Report) {
    run_cases(rep, 1, if rep.opts.thorough { 600_000 } else { 60_000 }, |rep, case, rng| match rng.below(8) {
        _ if case % 200 == 17 => now_case(rep, case),
        0..=2 => arithmetic_case(rep, case, rng),
        3 => {
            let s = instant(rng);
            let frac = if rng.chance(1, 2) { 0 } else { rng.below(NS as usize) as i64 };
            let ns = (s as i128 * NS + frac as i128).min(HI as i128 * NS);
            let mut t = Time::from_secs(s);
            t.add_nanoseconds((ns - s as i128 * NS) as i64);
            rep.distinct(format!("{}", ns).as_bytes());
            formats(rep, case, rng, t, ns);
        }
        4..=6 => round_trip_case(rep, case, rng),
        _ => hostile_case(rep, case, rng),
    });
}
