//! Local times and zones (C16).
use crate::c13_epoch::{mutate, times};
use crate::c15_begin::{days, days_in, P};
use crate::sx;
use chopper::chopper::types::{FieldValue, Header, Row};
use chopper::source::csv_configs::{CSVOutputConfig, TimestampColConfig, TimestampFmtConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use chopper::write::csv_sink::CSVSink;
use chopper::chopper::chopper::HeaderSink;
use chrono::{NaiveDate, NaiveTime, Offset, Timelike};

/// a zone: its offset in winter and in summer (seconds) and the rule in between
#[derive(Clone, Copy)]
pub struct Zone { pub name: &'static str, std: i64, dst: i64, rule: Rule }
#[derive(Clone, Copy, PartialEq)]
enum Rule { Fixed, Us, Eu, LordHowe }
pub const ZONES: [Zone; 6] = [
    Zone { name: "UTC", std: 0, dst: 0, rule: Rule::Fixed },
    Zone { name: "America/New_York", std: -18_000, dst: -14_400, rule: Rule::Us },
    Zone { name: "Europe/Berlin", std: 3_600, dst: 7_200, rule: Rule::Eu },
    Zone { name: "Asia/Kolkata", std: 19_800, dst: 19_800, rule: Rule::Fixed },
    Zone { name: "Australia/Lord_Howe", std: 37_800, dst: 39_600, rule: Rule::LordHowe },
    Zone { name: "Europe/London", std: 0, dst: 3_600, rule: Rule::Eu },
];
/// the n-th Sunday of a month (n = 0: the last)
pub fn sunday(y: i64, m: i64, n: i64) -> i64 {
    if n == 0 {
        let last = days(y, m, days_in(y, m));
        return last - (last + 4).rem_euclid(7);
    }
    let first = days(y, m, 1);
    first + (7 - (first + 4).rem_euclid(7)) % 7 + 7 * (n - 1)
}
/// the instants in year y at which summer time begins and ends
fn changes(z: &Zone, y: i64) -> (i64, i64) {
    match z.rule {
        Rule::Us => (sunday(y, 3, 2) * 86_400 + 2 * 3600 - z.std, sunday(y, 11, 1) * 86_400 + 2 * 3600 - z.dst),
        Rule::Eu => (sunday(y, 3, 0) * 86_400 + 3600, sunday(y, 10, 0) * 86_400 + 3600),
        Rule::LordHowe => (sunday(y, 10, 1) * 86_400 + 2 * 3600 - z.std, sunday(y, 4, 1) * 86_400 + 2 * 3600 - z.dst),
        Rule::Fixed => (0, 0),
    }
}
/// the offset in force at an instant of (UTC) year y, for years 2008 to 2037
fn offset_at(z: &Zone, y: i64, t: i64) -> i64 {
    let (b, e) = changes(z, y);
    let summer = match z.rule {
        Rule::Fixed => return z.std,
        Rule::LordHowe => sx::or(t >= b, t < e),
        _ => sx::and(t >= b, t < e),
    };
    sx::ite(summer, z.dst as u64, z.std as u64) as i64
}
/// how often the clocks show this local time, and one such instant
fn showing(z: &Zone, y: i64, local: i64) -> (u64, i64) {
    let mut n = 0u64;
    let mut at = 0i64;
    let os = [z.std, z.dst];
    for o in if z.std == z.dst { &os[..1] } else { &os[..] } {
        let t = local.wrapping_sub(*o);
        let hit = offset_at(z, y, t) == *o;
        n = n.wrapping_add(sx::ite(hit, 1, 0));
        at = sx::ite(hit, t as u64, at as u64) as i64;
    }
    (n, at)
}
pub fn zone(name: &str) -> ChopperTz {
    match ChopperTz::new_from_cli_arg(Some(name), None) { Ok(z) => z, Err(_) => { sx::fail("a zone was refused"); unreachable!() } }
}
/// a day of the year: around the changes, and others
fn day(z: &Zone, y: i64) -> i64 {
    let (b, e) = if z.rule == Rule::Fixed { (days(y, 3, 1) * 86_400, days(y, 12, 31) * 86_400) } else { changes(z, y) };
    match sx::choose("day", 0, 8) {
        0 => b.div_euclid(86_400) - 1,
        1 => b.div_euclid(86_400),
        2 => b.div_euclid(86_400) + 1,
        3 => e.div_euclid(86_400) - 1,
        4 => e.div_euclid(86_400),
        5 => e.div_euclid(86_400) + 1,
        6 => days(y, 1, 2),
        _ => days(y, 7, 15),
    }
}
fn date(d: i64) -> NaiveDate {
    match NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().checked_add_signed(chrono::Duration::days(d)) { Some(d) => d, None => unreachable!() }
}
/// every second of a day, as local time
fn local(years: &[i64]) {
    sx::allow(sx::OPAQUE);
    let z = ZONES[sx::choose("zone", 0, ZONES.len())];
    let y = years[sx::choose("year", 0, years.len())];
    let d = day(&z, y);
    let s = sx::u32v("second", 0);
    sx::assume(s < 86_400);
    let n = sx::u32v("nano", 0);
    sx::assume(n < 1_000_000_000);
    let t = match NaiveTime::from_num_seconds_from_midnight_opt(s, n) { Some(t) => t, None => unreachable!() };
    let (count, at) = showing(&z, y, d * 86_400 + s as i64);
    match zone(z.name).from_local_datetime(&date(d).and_time(t)) {
        Ok(dt) => {
            sx::check(count == 1, "a local time that is skipped or repeated was accepted");
            sx::check(dt.timestamp() == at, "a local time was taken for another instant");
            sx::check(dt.timestamp_subsec_nanos() == n, "the fraction of a second changed");
            sx::cover("accepted");
        }
        Err(_) => { sx::check(count != 1, "a local time that exists once was refused"); sx::cover("refused"); }
    }
}
/// every second of a day, as an instant to show
fn shown(years: &[i64]) {
    sx::allow(sx::OPAQUE);
    let z = ZONES[sx::choose("zone", 0, ZONES.len())];
    let y = years[sx::choose("year", 0, years.len())];
    let d = day(&z, y);
    let k = sx::byte("k", 0) as u64;
    let (b, e) = changes(&z, y);
    // spread over the day, or second by second around midnight and the changes
    let t = match sx::choose("part", 0, 4) {
        0 => (d * 86_400) as u64 + k * 337,
        1 => (d * 86_400) as u64 - 100 + k,
        2 => if z.rule == Rule::Fixed { k } else { b as u64 - 100 + k },
        _ => if z.rule == Rule::Fixed { k * 1_000_000 } else { e as u64 - 100 + k },
    };
    let n = [0, 1, 999_999_999u32][sx::choose("nano", 0, 3)];
    let off = offset_at(&z, y, t as i64);
    match zone(z.name).timestamp(t.wrapping_mul(1_000_000_000).wrapping_add(n as u64)) {
        Ok(dt) => {
            let o = dt.offset().fix().local_minus_utc() as i64;
            sx::check(o == off, "an instant is shown with another zone's offset");
            sx::check(dt.timestamp() == t as i64, "another instant is shown");
            sx::check(dt.timestamp_subsec_nanos() == n, "the fraction of a second changed");
        }
        Err(_) => sx::fail("an instant could not be shown"),
    }
}
/// instants as far on as timestamps go, in zones whose clocks no longer change
fn far() {
    sx::allow(sx::OPAQUE);
    let z = ZONES[[0, 3][sx::choose("zone", 0, 2)]];
    let base = [2_147_483_600u64, 4_294_967_200, 9_223_372_000, 9_300_000_000, 18_446_743_800][sx::choose("base", 0, 5)];
    let t = base.wrapping_add(sx::byte("k", 0) as u64);
    let n = [0, 1, 987_654_321u32, 999_999_999][sx::choose("nano", 0, 4)];
    match zone(z.name).timestamp(t.wrapping_mul(1_000_000_000).wrapping_add(n as u64)) {
        Ok(dt) => {
            sx::check(dt.offset().fix().local_minus_utc() as i64 == z.std, "an instant is shown with another zone's offset");
            sx::check(dt.timestamp() == t as i64, "another instant is shown");
            sx::check(dt.timestamp_subsec_nanos() == n, "the fraction of a second changed");
            sx::cover("shown");
        }
        Err(_) => sx::fail("an instant could not be shown"),
    }
}
/// text written for an instant: any of 256 steps from a base
fn written() {
    let z = ZONES[sx::choose("zone", 0, 3)];
    let y = 2020;
    let d = day(&z, y);
    let (units, div, width) = [(TimestampUnits::Seconds, 0u64, 0usize), (TimestampUnits::Millis, 1_000_000, 3), (TimestampUnits::Micros, 1_000, 6), (TimestampUnits::Nanos, 1, 9)][sx::choose("unit", 0, 4)];
    let (step, k) = ([1u64, 3_906_251, 343_000_000_000][sx::choose("step", 0, 3)], sx::byte("k", 0) as u64);
    let ts = (d * 86_400) as u64 * 1_000_000_000 + 987_654_300 + k * step;
    let c = CSVOutputConfig::new(",", true, None, TimestampStyle::HumanReadable, units, zone(z.name));
    let name = Some("o.csv".to_string());
    let sink = match CSVSink::new(&name, c) { Ok(s) => s, Err(_) => { sx::fail("a sink was refused"); return; } };
    let mut h = Header::new(vec![], vec![]);
    let mut sink = match Box::new(sink).process_header(&mut h) { Ok(s) => s, Err(_) => { sx::fail("a header was refused"); return; } };
    let mut rows = vec![Row { timestamp: ts, field_values: Vec::<FieldValue>::new() }];
    if sink.write_row(&mut rows).is_err() || sink.flush().is_err() { sx::fail("writing a row failed"); return; }
    drop(sink);
    let text = std::fs::read("o.csv").unwrap_or_default();
    // read it again
    if text.len() < 5 || &text[..5] != b"time\n" { sx::fail("another header line was written"); return; }
    let len = 19 + if width > 0 { width + 1 } else { 0 } + 6;
    if text.len() != 5 + len + 1 { sx::fail("a time of another length was written"); return; }
    let mut p = P { t: &text[5..5 + len], at: 0, strict: true };
    let mut f = || -> Option<(i64, i64, i64)> {
        let (yy, _, mm, _, dd, _) = (p.num(4)?, p.lit(b'-')?, p.num(2)?, p.lit(b'-')?, p.num(2)?, p.lit(b'T')?);
        let (hh, _, mi, _, ss) = (p.num(2)?, p.lit(b':')?, p.num(2)?, p.lit(b':')?, p.num(2)?);
        let frac = if width > 0 { p.frac()? } else { 0 };
        let off = p.offset()?;
        if mm < 1 || mm > 12 || dd < 1 || dd > days_in(yy, mm) || hh > 23 || mi > 59 || ss > 59 { return None; }
        Some((days(yy, mm, dd) * 86_400 + hh * 3600 + mi * 60 + ss, frac, off * 60))
    };
    match f() {
        None => sx::fail("what was written is no time"),
        Some((local, frac, off)) => {
            let t = (ts / 1_000_000_000) as i64;
            let n = ts % 1_000_000_000;
            sx::check(local.wrapping_sub(off) == t, "another instant was written");
            sx::check(off == offset_at(&z, y, t), "another offset was written");
            if width > 0 { sx::check(frac as u64 == (n / div) * div, "another fraction was written"); }
            sx::cover("written");
        }
    }
}
/// the field formats of local times found by themselves or given, in a row; any one character replaced
fn field(bases: &[(&str, &str)], explicit: bool, before: &[usize]) {
    sx::allow(sx::OPAQUE);
    let (base, format) = bases[sx::choose("base", 0, bases.len())];
    let z = ZONES[1 + sx::choose("zone", 0, 2)];
    let before = before[sx::choose("second", 0, before.len())];
    let second = before > 0;
    let (t, _) = mutate("c", base);
    if t[0] == b' ' || t[t.len() - 1] == b' ' { return; }
    let fmt = if explicit { TimestampFmtConfig::Explicit(format.to_string()) } else { TimestampFmtConfig::Auto };
    let mut lines: Vec<&[u8]> = vec![b"x"];
    for _ in 0..before { lines.push(base.as_bytes()); }
    lines.push(&t);
    let got = times(&lines, TimestampColConfig::Index(0), fmt, zone(z.name));
    sx::check(got.len() == before + 1 || (got.len() == before && got[before - 1].is_none()), "not one row for one line");
    if before > 1 {
        // the rows before it are alike
        for g in &got[..before - 1] { sx::check(g.is_some() && *g == got[0], "a row was converted to another instant than the one before"); }
    }
    let got = got[got.len() - 1];
    let r = |strict: bool, format: &str| -> Option<u64> {
        let mut p = P { t: &t, at: 0, strict };
        let mut v = [0i64; 6];
        let mut ns = 0;
        let f = format.as_bytes();
        let mut i = 0;
        while i < f.len() {
            if f[i] == b'%' {
                i += 1;
                match f[i] {
                    b'Y' => v[0] = p.year()?, b'm' => v[1] = p.num(2)?, b'd' => v[2] = p.num(2)?,
                    b'H' => v[3] = p.num(2)?, b'M' => v[4] = p.num(2)?, b'S' => v[5] = p.num(2)?,
                    b'.' => { i += 1; ns = p.frac()?; }
                    _ => unreachable!(),
                }
            } else if f[i] == b' ' && !strict { while p.peek() == Some(b' ') { p.at += 1; } } else if p.peek() == Some(f[i]) { p.at += 1; } else { return None; }
            i += 1;
        }
        if p.at < t.len() { return None; }
        let [y, m, d, h, mi, s] = v;
        if m < 1 || m > 12 || d < 1 || d > days_in(y, m) || h > 23 || mi > 59 || s > 60 { return None; }
        // the rules below hold for these years only
        if y < 2008 || y > 2036 { return Some(u64::max_value()); }
        let leap = if s == 60 { 1 } else { 0 };
        let (n, at) = showing(&z, y, days(y, m, d) * 86_400 + h * 3600 + mi * 60 + s - leap);
        if n != 1 { return None; }
        Some((at as u64).wrapping_add(leap as u64).wrapping_mul(1_000_000_000).wrapping_add(ns as u64))
    };
    match got {
        Some(v) => {
            // what a first line holds may be of another format, or a number of seconds and the like
            let mut ok = !explicit && !second && t.iter().all(|c| *c >= b'0' && *c <= b'9');
            if explicit || second {
                if let Some(w) = r(false, format) { ok = sx::or(w == u64::max_value(), w == v); }
            } else {
                for (_, f) in AUTO.iter() { if let Some(w) = r(false, f) { ok = sx::or(ok, sx::or(w == u64::max_value(), w == v)); } }
            }
            sx::check(ok, "a local time was taken for another instant, or one that does not exist was accepted");
            sx::cover("accepted");
        }
        None => { sx::check(match r(true, format) { None => true, Some(w) => w == u64::max_value() }, "a local time that exists once was refused"); sx::cover("refused"); }
    }
}
const AUTO: [(&str, &str); 7] = [("20200308.015959", "%Y%m%d.%H%M%S"), ("20201101 005959", "%Y%m%d %H%M%S"), ("20200308 03:00:00", "%Y%m%d %H:%M:%S"), ("20201101 02:00:00", "%Y%m%d %H:%M:%S"),
    ("2020/03/29-01:59:59", "%Y/%m/%d-%H:%M:%S"), ("2020/10/25-03:00:00", "%Y/%m/%d-%H:%M:%S"), ("20200229", "%Y%m%d")];
const GIVEN: [(&str, &str); 6] = [("2020-03-08T01:59:59.5", "%Y-%m-%dT%H:%M:%S%.f"), ("00:59:59 2020-11-01", "%H:%M:%S %Y-%m-%d"), ("29.03.2020 03:00", "%d.%m.%Y %H:%M"),
    ("20201025030000", "%Y%m%d%H%M%S"), ("31/12/2019", "%d/%m/%Y"), ("2020-12-31 23:59:60", "%Y-%m-%d %H:%M:%S")];
/// date and time in columns of their own
fn columns() {
    sx::allow(sx::OPAQUE);
    const B: [(&str, &str, i64); 6] = [("20200308", "015959500", 500), ("20200308", "030000", 0), ("20201101", "02:00:00", 0), ("20201101", "0:59", 0), ("20200229", "235959999", 999), ("20200308", "9:30", 0)];
    let (d, t, _) = B[sx::choose("base", 0, B.len())];
    let z = ZONES[1 + sx::choose("zone", 0, 2)];
    let part = sx::flag("part", 0);
    let (m, _) = mutate("c", if part { t } else { d });
    if m[0] == b' ' || m[m.len() - 1] == b' ' { return; }
    let (d, t): (&[u8], &[u8]) = if part { (d.as_bytes(), &m) } else { (&m, t.as_bytes()) };
    let mut line = d.to_vec();
    line.push(b',');
    line.extend_from_slice(t);
    let got = times(&[b"date,time", &line], TimestampColConfig::Auto, TimestampFmtConfig::Auto, zone(z.name))[0];
    let r = |strict: bool| -> Vec<u64> {
        let mut out = vec![];
        for style in 0..4 {
            let mut f = || -> Option<u64> {
                let mut p = P { t: d, at: 0, strict };
                let (y, mo, dd) = (p.year()?, p.num(2)?, p.num(2)?);
                if p.at < d.len() { return None; }
                let mut p = P { t, at: 0, strict };
                let (h, mi, s, ms) = match style {
                    0 => { let x = (p.num(2)?, p.num(2)?, p.num(2)?); p.strict = true; (x.0, x.1, x.2, p.num(3)?) }
                    1 => (p.num(2)?, p.num(2)?, p.num(2)?, 0),
                    2 => { let h = p.num(2)?; p.lit(b':')?; let mi = p.num(2)?; p.lit(b':')?; (h, mi, p.num(2)?, 0) }
                    _ => { p.strict = false; let h = p.num(2)?; p.strict = strict; p.lit(b':')?; (h, p.num(2)?, 0, 0) }
                };
                if p.at < t.len() { return None; }
                if mo < 1 || mo > 12 || dd < 1 || dd > days_in(y, mo) || h > 23 || mi > 59 || s > 60 { return None; }
                if y < 2008 || y > 2036 { return Some(u64::max_value()); }
                let leap = if s == 60 { 1 } else { 0 };
                let (n, at) = showing(&z, y, days(y, mo, dd) * 86_400 + h * 3600 + mi * 60 + s - leap);
                if n != 1 { return None; }
                Some((at as u64).wrapping_add(leap as u64).wrapping_mul(1_000_000_000).wrapping_add(ms as u64 * 1_000_000))
            };
            out.extend(f());
        }
        out
    };
    match got {
        Some(v) => {
            let mut ok = false;
            for w in r(false) { ok = sx::or(ok, sx::or(w == u64::max_value(), w == v)); }
            sx::check(ok, "a local time was taken for another instant");
            sx::cover("accepted");
        }
        None => { sx::check(r(true).iter().all(|w| *w == u64::max_value()), "a local time that exists once was refused"); sx::cover("refused"); }
    }
}
/// times with an offset of their own need no zone; instants before 1970 have no timestamp
fn own_offset() {
    sx::allow(sx::OPAQUE);
    const B: [&str; 6] = ["2020-02-29T12:34:56+01:30", "1970-01-01T00:29:59+00:30", "1969-12-31T23:30:00-00:30", "1901-01-01T00:00:00Z", "2554-07-22T00:34:33.709551615+01:00", "2020-02-29T12:34:56.123Z"];
    let (t, _) = mutate("c", B[sx::choose("base", 0, B.len())]);
    if t[0] == b' ' || t[t.len() - 1] == b' ' { return; }
    let zoned = sx::flag("zone", 0);
    let second = sx::flag("second", 0);
    let good: &[u8] = b"2020-02-29T12:34:56Z";
    let lines: Vec<&[u8]> = if second { vec![b"x", good, &t] } else { vec![b"x", &t] };
    let got = times(&lines, TimestampColConfig::Index(0), TimestampFmtConfig::Auto, if zoned { zone("America/New_York") } else { ChopperTz::new_always_fails() });
    if second && got.len() == 1 && got[0].is_some() { sx::fail("not two rows for two lines"); return; }
    let got = got[got.len() - 1];
    match got {
        Some(v) => {
            let mut ok = false;
            for w in crate::c15_begin::with_offset(&t, false) { ok = sx::or(ok, w == v); }
            sx::check(ok, "a time was taken for another instant");
            sx::cover("accepted");
        }
        None => { sx::check(crate::c15_begin::with_offset(&t, true).is_empty(), "a valid time was refused"); sx::cover("refused"); }
    }
}
/// without a zone local times are refused, and instants cannot be shown
fn no_zone() {
    sx::allow(sx::OPAQUE);
    let z = ChopperTz::new_always_fails();
    let s = sx::u32v("second", 0);
    sx::assume(s < 86_400);
    let d = [0, 18_262, -1, 200_000][sx::choose("day", 0, 4)];
    let t = match NaiveTime::from_num_seconds_from_midnight_opt(s, 0) { Some(t) => t, None => unreachable!() };
    sx::check(z.from_local_datetime(&date(d).and_time(t)).is_err(), "a local time was converted without a zone");
    let _ = t.hour();
    sx::check(z.timestamp(1_000_000_000).is_err(), "a time was shown without a zone");
    let r = times(&[b"x", AUTO[sx::choose("base", 0, AUTO.len())].0.as_bytes()], TimestampColConfig::Index(0), TimestampFmtConfig::Auto, z);
    sx::check(r[0].is_none(), "a local time was read without a zone");
}
/// local times before 1970 and after the last timestamp
fn outside() {
    sx::allow(sx::OPAQUE);
    const B: [(&str, bool); 8] = [("1969-12-31 19:00:0", true), ("1969-12-31 18:59:5", false), ("1969-07-01 00:00:0", false), ("1900-01-01 00:00:0", false), ("2554-07-21 18:34:3", true), ("2554-07-22 18:34:3", false), ("9999-12-31 00:00:0", false), ("0001-01-01 00:00:0", false)];
    let (b, ok) = B[sx::choose("base", 0, B.len())];
    let c = sx::byte("c", 0);
    sx::assume(sx::and(c >= b'0', c <= b'9'));
    let mut t = b.as_bytes().to_vec();
    t.push(c);
    let first: &[u8] = b"2020-01-01 00:00:00";
    let got = times(&[b"x", first, &t], TimestampColConfig::Index(0), TimestampFmtConfig::Explicit("%Y-%m-%d %H:%M:%S".to_string()), zone("America/New_York"));
    let got = got[got.len() - 1];
    let k = (c as u64).wrapping_sub(48);
    if b.starts_with("1969-12-31 19") { sx::check(got == Some(k.wrapping_mul(1_000_000_000)), "a local time was taken for another instant"); }
    // years this far on are outside of the zone's rules: winter or summer time
    else if ok { if let Some(v) = got { sx::check(sx::or(v == (18_446_744_070 + k).wrapping_mul(1_000_000_000), v == (18_446_744_070 + 3600 + k).wrapping_mul(1_000_000_000)), "a local time was taken for another instant"); } }
    else { sx::check(got.is_none(), "a time without a timestamp was turned into another"); sx::cover("refused"); }
}
harness! {
    h_field_far { if sx::flag("given", 0) { field(&[GIVEN[0], GIVEN[2], GIVEN[3]], true, &[30, 250]); } else { field(&[AUTO[0], AUTO[3], AUTO[5]], false, &[30, 250]); } }
    h_local_2020 { local(&[2020]); }
    h_local_years { local(&[2008, 2013, 2027, 2036]); }
    h_shown_2020 { shown(&[2020]); }
    h_shown_years { shown(&[2008, 2013, 2027, 2036]); }
    h_shown_far { far(); }
    h_written { written(); }
    h_field_auto { field(&AUTO, false, &[0, 1]); }
    h_field_given { field(&GIVEN, true, &[0, 1]); }
    h_columns { columns(); }
    h_own_offset { own_offset(); }
    h_no_zone { no_zone(); }
    h_outside { outside(); }
}
