//! Begin and end arguments (C15).
use crate::c13_epoch::{mutate, AUTO, number, range_of};
use crate::sx;
use chopper::util::timestamp_util::parse_datetime_range_element;
use chopper::util::tz::ChopperTz;

/// days since 1970-01-01 of a date of the Gregorian calendar
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = (y + 4000) / 400 - 10;
    let yoe = y - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}
pub fn days_in(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 },
        _ => 31,
    }
}
/// the instant of these fields, if there is such a time and it has a timestamp
pub fn instant(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64, ns: i64, offset_min: i64) -> Option<u64> {
    if m < 1 || m > 12 || d < 1 || d > days_in(y, m) || h > 23 || mi > 59 || s > 60 { return None; }
    let t = days(y, m, d) * 86_400 + h * 3600 + mi * 60 + s - offset_min * 60;
    if t < 0 || t > 18_446_744_073 || (t == 18_446_744_073 && ns > 709_551_615) { return None; }
    Some((t as u64).wrapping_mul(1_000_000_000).wrapping_add(ns as u64))
}
pub struct P<'a> { pub t: &'a [u8], pub at: usize, pub strict: bool }
impl<'a> P<'a> {
    pub fn peek(&self) -> Option<u8> { if self.at < self.t.len() { Some(self.t[self.at]) } else { None } }
    fn spaces(&mut self) { while self.peek() == Some(b' ') { self.at += 1; } }
    fn digit(&mut self) -> Option<i64> {
        match self.peek() {
            Some(c) if sx::and(c >= b'0', c <= b'9') => { self.at += 1; Some((c - b'0') as i64) }
            _ => None,
        }
    }
    /// a number of up to max digits; exactly that many when strict
    pub fn num(&mut self, max: usize) -> Option<i64> {
        if !self.strict { self.spaces(); }
        let mut v = 0;
        for i in 0..max {
            match self.digit() {
                Some(d) => v = v * 10 + d,
                None => { if i == 0 || self.strict { return None; } break; }
            }
        }
        Some(v)
    }
    /// a year; with a sign it may have any number of digits
    pub fn year(&mut self) -> Option<i64> {
        if !self.strict { self.spaces(); }
        if !self.strict && self.peek() == Some(b'+') { self.at += 1; return self.num(9); }
        self.num(4)
    }
    pub fn lit(&mut self, c: u8) -> Option<()> {
        if !self.strict { self.spaces(); }
        if self.peek() == Some(c) { self.at += 1; Some(()) } else { None }
    }
    /// an optional fraction
    pub fn frac(&mut self) -> Option<i64> {
        if self.peek() != Some(b'.') { return Some(0); }
        self.at += 1;
        let mut v = 0;
        let mut n = 0;
        while let Some(d) = self.digit() {
            if n < 9 { v = v * 10 + d; }
            n += 1;
        }
        if n == 0 || (n > 9 && self.strict) { return None; }
        while n < 9 { v *= 10; n += 1; }
        Some(v)
    }
    pub fn offset(&mut self) -> Option<i64> {
        if !self.strict { self.spaces(); }
        match self.peek() {
            Some(b'Z') => { self.at += 1; return Some(0); }
            Some(b'z') if !self.strict => { self.at += 1; return Some(0); }
            _ => {}
        }
        let sign = match self.peek() { Some(b'+') => 1, Some(b'-') => -1, _ => return None };
        self.at += 1;
        let two = |p: &mut Self| { let a = p.digit()?; Some(a * 10 + p.digit()?) };
        let h = two(self)?;
        if self.strict { self.lit(b':')?; } else { while self.peek() == Some(b':') || self.peek() == Some(b' ') { self.at += 1; } }
        let m = two(self)?;
        if h > 23 || m > 59 { return None; }
        Some(sign * (h * 60 + m))
    }
}
/// one reading of a date and time
fn read(t: &[u8], strict: bool, ds: Option<u8>, delim: &[u8], ts: Option<u8>, offset: bool) -> Option<u64> {
    let mut p = P { t, at: 0, strict };
    let y = p.year()?;
    if let Some(c) = ds { p.lit(c)?; }
    let m = p.num(2)?;
    if let Some(c) = ds { p.lit(c)?; }
    let d = p.num(2)?;
    if !strict && (delim == b" " || offset) { p.spaces(); }
    if strict || delim != b" " {
        match p.peek() { Some(c) if delim.contains(&c) => p.at += 1, _ => return None }
    }
    let h = p.num(2)?;
    if let Some(c) = ts { p.lit(c)?; }
    let mi = p.num(2)?;
    if let Some(c) = ts { p.lit(c)?; }
    let s = p.num(2)?;
    let ns = p.frac()?;
    let off = if offset { p.offset()? } else { 0 };
    if p.at < t.len() { return None; }
    instant(y, m, d, h, mi, s, ns, off)
}
/// the instants a text may be read as
fn readings(t: &[u8], strict: bool, local: bool) -> Vec<u64> {
    let mut out = vec![];
    let (digits, v) = number(t);
    if digits {
        let m = range_of(v);
        if m != 0 { return vec![(v as u64).wrapping_mul(m)]; }
        let n = t.len();
        if local && (n == 4 || n == 6 || n == 8) {
            let mut p = P { t, at: 0, strict: true };
            let y = p.num(4).unwrap();
            let mo = if n > 4 { p.num(2).unwrap() } else { 1 };
            let d = if n > 6 { p.num(2).unwrap() } else { 1 };
            return instant(y, mo, d, 0, 0, 0, 0, 0).into_iter().collect();
        }
        if strict { return out; }
    }
    if local {
        for ds in [None, Some(b'/'), Some(b'-')].iter() {
            for delim in [b" ", b"-", b"T"].iter() {
                for ts in [Some(b':'), None].iter() {
                    out.extend(read(t, strict, *ds, *delim, *ts, false));
                }
            }
        }
    }
    out.extend(with_offset(t, strict));
    out
}
/// the same for texts with an offset
pub fn with_offset(t: &[u8], strict: bool) -> Vec<u64> {
    let mut out = vec![];
    let with: &[u8] = if strict { b"T" } else { b"Tt" };
    out.extend(read(t, strict, Some(b'-'), with, Some(b':'), true));
    if !strict { out.extend(read(t, strict, Some(b'-'), b" ", Some(b':'), true)); }
    out
}
fn judge(t: &[u8]) {
    let zone = sx::flag("zone", 0);
    let tz = if zone { match ChopperTz::new_from_cli_arg(Some("UTC"), None) { Ok(z) => z, Err(_) => { sx::fail("UTC was refused"); return; } } } else { ChopperTz::new_always_fails() };
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match parse_datetime_range_element(s, &tz) {
        Ok(v) => {
            let mut ok = false;
            for r in readings(t, false, zone) { ok = sx::or(ok, r == v); }
            sx::check(ok, "a time was taken for another instant, or text that is no time was accepted");
            sx::cover("accepted");
        }
        Err(_) => {
            sx::check(readings(t, true, zone).is_empty(), "a valid time was refused");
            sx::cover("refused");
        }
    }
}
const DATES: [&str; 6] = ["2019", "201912", "20200229", "19700101", "1970", "255407"];
const LOCAL: [&str; 18] = ["20200229 12:34:56", "20200229-12:34:56", "20200229T12:34:56", "20191231 235959", "20191231-235959", "20191231T235959",
    "2020/02/29 00:00:60", "2020/02/29-123456", "2020/02/29T12:34:56", "2020-02-29 12:34:56", "2020-02-29-12:34:56", "2020-02-29T123456",
    "20200229-12:34:56.1", "2020-02-29 123456.123456789", "2100/02/28T12:34:56.000001", "1970-01-01T00:00:00.000000001", "2554-07-21T23:34:33.709551615", "20200229123456"];
const OFFSET: [&str; 8] = ["2020-02-29T12:34:56Z", "2020-02-29T12:34:56+01:30", "2020-02-29T12:34:56.123-05:00", "1970-01-01T00:29:59+00:30", "1969-12-31T23:30:00-00:30",
    "2554-07-22T00:34:33.709551615+01:00", "2020-12-31T23:59:60+23:59", "2020-02-29 12:34:56 +01:30"];
/// any one character of a base is any printable one
fn one(list: &[&str]) {
    sx::allow(sx::OPAQUE);
    let (t, _) = mutate("c", list[sx::choose("base", 0, list.len())]);
    judge(&t);
}
/// one character put in anywhere
fn insert(list: &[&str]) {
    sx::allow(sx::OPAQUE);
    let mut t = list[sx::choose("base", 0, list.len())].as_bytes().to_vec();
    let at = sx::choose("at", 0, t.len() + 1);
    let b = sx::byte("b", 0);
    sx::assume(sx::and(b >= b' ', b < 0x7f));
    t.insert(at, b);
    judge(&t);
}
/// one character taken out, or the rest cut off
fn shorter(list: &[&str]) {
    sx::allow(sx::OPAQUE);
    let mut t = list[sx::choose("base", 0, list.len())].as_bytes().to_vec();
    let at = sx::choose("at", 0, t.len());
    if sx::flag("cut", 0) { t.truncate(at); } else { t.remove(at); }
    // the last character left is any
    if let Some(c) = t.last_mut() {
        let b = sx::byte("b", 0);
        sx::assume(sx::and(b >= b' ', b < 0x7f));
        *c = b;
    }
    judge(&t);
}
/// every n characters
fn any(n: usize) {
    sx::allow(sx::OPAQUE);
    let t: Vec<u8> = (0..n).map(|i| { let b = sx::byte("t", i); sx::assume(sx::and(b >= b' ', b < 0x7f)); b }).collect();
    judge(&t);
}
/// every date of some years, digits free
fn digits(base: &str, free: &[usize]) {
    sx::allow(sx::OPAQUE);
    let mut t = base.as_bytes().to_vec();
    for i in free { let b = sx::byte("d", *i); sx::assume(sx::and(b >= b'0', b <= b'9')); t[*i] = b; }
    judge(&t);
}
harness! {
    h_dates { one(&DATES); }
    h_local { one(&LOCAL); }
    h_numbers { one(&AUTO); }
    h_offset { one(&OFFSET); }
    h_insert { let l: Vec<&str> = DATES[..3].iter().chain(&LOCAL[8..11]).chain(&LOCAL[13..14]).chain(&OFFSET[..2]).copied().collect(); insert(&l); }
    h_shorter { let l: Vec<&str> = DATES[..3].iter().chain(&LOCAL[8..11]).chain(&LOCAL[13..14]).chain(&OFFSET[..3]).copied().collect(); shorter(&l); }
    h_any_2 { any(2); }
    h_any_3 { any(3); }
    h_year { digits(&format!("201{}", sx::choose("last", 0, 10)), &[2]); }
    h_century { digits("2019", &[0, 1]); }
    h_day { let p = [[4, 5], [6, 7], [5, 7], [3, 7]]; digits("20200229", &p[sx::choose("pair", 0, 4)]); }
    h_clock { let p = [[9, 10], [12, 13], [15, 16], [10, 16]]; digits("20200229-12:34:56", &p[sx::choose("pair", 0, 4)]); }
    h_fraction { digits("2020-02-29T12:34:56.123456789Z", &[20, 24, 28]); }
    h_offset_digits { digits("2020-02-29T12:34:56+01:30", &[20, 21, 23, 24]); }
}
