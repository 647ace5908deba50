//! Epoch timestamps (C13).
use crate::kit::Shim;
use crate::sx;
use chopper::chopper::chopper::Source;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::csv_source::CSVSource;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::timestamp_util::parse_datetime_range_element;
use chopper::util::tz::ChopperTz;
use std::io::Read;

pub const UNITS: [(TimestampUnits, u64); 4] =
    [(TimestampUnits::Seconds, 1_000_000_000), (TimestampUnits::Millis, 1_000_000), (TimestampUnits::Micros, 1_000), (TimestampUnits::Nanos, 1)];

/// the timestamps read from a file of these lines; None at the first error
pub fn times(lines: &[&[u8]], col: TimestampColConfig, fmt: TimestampFmtConfig, tz: ChopperTz) -> Vec<Option<u64>> {
    let mut text = vec![];
    for l in lines {
        text.extend_from_slice(l);
        text.push(b'\n');
    }
    let r: Box<dyn Read> = Box::new(Shim::new(text));
    let p = match ChopperBufPreviewer::new(r) { Ok(p) => p, Err(_) => { sx::fail("previewing failed"); unreachable!() } };
    let c = match CSVInputConfig::new(Some(","), YesNoAuto::Yes, TimestampConfig::new(col, fmt, tz)) { Ok(c) => c, Err(_) => { sx::fail("a valid configuration was refused"); unreachable!() } };
    let mut out = vec![];
    match CSVSource::new(p, &c) {
        Err(_) => out.push(None),
        Ok(mut s) => loop {
            match s.next_row() {
                Ok(Some(r)) => out.push(Some(r.timestamp)),
                Ok(None) => break,
                Err(_) => { out.push(None); break; }
            }
        },
    }
    out
}
/// the value of a decimal number without branching: whether it is one, and its value (saturating at 2^100)
pub fn number(t: &[u8]) -> (bool, u128) {
    let mut ok = true;
    let mut v = 0u128;
    for c in t {
        ok = sx::and(ok, sx::and(*c >= b'0', *c <= b'9'));
        v = v.wrapping_mul(10).wrapping_add((*c).wrapping_sub(b'0') as u128);
    }
    (ok && !t.is_empty(), v)
}
/// base with any one character of it replaced by any printable one
pub fn mutate(tag: &str, base: &str) -> (Vec<u8>, usize) {
    let mut t = base.as_bytes().to_vec();
    let at = sx::choose(&format!("{}at", tag), 0, t.len());
    let b = sx::byte(tag, 0);
    sx::assume(sx::and(sx::and(b >= b' ', b < 0x7f), sx::and(b != b',', b != b'"')));
    t[at] = b;
    (t, at)
}
fn trimmed(t: &[u8]) -> &[u8] {
    let mut t = t;
    while !t.is_empty() && t[0] == b' ' { t = &t[1..]; }
    while !t.is_empty() && t[t.len() - 1] == b' ' { t = &t[..t.len() - 1]; }
    t
}
/// decide one conversion: exact or refused
fn judge(t: &[u8], mult: u64, got: Option<u64>) {
    let t = trimmed(t);
    let plus = t.len() > 1 && t[0] == b'+';
    let (ok, v) = number(if plus { &t[1..] } else { t });
    let fits = v <= (u64::max_value() / mult) as u128;
    match got {
        Some(ts) => {
            sx::check(sx::and(ok, fits), "a timestamp that is no number or does not fit was accepted");
            sx::check(ts == (v as u64).wrapping_mul(mult), "a timestamp was converted to another instant");
            sx::cover("converted");
        }
        None => {
            if !plus { sx::check(!sx::and(ok, fits), "a valid timestamp was refused"); }
            sx::cover("refused");
        }
    }
}
const BASES: [&str; 14] = ["0", "7", "1600000000", "18446744073", "18446744074", "18446744073709", "18446744073710", "18446744073709551", "18446744073709552",
    "18446744073709551615", "18446744073709551616", "99999999999999999999", "000000000000000000000000012", "111111111111111111111"];
/// a configured unit
fn unit(first: bool) {
    sx::allow(sx::OPAQUE);
    let (u, mult) = UNITS[sx::choose("unit", 0, 4)];
    let (t, _) = mutate("c", BASES[sx::choose("base", 0, BASES.len())]);
    let good: &[u8] = b"3";
    let lines: Vec<&[u8]> = if first { vec![b"t", &t] } else { vec![b"t", good, &t] };
    // (a line that is empty once trimmed may not count as a row)
    sx::assume(!trimmed(&t).is_empty());
    let got = times(&lines, TimestampColConfig::Index(0), TimestampFmtConfig::Epoch(u), ChopperTz::new_always_fails());
    if first {
        sx::check(got.len() == 1, "not one row for one line");
    } else {
        // reading ahead may report the second line's error with the first row
        if got.len() == 2 { sx::check(got[0] == Some(3 * mult), "a timestamp was converted to another instant"); } else { sx::check(got.len() == 1 && got[0].is_none(), "not two rows for two lines"); }
    }
    judge(&t, mult, got[got.len() - 1]);
}
/// n arbitrary digits after any of the given ones
fn digits(before: &[&str], n: usize) {
    sx::allow(sx::OPAQUE);
    let (u, mult) = UNITS[sx::choose("unit", 0, 4)];
    let mut t: Vec<u8> = before[sx::choose("before", 0, before.len())].as_bytes().to_vec();
    let any: Vec<u8> = (0..n).map(|i| { let b = sx::byte("d", i); sx::assume(sx::and(b >= b'0', b <= b'9')); b }).collect();
    t.extend_from_slice(&any);
    let got = times(&[b"t", &t], TimestampColConfig::Index(0), TimestampFmtConfig::Epoch(u), ChopperTz::new_always_fails());
    let mut v = 0u64;
    for c in &t { v = v * 10 + ((*c as u32).wrapping_sub(48)) as u64; }
    let fits = v <= u64::max_value() / mult;
    match got[0] {
        Some(ts) => { sx::check(fits, "a timestamp that does not fit was accepted"); sx::check(ts == v.wrapping_mul(mult), "a timestamp was converted to another instant"); sx::cover("converted"); }
        None => { sx::check(!fits, "a valid timestamp was refused"); sx::cover("refused"); }
    }
}
pub const AUTO: [&str; 20] = ["0", "629999999", "630000000", "1999999999", "2000000000", "629999999999", "630000000000", "1999999999999", "2000000000000",
    "629999999999999", "630000000000000", "1999999999999999", "2000000000000000", "629999999999999999", "630000000000000000", "1999999999999999999",
    "2000000000000000000", "18446744073709551616", "12345678901", "1600000000"];
/// the unit a number's size stands for
pub fn range_of(v: u128) -> u64 {
    let r = [(630_000_000u128, 2_000_000_000u128, 1_000_000_000u64), (630_000_000_000, 2_000_000_000_000, 1_000_000), (630_000_000_000_000, 2_000_000_000_000_000, 1_000),
        (630_000_000_000_000_000, 2_000_000_000_000_000_000, 1)];
    let mut m = 0;
    for (lo, hi, k) in r.iter() {
        m = sx::ite(sx::and(v >= *lo, v < *hi), *k, m);
    }
    m
}
/// the unit chosen by magnitude, from the first row, and kept for the second
fn auto() {
    sx::allow(sx::OPAQUE);
    let (t, _) = mutate("c", AUTO[sx::choose("base", 0, AUTO.len())]);
    sx::assume(!trimmed(&t).is_empty());
    let two = sx::flag("second", 0);
    let lines: Vec<&[u8]> = if two { vec![b"x", &t, b"12345"] } else { vec![b"x", &t] };
    let got = times(&lines, TimestampColConfig::Index(0), TimestampFmtConfig::Auto, ChopperTz::new_always_fails());
    let (ok, v) = number(trimmed(&t));
    let m = range_of(v);
    match got[0] {
        Some(ts) => {
            sx::check(sx::and(ok, m != 0), "a time outside all ranges was accepted");
            sx::check(ts == (v as u64).wrapping_mul(m), "a timestamp was converted to another instant");
            if two { sx::check(got.len() == 2 && got[1] == Some(12345u64.wrapping_mul(m)), "the unit changed between rows"); }
            sx::cover("converted");
        }
        None => { sx::check(!sx::and(ok, m != 0), "a valid timestamp was refused"); sx::cover("refused"); }
    }
}
/// the same for begin and end arguments (numbers that are no date either)
fn argument() {
    sx::allow(sx::OPAQUE);
    let (t, _) = mutate("c", AUTO[sx::choose("base", 0, AUTO.len())]);
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let (ok, v) = number(&t);
    let m = range_of(v);
    match parse_datetime_range_element(s, &ChopperTz::new_always_fails()) {
        Ok(ts) => {
            sx::check(sx::and(ok, m != 0), "a time outside all ranges was accepted");
            sx::check(ts == (v as u64).wrapping_mul(m), "a timestamp was converted to another instant");
            sx::cover("converted");
        }
        Err(_) => { sx::check(!sx::and(ok, m != 0), "a valid timestamp was refused"); sx::cover("refused"); }
    }
}
/// one of many rows, converted with the unit given or found in the first
fn far() {
    sx::allow(sx::OPAQUE);
    let n = [3, 130, 400][sx::choose("rows", 0, 3)];
    let at = [2, n / 2, n - 1][sx::choose("row", 0, 3)];
    let (u, mult) = UNITS[sx::choose("unit", 0, 4)];
    let auto = sx::flag("auto", 0);
    let (t, _) = mutate("c", ["18446744073", "18446744073709551615", "12345", "18446744073709551616"][sx::choose("base", 0, 4)]);
    sx::assume(!trimmed(&t).is_empty());
    let first = 1_600_000_000u64 * (1_000_000_000 / mult);
    let mut lines: Vec<Vec<u8>> = vec![b"t".to_vec()];
    for i in 0..n { lines.push(if i == at { t.clone() } else { (first + i as u64).to_string().into_bytes() }); }
    let l: Vec<&[u8]> = lines.iter().map(|v| &v[..]).collect();
    let got = times(&l, TimestampColConfig::Index(0), if auto { TimestampFmtConfig::Auto } else { TimestampFmtConfig::Epoch(u) }, ChopperTz::new_always_fails());
    sx::check(got.len() == n || (!got.is_empty() && got[got.len() - 1].is_none()), "rows were lost");
    for (i, g) in got.iter().enumerate() {
        if i == at { judge(&t, mult, *g); continue; }
        match g {
            Some(g) => sx::check(*g == (first + i as u64).wrapping_mul(mult), "a timestamp was converted to another instant"),
            // reading ahead may report the error of the next line
            None => {
                sx::check(i + 1 == at, "a valid timestamp was refused");
                judge(&t, mult, None);
            }
        }
    }
}
harness! {
    h_unit_far { far(); }
    h_unit_first { unit(true); }
    h_unit_later { unit(false); }
    h_digits_4 { digits(&[""], 4); }
    h_digits_7 { digits(&[""], 7); }
    h_digits_near { digits(&["18446744", "18446744073", "18446744073709", "1844674407370955"], 3); }
    h_auto { auto(); }
    h_argument { argument(); }
}
