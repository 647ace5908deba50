//! The choice of the timestamp column and unit (C14).
use crate::c13_epoch::{times, UNITS};
use crate::sx;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::util::tz::ChopperTz;

const WORDS: [(&str, u64); 4] = [("seconds", 1_000_000_000), ("millis", 1_000_000), ("micros", 1_000), ("nanos", 1)];

/// what a column name is: a prefix and the kind of word behind it
#[derive(Clone, PartialEq)]
enum Kind { Unit(Vec<u8>, u64), Date(Vec<u8>), Time(Vec<u8>), Other }
fn lower(name: &[u8]) -> Vec<u8> {
    name.iter().map(|b| sx::ite(sx::and(*b >= b'A', *b <= b'Z'), (*b).wrapping_add(32) as u64, *b as u64) as u8).collect()
}
fn ends(name: &[u8], word: &[u8]) -> Option<Vec<u8>> {
    if name.len() < word.len() { return None; }
    let k = name.len() - word.len();
    if sx::eq_bytes(&name[k..], word) { Some(name[..k].to_vec()) } else { None }
}
fn kind(name: &[u8]) -> Kind {
    let n = lower(name);
    for (w, u) in WORDS.iter() {
        let mut t = b"time".to_vec();
        t.extend_from_slice(w.as_bytes());
        if let Some(p) = ends(&n, &t) { return Kind::Unit(p, *u); }
    }
    if let Some(p) = ends(&n, b"date") { return Kind::Date(p); }
    if let Some(p) = ends(&n, b"time") { return Kind::Time(p); }
    Kind::Other
}
/// the columns the documented priority chooses: (column, time column joined to it, unit)
#[derive(Clone, PartialEq, Debug)]
struct Pick { col: usize, time: Option<usize>, unit: Option<u64> }
/// None where the documentation does not say
fn pick(names: &[Vec<u8>]) -> Option<Pick> {
    let k: Vec<Kind> = names.iter().map(|n| kind(n)).collect();
    for n in names {
        // a prefix that itself begins with time leaves the kind open
        let l = lower(n);
        if l.len() >= 8 && sx::eq_bytes(&l[..4], b"time") { match kind(n) { Kind::Unit(p, _) => if !p.is_empty() { return None; }, Kind::Other => {}, _ => return None } }
    }
    let one = |col, unit| Some(Pick { col, time: None, unit });
    for (i, x) in k.iter().enumerate() { if let Kind::Unit(p, u) = x { if p.is_empty() { return one(i, Some(*u)); } } }
    let date = k.iter().position(|x| if let Kind::Date(p) = x { p.is_empty() } else { false });
    let time = k.iter().position(|x| if let Kind::Time(p) = x { p.is_empty() } else { false });
    if let Some(d) = date { return Some(Pick { col: d, time, unit: None }); }
    if let Some(t) = time { return one(t, None); }
    for (i, x) in k.iter().enumerate() { if let Kind::Unit(_, u) = x { return one(i, Some(*u)); } }
    let date = k.iter().position(|x| if let Kind::Date(_) = x { true } else { false });
    if let Some(d) = date {
        let dp = if let Kind::Date(p) = &k[d] { p.clone() } else { unreachable!() };
        let mut first = true;
        for (i, x) in k.iter().enumerate() {
            if let Kind::Time(p) = x {
                if p.len() == dp.len() && sx::eq_bytes(p, &dp) {
                    // a further one with this prefix, behind one with another: not said
                    if !first { return None; }
                    return Some(Pick { col: d, time: Some(i), unit: None });
                }
                first = false;
            }
        }
        // dates with another prefix could be paired: not said
        for x in k.iter() {
            if let Kind::Time(p) = x {
                for y in k.iter() { if let Kind::Date(q) = y { if p.len() == q.len() && sx::eq_bytes(p, q) { return None; } } }
            }
        }
        return one(d, None);
    }
    let time = k.iter().position(|x| if let Kind::Time(_) = x { true } else { false });
    if let Some(t) = time { return one(t, None); }
    one(0, None)
}
fn header(names: &[Vec<u8>]) -> Vec<u8> {
    let mut h = vec![];
    for (i, n) in names.iter().enumerate() {
        if i > 0 { h.push(b','); }
        h.extend_from_slice(n);
    }
    h
}
/// numbers telling column and unit apart
fn numbers(n: usize) -> Vec<u8> {
    (0..n).map(|i| format!("{}", 1_000_000_007 + i)).collect::<Vec<_>>().join(",").into_bytes()
}
/// date and time of day in each column
fn clocks(date: &[bool]) -> Vec<u8> {
    date.iter().enumerate().map(|(i, d)| if *d { format!("2020010{}", i + 1) } else { format!("03:0{}:00", i + 1) }).collect::<Vec<_>>().join(",").into_bytes()
}
const DAY: u64 = 86_400 * 1_000_000_000;
const JAN1: u64 = 18_262 * DAY;
/// what is read when the columns are the picked ones
fn expect_clocks(date: &[bool], p: &Pick) -> Option<u64> {
    if p.unit.is_some() || !date[p.col] { return None; }
    let d = JAN1 + p.col as u64 * DAY;
    match p.time {
        None => Some(d),
        Some(t) if date[t] => None,
        Some(t) => Some(d + (3 * 3600 + (t as u64 + 1) * 60) * 1_000_000_000),
    }
}
fn utc() -> ChopperTz {
    match ChopperTz::new_from_cli_arg(Some("UTC"), None) { Ok(z) => z, Err(_) => { sx::fail("UTC was refused"); unreachable!() } }
}
fn compare(names: &[Vec<u8>], col: TimestampColConfig, p: &Pick) {
    let h = header(names);
    if sx::flag("clocks", 0) {
        let date: Vec<bool> = names.iter().map(|n| if let Kind::Date(_) = kind(n) { true } else { false }).collect();
        let got = times(&[&h, &clocks(&date)], col, TimestampFmtConfig::Auto, utc());
        sx::check(got.len() == 1, "not one row for one line");
        sx::check(got[0] == expect_clocks(&date, p), "another column or unit was chosen");
        if p.time.is_some() { sx::cover("date and time"); }
    } else {
        let got = times(&[&h, &numbers(names.len())], col, TimestampFmtConfig::Auto, utc());
        sx::check(got.len() == 1, "not one row for one line");
        let want = if p.time.is_some() { None } else { Some((1_000_000_007 + p.col as u64) * p.unit.unwrap_or(1_000_000_000)) };
        sx::check(got[0] == want, "another column or unit was chosen");
        sx::cover("number");
    }
}
/// the letters of a name in any case
fn any_case(tag: &str, name: &str) -> Vec<u8> {
    name.bytes().enumerate().map(|(i, c)| {
        if !c.is_ascii_lowercase() { return c; }
        let b = sx::byte(tag, i);
        sx::assume(sx::or(b == c, b == c - 32));
        b
    }).collect()
}
const NAMES: [&str; 14] = ["x", "time", "date", "timeseconds", "timemillis", "timemicros", "timenanos", "adate", "atime", "bdate", "btime", "atimemicros", "btimenanos", "price"];
const FEW: [&str; 8] = ["x", "time", "date", "timemillis", "adate", "atime", "btimenanos", "btime"];

/// words that occur twice, or hide others
const TWICE: [&str; 10] = ["x", "time", "adate", "atimetimemillis", "datetimemicros", "adatetime", "atimedate", "bsecondstimenanos", "atimesecondstimemillis", "atimes"];

/// any case of the letters of any n names
fn auto(list: &[&str], n: usize) {
    sx::allow(sx::OPAQUE);
    let names: Vec<Vec<u8>> = (0..n).map(|i| {
        let k = sx::choose("name", i, list.len());
        any_case(["p", "q", "r", "s"][i], list[k])
    }).collect();
    if let Some(p) = pick(&names) { compare(&names, TimestampColConfig::Auto, &p); }
}
/// one letter of one name is any other
fn near() {
    sx::allow(sx::OPAQUE);
    let mut names: Vec<Vec<u8>> = (0..2).map(|i| NAMES[sx::choose("name", i, NAMES.len())].as_bytes().to_vec()).collect();
    let c = sx::choose("column", 0, 2);
    let at = sx::choose("at", 0, names[c].len());
    let b = sx::byte("b", 0);
    sx::assume(sx::or(sx::and(b >= b'a', b <= b'z'), sx::and(b >= b'A', b <= b'Z')));
    names[c][at] = b;
    if let Some(p) = pick(&names) { compare(&names, TimestampColConfig::Auto, &p); }
}
/// a date and a time column behind prefixes of any characters, which belong together if the prefixes are the same
fn prefixes() {
    sx::allow(sx::OPAQUE);
    let part = |tag: &str, i: usize, word: &[u8]| {
        let n = sx::choose("length", i, 3);
        let mut v: Vec<u8> = (0..n).map(|k| {
            let b = sx::byte(tag, k);
            sx::assume(sx::and(sx::and(b > b' ', b < 0x7f), sx::and(b != b',', b != b'"')));
            b
        }).collect();
        v.extend_from_slice(word);
        v
    };
    let mut names = vec![part("p", 0, b"date"), part("q", 1, b"Time"), b"x".to_vec()];
    match sx::choose("order", 0, 3) { 0 => {} 1 => names.swap(0, 1), _ => names.rotate_right(1) }
    if let Some(p) = pick(&names) { compare(&names, TimestampColConfig::Auto, &p); }
}
/// a configured position, there or not
fn index() {
    sx::allow(sx::OPAQUE);
    let names: Vec<Vec<u8>> = ["x", "y", "z"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let i = sx::u64v("index", 0) as usize;
    let got = times(&[&header(&names), &numbers(3)], TimestampColConfig::Index(i), TimestampFmtConfig::Epoch(UNITS[0].0), ChopperTz::new_always_fails());
    sx::check(got.len() == 1, "not one row for one line");
    match got[0] {
        Some(t) => {
            sx::check(i < 3, "a column that does not exist was read");
            sx::check(t == (1_000_000_007 + i as u64).wrapping_mul(1_000_000_000), "another column was used than the one given");
            sx::cover("there");
        }
        None => { sx::check(i >= 3, "a column that exists was refused"); sx::cover("missing"); }
    }
}
/// configured positions of date and time, there or not
fn indices() {
    sx::allow(sx::OPAQUE);
    let date = [true, false, true, false];
    let d = sx::u64v("date", 0) as usize;
    let t = sx::u64v("time", 0) as usize;
    let names: Vec<Vec<u8>> = ["x", "y", "z", "w"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let got = times(&[&header(&names), &clocks(&date)], TimestampColConfig::DateTimeIndex(d, t), TimestampFmtConfig::Auto, utc());
    sx::check(got.len() == 1, "not one row for one line");
    let valid = sx::and(sx::or(d == 0, d == 2), sx::or(t == 1, t == 3));
    match got[0] {
        Some(ts) => {
            sx::check(valid, "columns that do not exist were read");
            sx::check(ts == JAN1.wrapping_add((d as u64).wrapping_mul(DAY)).wrapping_add((3 * 3600u64).wrapping_add((t as u64).wrapping_add(1).wrapping_mul(60)).wrapping_mul(1_000_000_000)), "other columns were used than the ones given");
            sx::cover("there");
        }
        None => { sx::check(!valid, "columns that exist were refused"); sx::cover("missing"); }
    }
}
/// a configured name of one character
fn name() {
    sx::allow(sx::OPAQUE);
    let h: Vec<u8> = (0..3).map(|i| { let b = sx::byte("h", i); sx::assume(sx::and(b >= b'a', b <= b'z')); b }).collect();
    let names: Vec<Vec<u8>> = h.iter().map(|b| vec![*b]).collect();
    let b = sx::byte("b", 0);
    sx::assume(sx::and(b >= b'a', b <= b'z'));
    let n = unsafe { String::from_utf8_unchecked(vec![b]) };
    let got = times(&[&header(&names), &numbers(3)], TimestampColConfig::Name(n), TimestampFmtConfig::Epoch(UNITS[0].0), ChopperTz::new_always_fails());
    sx::check(got.len() == 1, "not one row for one line");
    let at = sx::ite(b == h[0], 0, sx::ite(b == h[1], 1, sx::ite(b == h[2], 2, 3)));
    match got[0] {
        Some(t) => { sx::check(at < 3, "a column that does not exist was read"); sx::check(t == (1_000_000_007 + at).wrapping_mul(1_000_000_000), "another column was used than the one given"); sx::cover("there"); }
        None => { sx::check(at == 3, "a column that exists was refused"); sx::cover("missing"); }
    }
}
/// configured names of date and time columns
fn names() {
    sx::allow(sx::OPAQUE);
    let cols = ["x", "y", "z", "w"];
    let date = [true, false, true, false];
    let names: Vec<Vec<u8>> = cols.iter().map(|s| s.as_bytes().to_vec()).collect();
    let pickn = |tag: &str| { let b = sx::byte(tag, 0); sx::assume(sx::and(b >= b'a', b <= b'z')); b };
    let (d, t) = (pickn("date"), pickn("time"));
    let s = |b: u8| unsafe { String::from_utf8_unchecked(vec![b]) };
    let got = times(&[&header(&names), &clocks(&date)], TimestampColConfig::DateTimeName(s(d), s(t)), TimestampFmtConfig::Auto, utc());
    sx::check(got.len() == 1, "not one row for one line");
    let di = sx::ite(d == b'x', 0, sx::ite(d == b'z', 2, 9));
    let ti = sx::ite(t == b'y', 1, sx::ite(t == b'w', 3, 9));
    match got[0] {
        Some(ts) => {
            sx::check(sx::and(di < 9, ti < 9), "columns that do not exist were read");
            sx::check(ts == JAN1.wrapping_add(di.wrapping_mul(DAY)).wrapping_add((3 * 3600u64).wrapping_add(ti.wrapping_add(1).wrapping_mul(60)).wrapping_mul(1_000_000_000)), "other columns were used than the ones given");
            sx::cover("there");
        }
        None => { sx::check(!sx::and(di < 9, ti < 9), "columns that exist were refused"); sx::cover("missing"); }
    }
}
/// candidates anywhere among many columns
fn wide() {
    sx::allow(sx::OPAQUE);
    let n = [5, 33, 65, 300][sx::choose("columns", 0, 4)];
    let places = [0, 1, n / 2, n - 2, n - 1];
    let mut names: Vec<Vec<u8>> = (0..n).map(|i| format!("col{}", i).into_bytes()).collect();
    let a = sx::choose("first", 0, 5);
    let b = sx::choose("second", 0, 5);
    if a == b { return; }
    names[places[a]] = any_case("p", FEW[sx::choose("name", 0, FEW.len())]);
    names[places[b]] = FEW[sx::choose("name", 1, FEW.len())].as_bytes().to_vec();
    if let Some(p) = pick(&names) {
        let h = header(&names);
        let date: Vec<bool> = names.iter().map(|n| if let Kind::Date(_) = kind(n) { true } else { false }).collect();
        let line = if sx::flag("clocks", 0) {
            // every column tells another minute or day
            date.iter().enumerate().map(|(i, d)| if *d { format!("2020{:02}{:02}", 1 + i / 28, i % 28 + 1) } else { format!("{:02}:{:02}:00", i / 60, i % 60) }).collect::<Vec<_>>().join(",").into_bytes()
        } else { numbers(n) };
        let got = times(&[&h, &line], TimestampColConfig::Auto, TimestampFmtConfig::Auto, utc());
        sx::check(got.len() == 1, "not one row for one line");
        let want = if sx::flag("clocks", 0) {
            const DAYS: [u64; 12] = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335];
            if p.unit.is_some() || !date[p.col] { None } else {
                let d = JAN1 + (DAYS[p.col / 28] + (p.col % 28) as u64) * DAY;
                match p.time {
                    None => Some(d),
                    Some(t) if date[t] => None,
                    Some(t) => Some(d + t as u64 * 60 * 1_000_000_000),
                }
            }
        } else if p.time.is_some() { None } else { Some((1_000_000_007 + p.col as u64) * p.unit.unwrap_or(1_000_000_000)) };
        sx::check(got[0] == want, "another column or unit was chosen");
        sx::cover("wide");
    }
}
harness! {
    h_auto_wide { wide(); }
    h_auto_2 { auto(&NAMES, 2); }
    h_auto_3 { auto(&FEW, 3); }
    h_auto_4 { auto(&FEW, 4); }
    h_auto_twice { auto(&TWICE, 2); }
    h_near { near(); }
    h_prefixes { prefixes(); }
    h_index { index(); }
    h_indices { indices(); }
    h_name { name(); }
    h_names { names(); }
}
