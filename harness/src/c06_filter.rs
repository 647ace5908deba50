//! Row and column filters (C06).
use crate::kit::{boxed_source, chain, new_log, rows_at, same_value, Ev, Log, Rec, VecSource, run};
use crate::sx;
use chopper::chopper::chopper::{HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;

/// a value of kind k (0 missing) with arbitrary content
pub fn any_value(k: usize, tag: &str, i: usize) -> FieldValue {
    let tag = &format!("{}{}", tag, k);
    match k {
        0 => FieldValue::None,
        1 => FieldValue::Byte(sx::byte(tag, i)),
        2 => FieldValue::Char(sx::u16v(tag, i)),
        3 => FieldValue::Double(f64::from_bits(sx::u64v(tag, i))),
        4 => FieldValue::Float(f32::from_bits(sx::u32v(tag, i))),
        5 => FieldValue::Int(sx::u32v(tag, i) as i32),
        6 => FieldValue::Long(sx::u64v(tag, i) as i64),
        7 => FieldValue::Short(sx::u16v(tag, i) as i16),
        8 => FieldValue::String(any_string(tag, i, 2)),
        9 => FieldValue::Boolean(sx::flag(tag, i)),
        _ => FieldValue::ByteBuf(any_string(tag, i, 2).into_bytes()),
    }
}
/// one particular value of kind k
pub fn some_value(k: usize) -> FieldValue {
    match k {
        0 => FieldValue::None,
        1 => FieldValue::Byte(1),
        2 => FieldValue::Char(1),
        3 => FieldValue::Double(1.0),
        4 => FieldValue::Float(1.0),
        5 => FieldValue::Int(1),
        6 => FieldValue::Long(1),
        7 => FieldValue::Short(1),
        8 => FieldValue::String("1".to_string()),
        9 => FieldValue::Boolean(true),
        _ => FieldValue::ByteBuf(vec![1]),
    }
}
/// ASCII of up to max characters
pub fn any_string(tag: &str, i: usize, max: usize) -> String {
    let n = sx::choose(&format!("{}len", tag), i, max + 1);
    let mut v = Vec::new();
    for k in 0..n {
        let b = sx::byte(&format!("{}c", tag), i * 16 + k);
        sx::assume(b < 0x80);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn ty(k: usize) -> FieldType {
    [FieldType::String, FieldType::Byte, FieldType::Char, FieldType::Double, FieldType::Float, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String][k]
}
/// -1/0/1 by the natural order of two values of the same kind; 2 if they have none
fn order(a: &FieldValue, b: &FieldValue) -> i64 {
    fn c(lt: bool, gt: bool) -> i64 {
        sx::ite(lt, (-1i64) as u64, sx::ite(gt, 1, 0)) as i64
    }
    match (a, b) {
        (FieldValue::Byte(x), FieldValue::Byte(y)) => c(x < y, x > y),
        (FieldValue::Char(x), FieldValue::Char(y)) => c(x < y, x > y),
        (FieldValue::Int(x), FieldValue::Int(y)) => c(x < y, x > y),
        (FieldValue::Long(x), FieldValue::Long(y)) => c(x < y, x > y),
        (FieldValue::Short(x), FieldValue::Short(y)) => c(x < y, x > y),
        (FieldValue::Double(x), FieldValue::Double(y)) => sx::ite(sx::or(x.is_nan(), y.is_nan()), 2, c(x < y, x > y) as u64) as i64,
        (FieldValue::Float(x), FieldValue::Float(y)) => sx::ite(sx::or(x.is_nan(), y.is_nan()), 2, c(x < y, x > y) as u64) as i64,
        (FieldValue::String(x), FieldValue::String(y)) => bytes_order(x.as_bytes(), y.as_bytes()),
        (FieldValue::None, FieldValue::None) => 0,
        _ => 2,
    }
}
pub fn bytes_order(x: &[u8], y: &[u8]) -> i64 {
    let mut r = if x.len() < y.len() { -1i64 } else if x.len() > y.len() { 1 } else { 0 };
    for i in (0..x.len().min(y.len())).rev() {
        r = sx::ite(x[i] < y[i], (-1i64) as u64, sx::ite(x[i] > y[i], 1, r as u64)) as i64;
    }
    r
}

fn one_filter(kinds: &[usize], missing: bool) {
    let k = kinds[sx::choose("kind", 0, kinds.len())];
    let greater = sx::flag("greater", 0);
    let col = sx::choose("col", 0, 2);
    // the column's value may be missing, the filter's may not
    let vk = if missing { 0 } else { k };
    let value = any_value(vk, "v", 0);
    let limit = any_value(k, "w", 0);
    let other = FieldValue::Int(sx::u32v("other", 0) as i32);
    let fields = if col == 0 { vec![value.clone(), other.clone()] } else { vec![other.clone(), value.clone()] };
    let types = if col == 0 { vec![ty(k), FieldType::Int] } else { vec![FieldType::Int, ty(k)] };
    let ts = sx::u64v("ts", 0);
    let h = Header::new(vec!["a".to_string(), "b".to_string()], types);
    let name = ["a", "b"][col];
    let log = new_log();
    let f: Box<dyn HeaderSink> = if greater { RowFilterGreaterValue::new(name, limit.clone()) } else { RowFilterEqualValue::new(name, limit.clone()) };
    let r = run(vec![Box::new(VecSource::new(h, vec![Row { timestamp: ts, field_values: fields.clone() }]))],
        vec![chain(vec![HeaderNode::HeaderSink(f), Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "filtering failed");
    let o = order(&value, &limit);
    let pass = if greater { o == 1 } else { o == 0 };
    let out = rows_at(&log, 0);
    match out.len() {
        0 => { sx::check(!pass, "a matching row was dropped"); sx::cover("dropped"); }
        1 => {
            sx::check(pass, "a row that does not match was passed");
            sx::check(out[0].timestamp == ts && out[0].field_values.len() == 2 && same_value(&out[0].field_values[0], &fields[0])
                && same_value(&out[0].field_values[1], &fields[1]), "a passed row was changed");
            sx::cover("passed");
        }
        _ => sx::fail("a filter handed on more than one row"),
    }
}

/// names are letters of either case, chosen so that clashes are likely
fn any_name(tag: &str, i: usize, len: usize) -> String {
    let mut v = Vec::new();
    for k in 0..len {
        let b = sx::byte(tag, i * 8 + k);
        sx::assume(b < 0x80);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn lower(b: u8) -> u8 {
    sx::ite(sx::and(b >= b'A', b <= b'Z'), (b + 0) as u64 ^ 0x20, b as u64) as u8
}
fn same_name(a: &str, b: &str) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        r = sx::and(r, lower(x) == lower(y));
    }
    r
}
/// the first column with this name
fn find(names: &[String], want: &str) -> Option<usize> {
    (0..names.len()).find(|i| same_name(&names[*i], want))
}
fn header_of(log: &Log) -> Option<Header> {
    log.borrow().iter().find_map(|e| match e { Ev::Header(_, h) => Some(h.clone()), _ => None })
}

/// a chain of n filters over named columns, against a plain model of columns
fn chained(cols: usize, n: usize, name_len: usize) {
    let names: Vec<String> = (0..cols).map(|i| any_name("name", i, name_len)).collect();
    let types: Vec<FieldType> = [FieldType::Int, FieldType::String, FieldType::Double, FieldType::Long][..cols].to_vec();
    let vals: Vec<u32> = (0..cols).map(|i| sx::u32v("v", i)).collect();
    let log = new_log();
    let mut nodes = Vec::new();
    let mut steps = Vec::new();
    for j in 0..n {
        let kind = sx::choose("filter", j, 3);
        let want = any_name("want", j, name_len);
        let w = sx::u32v("w", j);
        let v = FieldValue::Int(w as i32);
        nodes.push(HeaderNode::HeaderSink(match kind {
            0 => ColumnFilterDelete::new(&want),
            1 => RowFilterEqualValue::new(&want, v),
            _ => RowFilterGreaterValue::new(&want, v),
        }));
        steps.push((kind, want, w));
    }
    nodes.push(Rec::node(0, &log));
    let ts = sx::u64v("ts", 0);
    let h = Header::new(names.clone(), types.clone());
    let row = Row { timestamp: ts, field_values: vals.iter().map(|v| FieldValue::Int(*v as i32)).collect() };
    let src: Vec<Box<dyn Source>> = vec![Box::new(VecSource::new(h.clone(), vec![row]))];
    let d = Driver::new(src, HeaderGraph::new(vec![chain(nodes)]), TIMESTAMP_RANGE_ALL, vec![h]);
    // model
    let mut cur: Vec<usize> = (0..cols).collect();
    let mut alive = true;
    let mut known = true;
    for (kind, want, w) in &steps {
        let cn: Vec<String> = cur.iter().map(|i| names[*i].clone()).collect();
        match find(&cn, want) {
            None => { known = false; break; }
            Some(i) => match kind {
                0 => { cur.remove(i); }
                1 => alive = sx::and(alive, vals[cur[i]] == *w),
                _ => alive = sx::and(alive, (vals[cur[i]] as i32) > (*w as i32)),
            },
        }
    }
    match d {
        Err(_) => { sx::check(!known, "a filter on an existing column was refused"); sx::cover("unknown name"); }
        Ok(mut d) => {
            sx::check(known, "a filter on an unknown column was accepted");
            if !known { return; }
            sx::check(chopper::chopper::chopper::ChopperDriver::drive(&mut d).is_ok(), "filtering failed");
            let got = header_of(&log).unwrap();
            sx::check(got.field_names().len() == cur.len() && got.field_types().len() == cur.len(), "wrong number of columns in the header");
            for (k, i) in cur.iter().enumerate() {
                let g = &got.field_names()[k];
                sx::check(got.field_types()[k] == types[*i], "column types are not those left, in order");
                sx::check(sx::eq_bytes(g.as_bytes(), names[*i].as_bytes()), "header columns are not those left, in order");
            }
            let out = rows_at(&log, 0);
            if out.is_empty() {
                sx::check(!alive, "a matching row was dropped");
            } else {
                sx::check(alive, "a row that does not match was passed");
                sx::check(out.len() == 1 && out[0].timestamp == ts && out[0].field_values.len() == cur.len(), "row has other columns than the header");
                for (v, i) in out[0].field_values.iter().zip(&cur) {
                    sx::check(same_value(v, &FieldValue::Int(vals[*i] as i32)), "row values are not in the columns of the header");
                }
                sx::cover("passed");
            }
        }
    }
}

/// several rows through one filter: each on its own
fn many_rows(n: usize) {
    let log = new_log();
    let limit = sx::u32v("w", 0) as i32;
    let mut rows = Vec::new();
    let mut vals = Vec::new();
    for k in 0..n {
        let v = sx::u32v("v", k) as i32;
        vals.push(v);
        rows.push(Row { timestamp: k as u64, field_values: vec![FieldValue::Int(v), FieldValue::Int(k as i32)] });
    }
    let f = if sx::flag("greater", 0) { (RowFilterGreaterValue::new("A", FieldValue::Int(limit)), 1) } else { (RowFilterEqualValue::new("A", FieldValue::Int(limit)), 0) };
    let r = run(vec![boxed_source(rows)], vec![chain(vec![HeaderNode::HeaderSink(f.0), Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "filtering failed");
    let out = rows_at(&log, 0);
    let mut next = 0;
    let keep = |v: i32| if f.1 == 1 { v > limit } else { v == limit };
    for r in out {
        let k = match r.field_values[1] { FieldValue::Int(k) => k as usize, _ => 99 };
        sx::check(k >= next && k < n, "rows reordered or repeated");
        for j in next..k { sx::check(!keep(vals[j]), "a matching row was dropped"); }
        sx::check(keep(vals[k]) && r.timestamp == k as u64, "a row that does not match was passed");
        next = k + 1;
    }
    for j in next..n { sx::check(!keep(vals[j]), "a matching row was dropped"); }
}

/// many columns and several filters, against the same model
fn wide() {
    let cols = [4, 7, 8, 9, 16, 17, 33, 65, 256][sx::choose("cols", 0, 9)];
    let n = [1, 2, 3, 9][sx::choose("filters", 0, 4)];
    let places = [0, 1, cols / 2, cols - 2, cols - 1];
    let names: Vec<String> = (0..cols).map(|i| format!("Column {}", i)).collect();
    let types: Vec<FieldType> = (0..cols).map(|i| if i % 3 == 0 { FieldType::Int } else if i % 3 == 1 { FieldType::Long } else { FieldType::String }).collect();
    let any = sx::u32v("v", 0);
    let p = places[sx::choose("place", 0, 5)];
    let vals: Vec<u32> = (0..cols).map(|i| if i == p { any } else { i as u32 }).collect();
    let log = new_log();
    let mut nodes = Vec::new();
    let mut steps = Vec::new();
    for j in 0..n {
        let (kind, at) = match j {
            0 => (sx::choose("filter", 0, 3), p),
            1 => (sx::choose("filter", 1, 3), places[sx::choose("place", 1, 5)]),
            _ => (0, (p + j * 3) % cols),
        };
        let want = if j % 2 == 0 { names[at].to_uppercase() } else { names[at].to_lowercase() };
        // those beyond the first hold for the value there
        let w = if j == 0 { sx::u32v("w", 0) } else if kind == 1 { at as u32 } else { (at as u32).wrapping_sub(1) };
        let v = FieldValue::Int(w as i32);
        nodes.push(HeaderNode::HeaderSink(match kind {
            0 => ColumnFilterDelete::new(&want),
            1 => RowFilterEqualValue::new(&want, v),
            _ => RowFilterGreaterValue::new(&want, v),
        }));
        steps.push((kind, at, w));
    }
    nodes.push(Rec::node(0, &log));
    let h = Header::new(names.clone(), types.clone());
    let row = Row { timestamp: 7, field_values: vals.iter().map(|v| FieldValue::Int(*v as i32)).collect() };
    let src: Vec<Box<dyn Source>> = vec![Box::new(VecSource::new(h.clone(), vec![row]))];
    let d = Driver::new(src, HeaderGraph::new(vec![chain(nodes)]), TIMESTAMP_RANGE_ALL, vec![h]);
    let mut cur: Vec<usize> = (0..cols).collect();
    let mut alive = true;
    let mut known = true;
    for (kind, at, w) in &steps {
        match cur.iter().position(|i| i == at) {
            None => { known = false; break; }
            Some(i) => match kind {
                0 => { cur.remove(i); }
                1 => alive = sx::and(alive, vals[cur[i]] == *w),
                _ => alive = sx::and(alive, (vals[cur[i]] as i32) > (*w as i32)),
            },
        }
    }
    match d {
        Err(_) => { sx::check(!known, "a filter on an existing column was refused"); sx::cover("unknown name"); }
        Ok(mut d) => {
            sx::check(known, "a filter on an unknown column was accepted");
            if !known { return; }
            sx::check(chopper::chopper::chopper::ChopperDriver::drive(&mut d).is_ok(), "filtering failed");
            let got = header_of(&log).unwrap();
            let wn: Vec<String> = cur.iter().map(|i| names[*i].clone()).collect();
            let wt: Vec<FieldType> = cur.iter().map(|i| types[*i].clone()).collect();
            sx::check(*got.field_names() == wn && *got.field_types() == wt, "header columns are not those left, in order");
            let out = rows_at(&log, 0);
            if out.is_empty() { sx::check(!alive, "a matching row was dropped"); return; }
            sx::check(alive, "a row that does not match was passed");
            sx::check(out.len() == 1 && out[0].timestamp == 7 && out[0].field_values.len() == cur.len(), "row has other columns than the header");
            for (v, i) in out[0].field_values.iter().zip(&cur) {
                sx::check(same_value(v, &FieldValue::Int(vals[*i] as i32)), "row values are not in the columns of the header");
            }
            sx::cover("passed");
        }
    }
}
/// two long strings that differ in at most one place
pub fn long_pair() -> (String, String) {
    let n = [3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1025][sx::choose("length", 0, 17)];
    let m = [n, n - 1, n + 1][sx::choose("other length", 0, 3)];
    let make = |n: usize| -> Vec<u8> { (0..n).map(|i| b'a' + (i % 23) as u8).collect() };
    let (mut a, mut b) = (make(n), make(m));
    // an é at the end of the part both have
    let least = n.min(m);
    let at = [0, 1, least / 2, least - 2, least - 1][sx::choose("at", 0, 5)];
    let (x, y) = (sx::byte("x", 0), sx::byte("y", 0));
    sx::assume(sx::and(x < 0x80, y < 0x80));
    a[at] = x;
    b[at] = y;
    if sx::flag("accents", 0) {
        // or two characters beyond ASCII there
        for v in [&mut a, &mut b].iter_mut() { v.splice(at..at + 1, vec![0xc3, 0x80 | v[at] & 0x3f]); }
    }
    unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) }
}
fn long_string() {
    let (value, limit) = long_pair();
    let greater = sx::flag("greater", 0);
    let log = new_log();
    let f: Box<dyn HeaderSink> = if greater { RowFilterGreaterValue::new("a", FieldValue::String(limit.clone())) } else { RowFilterEqualValue::new("a", FieldValue::String(limit.clone())) };
    let h = Header::new(vec!["a".to_string()], vec![FieldType::String]);
    let r = run(vec![Box::new(VecSource::new(h, vec![Row { timestamp: 1, field_values: vec![FieldValue::String(value.clone())] }]))],
        vec![chain(vec![HeaderNode::HeaderSink(f), Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "filtering failed");
    let o = bytes_order(value.as_bytes(), limit.as_bytes());
    let pass = if greater { o == 1 } else { o == 0 };
    if rows_at(&log, 0).is_empty() { sx::check(!pass, "a matching row was dropped"); sx::cover("dropped"); }
    else { sx::check(pass, "a row that does not match was passed"); sx::cover("passed"); }
}
/// many rows of which any one is any, and rows of missing values among them
fn rows_long() {
    let n = [8, 9, 16, 17, 33, 65, 257][sx::choose("rows", 0, 7)];
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose("at", 0, 5)];
    let any = sx::u32v("v", 0) as i32;
    let val = |k: usize| -> FieldValue { if k == at { FieldValue::Int(any) } else if k % 5 == 3 { FieldValue::None } else { FieldValue::Int((k % 4) as i32) } };
    let log = new_log();
    let greater = sx::flag("greater", 0);
    let f = if greater { RowFilterGreaterValue::new("A", FieldValue::Int(2)) } else { RowFilterEqualValue::new("A", FieldValue::Int(2)) };
    let rows = (0..n).map(|k| Row { timestamp: k as u64, field_values: vec![val(k), FieldValue::Int(k as i32)] }).collect();
    let r = run(vec![boxed_source(rows)], vec![chain(vec![HeaderNode::HeaderSink(f), Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "filtering failed");
    let out: Vec<usize> = rows_at(&log, 0).iter().map(|r| match r.field_values[1] { FieldValue::Int(k) => k as usize, _ => 9999 }).collect();
    let want: Vec<usize> = (0..n).filter(|k| *k != at && match val(*k) { FieldValue::Int(v) => if greater { v > 2 } else { v == 2 }, _ => false }).collect();
    sx::check(out.iter().filter(|k| **k != at).cloned().collect::<Vec<_>>() == want, "the rows passed are not those that match, in order");
    let here = out.iter().filter(|k| **k == at).count();
    sx::check(here == (if greater { any > 2 } else { any == 2 }) as usize, "a row was passed that does not match, or the other way round");
    sx::check(out.windows(2).all(|w| w[0] < w[1]), "rows reordered or repeated");
}
/// letters beyond ASCII in names have no case
fn accents() {
    let pairs = [("\u{c9}", "\u{e9}", false), ("\u{e9}x", "\u{e9}X", true), ("\u{212a}", "k", false), ("\u{130}", "i", false), ("\u{df}", "ss", false), ("\u{e9}", "e\u{301}", false), ("a ", "a", false), ("", "", true), ("\u{3a3}", "\u{3c3}", false)];
    let (name, want, same) = pairs[sx::choose("pair", 0, pairs.len())];
    let f: Box<dyn HeaderSink> = match sx::choose("filter", 0, 3) { 0 => ColumnFilterDelete::new(want), 1 => RowFilterEqualValue::new(want, FieldValue::Int(1)), _ => RowFilterGreaterValue::new(want, FieldValue::Int(0)) };
    let mut h = Header::new(vec!["first".to_string(), name.to_string()], vec![FieldType::Int, FieldType::Int]);
    sx::check(f.process_header(&mut h).is_ok() == same, "a filter's column is not the one of that name");
}

harness! {
    h_filter_wide { wide(); }
    h_filter_string_long { long_string(); }
    h_filter_rows_long { rows_long(); }
    h_filter_accents { accents(); }
    h_filter_int { one_filter(&[1, 2, 5, 6, 7], false); }
    h_filter_float { one_filter(&[3, 4], false); }
    h_filter_string { one_filter(&[8], false); }
    h_filter_missing { one_filter(&[1, 2, 3, 4, 5, 6, 7, 8], true); }
    h_filter_rows { many_rows(4); }
    h_filter_chain_1 { chained(3, 1, 2); }
    h_filter_chain_2 { chained(3, 2, 1); }
    h_filter_chain_3 { chained(3, 3, 1); }
}
