//! The binary format: what is written reads back (C08), malformed input is refused (C09).
use crate::c06_filter::any_value;
use crate::kit::{same_value, Shim};
use crate::sx;
use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::source::dc_source::DCSource;
use chopper::write::dc_sink::DCSink;

const TYPES: [FieldType; 9] = [FieldType::String, FieldType::Byte, FieldType::Char, FieldType::Double, FieldType::Float, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String];

fn write(header: &Header, rows: &[Row]) -> Vec<u8> {
    let path = "o.dc".to_string();
    let sink: Box<dyn HeaderSink> = match DCSink::new(&Some(path.clone())) {
        Ok(s) => Box::new(s),
        Err(_) => { sx::fail("cannot create the output"); unreachable!() }
    };
    let mut sink: Box<dyn DataSink> = match sink.process_header(&mut header.clone()) {
        Ok(s) => s,
        Err(_) => { sx::fail("writing a valid header failed"); unreachable!() }
    };
    for r in rows {
        let mut v = vec![r.clone()];
        sx::check(sink.write_row(&mut v).is_ok(), "writing a valid row failed");
        sx::check(v.len() == 1, "the sink changed the number of rows");
    }
    sx::check(sink.flush().is_ok(), "flushing failed");
    std::fs::read(&path).unwrap_or_default()
}
fn compare(data: Vec<u8>, step: usize, header: &Header, rows: &[Row]) {
    let mut src = match DCSource::new(Shim::step(data, step)) {
        Ok(s) => s,
        Err(_) => { sx::fail("what was written cannot be opened"); return; }
    };
    {
        let h = Source::header(&src);
        sx::check(h.field_names().len() == header.field_names().len() && h.field_types().len() == header.field_types().len(), "number of columns changed");
        for (a, b) in h.field_names().iter().zip(header.field_names()) {
            sx::check(sx::eq_bytes(a.as_bytes(), b.as_bytes()), "a column name changed");
        }
        for (a, b) in h.field_types().iter().zip(header.field_types()) {
            sx::check(a == b, "a column type changed");
        }
    }
    for r in rows {
        match Source::next_row(&mut src) {
            Ok(Some(g)) => {
                sx::check(g.timestamp == r.timestamp, "a timestamp changed");
                sx::check(g.field_values.len() == r.field_values.len(), "a row's number of values changed");
                for (a, b) in g.field_values.iter().zip(&r.field_values) {
                    sx::check(same_value(a, b), "a value changed");
                }
            }
            Ok(None) => sx::fail("a row was lost"),
            Err(_) => sx::fail("what was written cannot be read"),
        }
    }
    match Source::next_row(&mut src) {
        Ok(None) => {}
        Ok(Some(_)) => sx::fail("a row appeared from nowhere"),
        Err(_) => sx::fail("the end of the rows is an error"),
    }
}
fn names(n: usize, len: usize) -> Vec<String> {
    (0..n).map(|i| {
        let mut v = Vec::new();
        for k in 0..len {
            let b = sx::byte("name", i * 8 + k);
            sx::assume(b < 0x80);
            v.push(b);
        }
        unsafe { String::from_utf8_unchecked(v) }
    }).collect()
}

fn kinds(cols: usize, rows: usize) {
    let ks: Vec<usize> = (0..cols).map(|i| 1 + sx::choose("kind", i, 8)).collect();
    let h = Header::new(names(cols, 2), ks.iter().map(|k| TYPES[*k]).collect());
    let rs: Vec<Row> = (0..rows).map(|r| Row {
        timestamp: sx::u64v("ts", r),
        field_values: ks.iter().enumerate().map(|(i, k)| {
            let missing = sx::flag("missing", r * 8 + i);
            if missing { FieldValue::None } else { any_value(*k, "v", r * 8 + i) }
        }).collect(),
    }).collect();
    let d = write(&h, &rs);
    sx::observe_bytes("file", &d);
    compare(d, 0, &h, &rs);
    sx::cover("read back");
}

fn wide() {
    // numbers of columns around the sizes of the null bitset, any one column (or none, or all) missing
    let n = [0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 64, 65][sx::choose("columns", 0, 13)];
    let m = sx::choose("missing", 0, n + 2);
    let h = Header::new((0..n).map(|i| format!("c{}", i)).collect(), vec![FieldType::Short; n]);
    let row = |r: usize, m: usize| Row {
        timestamp: sx::u64v("ts", r),
        field_values: (0..n).map(|i| if i == m || m == n + 1 { FieldValue::None } else { FieldValue::Short(sx::u16v("v", r * 128 + i) as i16) }).collect(),
    };
    let rs = vec![row(0, m), row(1, n), row(2, if m < n { n - 1 - m } else { m })];
    let d = write(&h, &rs);
    compare(d, 0, &h, &rs);
}
fn some_missing(n: usize) {
    // any set of missing columns
    let h = Header::new((0..n).map(|i| format!("c{}", i)).collect(), vec![FieldType::Byte; n]);
    let rs = vec![Row { timestamp: 5, field_values: (0..n).map(|i| if sx::flag("missing", i) { FieldValue::None } else { FieldValue::Byte(sx::byte("v", i)) }).collect() }];
    let d = write(&h, &rs);
    compare(d, 1, &h, &rs);
}
fn strings(sizes: &[usize]) {
    let n = sizes[sx::choose("size", 0, sizes.len())];
    let mut v = vec![b'x'; n];
    for i in 0..n.min(3) {
        v[i] = sx::byte("first", i);
        sx::assume(v[i] < 0x80);
    }
    for i in 0..n.saturating_sub(3).min(3) {
        v[n - 1 - i] = sx::byte("last", i);
        sx::assume(v[n - 1 - i] < 0x80);
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let h = Header::new(vec!["s".to_string(), "k".to_string()], vec![FieldType::String, FieldType::Int]);
    let rs = vec![Row { timestamp: 1, field_values: vec![FieldValue::String(s), FieldValue::Int(sx::u32v("k", 0) as i32)] },
                  Row { timestamp: 2, field_values: vec![FieldValue::None, FieldValue::Int(7)] }];
    let d = write(&h, &rs);
    compare(d, 0, &h, &rs);
    if n > 40000 { sx::cover("long"); }
}
fn unicode() {
    let v = sx::bytes("u", 4);
    if let Ok(s) = String::from_utf8(v) {
        let h = Header::new(vec![s.clone(), "s".to_string()], vec![FieldType::String, FieldType::String]);
        let rs = vec![Row { timestamp: 1, field_values: vec![FieldValue::String(s.clone()), FieldValue::String(s)] }];
        let d = write(&h, &rs);
        compare(d, 0, &h, &rs);
        sx::cover("utf8");
    }
}
fn unsupported() {
    // kinds the format has no encoding for are errors
    let buf = sx::flag("bytebuf", 0);
    let (t, v) = if buf { (FieldType::ByteBuf, FieldValue::ByteBuf(vec![1])) } else { (FieldType::Boolean, FieldValue::Boolean(true)) };
    let mk = || DCSink::new(&Some("o.dc".to_string()));
    let bad = Header::new(vec!["a".to_string()], vec![t]);
    if let Ok(s) = mk() {
        sx::check(Box::new(s).process_header(&mut bad.clone()).is_err(), "an unsupported column type was written");
    }
    let good = Header::new(vec!["a".to_string()], vec![FieldType::Int]);
    if let Ok(s) = mk() {
        if let Ok(mut s) = Box::new(s).process_header(&mut good.clone()) {
            sx::check(s.write_row(&mut vec![Row { timestamp: 1, field_values: vec![v] }]).is_err(), "an unsupported value was written");
        }
    }
    let odd = Header::new(vec!["a".to_string(), "b".to_string()], vec![FieldType::Int]);
    if let Ok(s) = mk() {
        sx::check(Box::new(s).process_header(&mut odd.clone()).is_err(), "a header with fewer types than names was written");
    }
}

// ---- C09

/// drain a source: rows, and how it ended
fn drain<R: std::io::Read>(r: R, max: usize) -> (usize, bool) {
    sx::allow(sx::OPAQUE);
    let mut src = match DCSource::new(r) { Ok(s) => s, Err(_) => { sx::cover("refused"); return (0, false) } };
    let cols = Source::header(&src).field_names().len();
    sx::check(Source::header(&src).field_types().len() == cols, "header with names and types of different number");
    let mut n = 0;
    loop {
        match Source::next_row(&mut src) {
            Ok(Some(r)) => {
                sx::check(r.field_values.len() == cols, "a row with another number of values than columns");
                n += 1;
                sx::check(n <= max, "more rows than the input has room for");
                if n > max { return (n, false); }
                sx::cover("row");
            }
            Ok(None) => { sx::cover("end"); return (n, true); }
            Err(_) => { sx::cover("error"); return (n, false); }
        }
    }
}
fn be(v: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect()
}
/// the format, written down independently
pub fn encode_header(cols: &[(&str, &str)]) -> Vec<u8> {
    let mut d = be(0x44434154, 8);
    d.extend(be(2, 2));
    d.extend(be(0, 4));
    d.extend(be(cols.len() as u64, 4));
    for (n, t) in cols {
        d.extend(be(n.len() as u64, 4));
        d.extend(n.as_bytes());
        d.extend(be(t.len() as u64, 4));
        d.extend(t.as_bytes());
        d.extend(be(0xffff_ffff, 4));
    }
    d
}
fn any_input(max: usize) {
    let n = sx::choose("len", 0, max + 1);
    let d = sx::bytes("b", n);
    drain(Shim::new(d), 1);
}
fn any_after_magic(max: usize) {
    let mut d = be(0x44434154, 8);
    d.extend(be(2, 2));
    let n = sx::choose("len", 0, max + 1);
    d.extend(sx::bytes("b", n));
    drain(Shim::new(d), n);
}
fn any_columns(one: bool, max: usize) {
    // one column with arbitrary descriptor bytes, then rows
    let mut d = be(0x44434154, 8);
    d.extend(be(2, 2));
    d.extend(be(0, 4));
    if one { d.extend(be(1, 4)); }
    let n = sx::choose("len", 0, max + 1);
    d.extend(sx::bytes("b", n));
    drain(Shim::new(d), n);
}
fn any_rows(cols: &[(&str, &str)], max: usize) {
    let mut d = encode_header(cols);
    let n = sx::choose("len", 0, max + 1);
    d.extend(sx::bytes("b", n));
    drain(Shim::new(d), n / 9 + 1);
}
/// two rows of any content; cut anywhere, or failing there
fn cut(fails: bool) {
    let mut d = encode_header(&[("a", "Ljava.lang.String;"), ("b", "I"), ("", "D")]);
    let mut rows = Vec::new();
    let mut starts = vec![];
    for r in 0..2 {
        starts.push(d.len());
        let ts = sx::u64v("ts", r);
        let miss = sx::choose("missing", r, 8);
        let len = sx::choose("strlen", r, 2) * 2;
        d.extend(be(ts, 8));
        d.push(miss as u8);
        let s: Vec<u8> = (0..len).map(|i| { let b = sx::byte("s", r * 8 + i); sx::assume(b < 0x80); b }).collect();
        let i = sx::u32v("i", r);
        let x = sx::u64v("d", r);
        let mut v = vec![FieldValue::None, FieldValue::None, FieldValue::None];
        if miss & 1 == 0 {
            d.extend(be(len as u64, 2));
            d.extend(&s);
            v[0] = FieldValue::String(unsafe { String::from_utf8_unchecked(s) });
        }
        if miss & 2 == 0 {
            d.extend(be(i as u64, 4));
            v[1] = FieldValue::Int(i as i32);
        }
        if miss & 4 == 0 {
            d.extend(be(x, 8));
            v[2] = FieldValue::Double(f64::from_bits(x));
        }
        rows.push(Row { timestamp: ts, field_values: v });
    }
    let ends = vec![starts[0], starts[1], d.len()];
    let at = sx::choose("cut", 0, d.len() + 1);
    let mut sh = Shim::new(d);
    sh.step = sx::choose("step", 0, 2) * 3;
    if fails { sh.fail_at = Some(at); } else { sh.data.truncate(at); }
    let header_len = starts[0];
    let mut src = match DCSource::new(sh) {
        Ok(s) => s,
        Err(_) => { sx::check(at < header_len, "a complete header was refused"); sx::cover("refused"); return; }
    };
    sx::check(at >= header_len, "a header cut off was accepted");
    let h = Source::header(&src).field_names().clone();
    sx::check(h.len() == 3 && h[0] == "a" && h[1] == "b" && h[2] == "col_2", "column names differ from the file");
    let mut n = 0;
    loop {
        match Source::next_row(&mut src) {
            Ok(Some(g)) => {
                sx::check(n < 2 && at >= ends[n + 1], "a row cut off was returned");
                if n >= 2 { return; }
                sx::check(g.timestamp == rows[n].timestamp, "a timestamp was read wrong");
                for (a, b) in g.field_values.iter().zip(&rows[n].field_values) {
                    sx::check(same_value(a, b), "a value was read wrong");
                }
                n += 1;
            }
            Ok(None) => {
                sx::check(!fails, "a failing reader was taken for the end of the data");
                sx::check(at == ends[n], "input cut off inside a row was taken for the end of the data");
                sx::cover("end");
                return;
            }
            Err(_) => {
                sx::check(fails || at != ends[n], "the end of the data between rows is an error");
                sx::check(n == 2 || at < ends[n + 1], "a complete row was not returned");
                sx::cover("error");
                return;
            }
        }
    }
}
/// signals that interrupt a read are not the end of the data
fn interrupted() {
    let mut d = encode_header(&[("a", "I")]);
    d.extend(be(sx::u64v("ts", 0), 8));
    d.push(0);
    d.extend(be(9, 4));
    let mut sh = Shim::step(d, 1 + sx::choose("step", 0, 3) * 4);
    sh.interrupts = sx::choose("interrupts", 0, 4);
    sx::check(drain(sh, 1) == (1, true), "an interrupted read lost the row or the end");
}

/// a value of the kind of column i in row r
fn mixed(i: usize, r: usize) -> FieldValue {
    let v = (i * 31 + r * 7) as u64;
    match i % 8 {
        0 => FieldValue::Int(v as i32 - 40),
        1 => FieldValue::String("s".repeat(i % 5)),
        2 => FieldValue::Long(v as i64 * -1_000_000_007),
        3 => FieldValue::Double(v as f64 / 3.0),
        4 => FieldValue::Byte(v as u8),
        5 => FieldValue::Short(v as i16 - 3),
        6 => FieldValue::Float(v as f32),
        _ => FieldValue::Char(v as u16),
    }
}
fn mixed_type(i: usize) -> FieldType {
    [FieldType::Int, FieldType::String, FieldType::Long, FieldType::Double, FieldType::Byte, FieldType::Short, FieldType::Float, FieldType::Char][i % 8].clone()
}
/// many columns of all kinds, several rows with different values missing
fn wide_mixed() {
    let n = [31, 32, 33, 63, 64, 66, 72, 127, 128, 129, 255, 256, 257, 300][sx::choose("columns", 0, 14)];
    let at = [0, 7, 8, n / 2, n - 2, n - 1][sx::choose("at", 0, 6)];
    let pattern = sx::choose("pattern", 0, 4);
    let h = Header::new((0..n).map(|i| format!("c{}", i)).collect(), (0..n).map(mixed_type).collect());
    let any = sx::u64v("any", 0);
    let rs: Vec<Row> = (0..3).map(|r| Row {
        timestamp: if r == 1 { any } else { 3 + r as u64 },
        field_values: (0..n).map(|i| {
            let gone = match pattern { 0 => false, 1 => (i + r) % 2 == 0, 2 => i < n / 2, _ => r == 1 } ^ (r == 1 && i == at);
            if gone { FieldValue::None } else if i == at && r == 2 { match mixed(i, r) { FieldValue::Int(_) => FieldValue::Int(any as i32), FieldValue::Long(_) => FieldValue::Long(any as i64), FieldValue::Double(_) => FieldValue::Double(f64::from_bits(any)), v => v } } else { mixed(i, r) }
        }).collect(),
    }).collect();
    let d = write(&h, &rs);
    compare(d, 0, &h, &rs);
    sx::cover("wide");
}
/// so many columns that their number or that of the null bits no longer fits a small integer
fn very_wide() {
    let n = [1001, 2040, 2041, 2048, 2049, 4096, 33000, 65537][sx::choose("columns", 0, 8)];
    let at = [0, n / 2, n - 1][sx::choose("at", 0, 3)];
    let pattern = sx::choose("pattern", 0, 2);
    let h = Header::new((0..n).map(|i| (i % 10).to_string()).collect(), vec![FieldType::Short; n]);
    let any = sx::u16v("any", 0) as i16;
    let ts = sx::u64v("ts", 0);
    let rs: Vec<Row> = (0..2).map(|r| Row {
        timestamp: ts,
        field_values: (0..n).map(|i| if (pattern == 1 && (i + r) % 3 == 0) ^ (i == at && r == 0) { FieldValue::None } else { FieldValue::Short(if i == at { any } else { i as i16 }) }).collect(),
    }).collect();
    let d = write(&h, &rs);
    compare(d, 0, &h, &rs);
    sx::cover("very wide");
}
/// long names, and names beyond ASCII
fn long_names() {
    let n = [1, 2, 126, 127, 128, 129, 255, 256, 257, 8192, 32767, 32768, 65535, 65536, 70000][sx::choose("length", 0, 15)];
    let k = sx::choose("which", 0, 3);
    let mut v = vec![b'n'; n];
    let at = [0, n / 2, n - 1][sx::choose("at", 0, 3)];
    v[at] = sx::byte("name", 0);
    sx::assume(v[at] < 0x80);
    let mut name = unsafe { String::from_utf8_unchecked(v) };
    if sx::flag("accent", 0) { name.push('\u{e9}'); }
    let mut names = vec!["a".to_string(), "b".to_string(), "c".to_string()];
    names[k] = name;
    let h = Header::new(names, vec![FieldType::Int, FieldType::String, FieldType::Byte]);
    let rs = vec![Row { timestamp: 1, field_values: vec![FieldValue::Int(1), FieldValue::None, FieldValue::Byte(2)] }];
    let d = write(&h, &rs);
    compare(d, 0, &h, &rs);
}
/// many rows, small and large, with one row any
fn many_rows() {
    let n = [8, 9, 33, 257, 1000][sx::choose("rows", 0, 5)];
    let size = [0, 1, 20, 127, 128][sx::choose("size", 0, 5)];
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose("at", 0, 5)];
    let h = Header::new(vec!["a".to_string(), "b".to_string()], vec![FieldType::String, FieldType::Long]);
    let any = sx::u64v("any", 0);
    let c = sx::byte("c", 0);
    sx::assume(c < 0x80);
    let rs: Vec<Row> = (0..n).map(|r| {
        let mut t = vec![b'0' + (r % 10) as u8; size];
        if r == at && size > 0 { t[size / 2] = c; }
        Row { timestamp: if r == at { any } else { r as u64 }, field_values: vec![if r % 7 == 3 { FieldValue::None } else { FieldValue::String(unsafe { String::from_utf8_unchecked(t) }) }, if r % 5 == 4 { FieldValue::None } else if r == at { FieldValue::Long(any as i64) } else { FieldValue::Long(-(r as i64)) }] }
    }).collect();
    let d = write(&h, &rs);
    compare(d, [0, 8191][sx::choose("step", 0, 2)], &h, &rs);
    sx::cover("many rows");
}
/// notes of the one who wrote the file are skipped
fn notes() {
    let n = [0, 1, 2, 3, 4, 7, 255, 256, 8191, 8192, 65536, 70000][sx::choose("size", 0, 12)];
    let mut d = be(0x44434154, 8);
    d.extend(be(2, 2));
    d.extend(be(n as u64, 4));
    let mut v = vec![b'x'; n];
    if n > 0 { v[0] = sx::byte("note", 0); v[n - 1] = sx::byte("note", 1); sx::assume(sx::and(v[0] < 0x80, v[n - 1] < 0x80)); }
    d.extend(v);
    d.extend(&encode_header(&[("a", "I")])[14..]);
    d.extend(be(5, 8));
    d.push(0);
    let i = sx::u32v("i", 0);
    d.extend(be(i as u64, 4));
    compare(d, [0, 1000][sx::choose("step", 0, 2)], &Header::new(vec!["a".to_string()], vec![FieldType::Int]), &[Row { timestamp: 5, field_values: vec![FieldValue::Int(i as i32)] }]);
}
/// long input cut off around the ends of rows and of buffers
fn cut_long(fails: bool) {
    let size = [100, 3000, 8170, 40000][sx::choose("size", 0, 4)];
    let cols = [1, 9][sx::choose("cols", 0, 2)];
    let mut names = vec![("a", "Ljava.lang.String;")];
    names.extend(vec![("b", "B"); cols - 1]);
    let mut d = encode_header(&names);
    let mut ends = vec![d.len()];
    for r in 0..4 {
        d.extend(be(r, 8));
        d.extend(vec![0; (cols + 7) / 8]);
        if size > 32767 { d.extend(&[0xff, 0xff]); d.extend(be(size as u64, 4)); } else { d.extend(be(size as u64, 2)); }
        d.extend(vec![b'x'; size]);
        d.extend(vec![r as u8; cols - 1]);
        ends.push(d.len());
    }
    let row = sx::choose("row", 0, 5);
    let near = sx::choose("near", 0, 9);
    let base = if sx::flag("buffers", 0) { 8192 * (row + 1) } else { ends[row] };
    let at = (base + near).wrapping_sub(4);
    if at < ends[0] || at > d.len() { return; }
    let mut sh = Shim::new(d);
    sh.step = sx::choose("step", 0, 2) * 4096;
    if fails { sh.fail_at = Some(at); } else { sh.data.truncate(at); }
    let mut src = match DCSource::new(sh) { Ok(s) => s, Err(_) => { sx::check(fails && at <= 8192, "a complete header was refused"); return; } };
    let whole = ends.iter().filter(|e| **e <= at).count() - 1;
    let mut n = 0;
    loop {
        match Source::next_row(&mut src) {
            Ok(Some(g)) => {
                sx::check(n < whole, "a row cut off was returned");
                if n >= whole { return; }
                sx::check(g.timestamp == n as u64 && g.field_values.len() == cols && matches!(&g.field_values[0], FieldValue::String(s) if s.len() == size), "a row was read wrong");
                n += 1;
            }
            Ok(None) => {
                sx::check(!fails && at == ends[n], "input cut off inside a row was taken for the end of the data");
                sx::cover("end");
                return;
            }
            Err(_) => {
                sx::check(fails || at != ends[n], "the end of the data between rows is an error");
                sx::check(fails || n == whole, "a complete row was not returned");
                sx::cover("error");
                return;
            }
        }
    }
}

harness! {
    h_dc_very_wide { very_wide(); }
    h_dc_wide_mixed { wide_mixed(); }
    h_dc_names { long_names(); }
    h_dc_rows { many_rows(); }
    h_dc_notes { notes(); }
    h_dc_cut_long { cut_long(false); }
    h_dc_fail_long { cut_long(true); }
    h_dc_kinds_1 { kinds(1, 2); }
    h_dc_kinds_2 { kinds(2, 1); }
    h_dc_kinds_3 { kinds(3, 1); }
    h_dc_wide { wide(); }
    h_dc_missing_9 { some_missing(9); }
    h_dc_missing_12 { some_missing(12); }
    h_dc_strings { strings(&[0, 1, 2, 127, 128, 255, 256, 8190, 8192, 32766, 32767, 32768, 32769]); }
    h_dc_strings_long { strings(&[65534, 65535, 65536, 70001]); }
    h_dc_unicode { unicode(); }
    h_dc_unsupported { unsupported(); }

    h_dc_any { any_input(22); }
    h_dc_any_magic { any_after_magic(14); }
    h_dc_any_columns { any_columns(false, 17); }
    h_dc_any_column { any_columns(true, 15); }
    h_dc_any_columns_deep { any_columns(false, 26); }
    h_dc_any_rows { any_rows(&[("a", "Ljava.lang.String;"), ("b", "I")], 20); }
    h_dc_any_rows_deep { any_rows(&[("a", "Ljava.lang.String;"), ("b", "I")], 26); }
    h_dc_any_rows_0 { any_rows(&[], 20); }
    h_dc_any_rows_9 { any_rows(&[("a", "B"), ("b", "C"), ("c", "S"), ("d", "Z"), ("e", "B"), ("f", "Ljava.lang.ByteBuffer;"), ("g", "B"), ("h", "B"), ("i", "B")], 26); }
    h_dc_cut { cut(false); }
    h_dc_fail { cut(true); }
    h_dc_interrupted { interrupted(); }
}
