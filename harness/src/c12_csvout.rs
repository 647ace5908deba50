//! CSV output (C12).
use crate::sx;
use chopper::chopper::chopper::{DataSink, HeaderSink};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::source::csv_configs::{CSVOutputConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use chopper::write::csv_sink::CSVSink;

pub const UNITS: [(TimestampUnits, u64, &str); 4] = [
    (TimestampUnits::Seconds, 1_000_000_000, "timestampSeconds"), (TimestampUnits::Millis, 1_000_000, "timestampMillis"),
    (TimestampUnits::Micros, 1_000, "timestampMicros"), (TimestampUnits::Nanos, 1, "timestampNanos")];

pub fn write(c: CSVOutputConfig, names: &[String], types: Vec<FieldType>, rows: &[Row]) -> (Vec<u8>, bool) {
    let path = "o.csv".to_string();
    let sink: Box<dyn HeaderSink> = match CSVSink::new(&Some(path.clone()), c) {
        Ok(s) => Box::new(s),
        Err(_) => { sx::fail("cannot create the output"); unreachable!() }
    };
    let mut sink: Box<dyn DataSink> = match sink.process_header(&mut Header::new(names.to_vec(), types)) {
        Ok(s) => s,
        Err(_) => { sx::fail("writing a valid header failed"); unreachable!() }
    };
    let mut ok = true;
    for r in rows {
        let mut v = vec![r.clone()];
        if sink.write_row(&mut v).is_err() { ok = false; break; }
        sx::check(v.len() == 1, "the sink changed the number of rows");
    }
    sx::check(sink.flush().is_ok(), "flushing failed");
    (std::fs::read(&path).unwrap_or_default(), ok)
}
fn config(delim: &str, time: bool, unit: usize) -> CSVOutputConfig {
    CSVOutputConfig::new(delim, time, None, TimestampStyle::Epoch, UNITS[unit].0, ChopperTz::new_always_fails())
}
/// is `text` the usual decimal writing of v? without branching on v
fn decimal(text: &[u8], neg: bool, mag: u64) -> bool {
    let mut t = text;
    let mut ok = true;
    if !t.is_empty() && t[0] == b'-' { ok = neg; t = &t[1..]; } else { ok = sx::and(ok, !neg); }
    if t.is_empty() || t.len() > 20 { return false; }
    let mut v = 0u64;
    for c in t {
        ok = sx::and(ok, sx::and(*c >= b'0', *c <= b'9'));
        v = v.wrapping_mul(10).wrapping_add((*c).wrapping_sub(b'0') as u64);
    }
    if t.len() > 1 { ok = sx::and(ok, t[0] != b'0'); }
    sx::and(ok, v == mag)
}
/// base with one byte of it arbitrary
pub fn window(tag: &str, i: usize, base: u64, bytes: usize) -> u64 {
    let at = sx::choose("byte", i, bytes);
    let b = sx::byte(tag, i) as u64;
    (base & !(0xff << (8 * at))) | (b << (8 * at))
}
fn int(k: usize) {
    let bases: &[u64] = &[0, 1000, 99_999, 1_000_000_000, 10_000_000_000, 1_234_567_890_123_456_789, u64::max_value(), 1 << 63, i64::max_value() as u64];
    let base = bases[sx::choose("base", 0, bases.len())];
    let (v, neg, mag) = match k {
        0 => { let x = sx::byte("x", 0); (FieldValue::Byte(x), false, x as u64) }
        1 => { let x = window("x", 0, base, 2) as u16; (FieldValue::Char(x), false, x as u64) }
        2 => { let x = window("x", 0, base, 2) as i16; (FieldValue::Short(x), x < 0, (x as i64).wrapping_abs() as u64) }
        3 => { let x = window("x", 0, base, 4) as i32; (FieldValue::Int(x), x < 0, (x as i64).wrapping_abs() as u64) }
        _ => { let x = window("x", 0, base, 8) as i64; (FieldValue::Long(x), x < 0, x.wrapping_abs() as u64) }
    };
    let (out, ok) = write(config(",", false, 3), &["a".to_string()], vec![FieldType::Int], &[Row { timestamp: 0, field_values: vec![v] }]);
    sx::check(ok, "a value was refused");
    sx::check(out.len() > 3 && &out[..2] == b"a\n" && out[out.len() - 1] == b'\n', "the output is not a header line and a row line");
    sx::observe_bytes("out", &out);
    sx::check(decimal(&out[2..out.len() - 1], neg, mag), "a number does not read back");
}
fn float(double: bool) {
    let bases: &[f64] = &[0.0, 1.0, 0.1, 1e300, 1e-300, 123456.789, 1e23, 9007199254740993.0, 5e-324, 1e7, 1e-5];
    let base = bases[sx::choose("base", 0, bases.len())];
    let (v, bits) = if double {
        let x = window("x", 0, base.to_bits(), 8);
        (FieldValue::Double(f64::from_bits(x)), x)
    } else {
        let x = window("x", 0, (base as f32).to_bits() as u64, 4) as u32;
        (FieldValue::Float(f32::from_bits(x)), x as u64)
    };
    let (out, ok) = write(config(",", false, 3), &["a".to_string()], vec![FieldType::Double], &[Row { timestamp: 0, field_values: vec![v] }]);
    sx::check(ok, "a value was refused");
    sx::check(out.len() > 3 && &out[..2] == b"a\n" && out[out.len() - 1] == b'\n', "the output is not a header line and a row line");
    let s = unsafe { std::str::from_utf8_unchecked(&out[2..out.len() - 1]) };
    if double {
        match s.parse::<f64>() {
            Ok(y) => sx::check(sx::or(y == f64::from_bits(bits), sx::and(y.is_nan(), f64::from_bits(bits).is_nan())), "a number does not read back"),
            Err(_) => sx::fail("a number is written as something else"),
        }
    } else {
        match s.parse::<f32>() {
            Ok(y) => sx::check(sx::or(y == f32::from_bits(bits as u32), sx::and(y.is_nan(), f32::from_bits(bits as u32).is_nan())), "a number does not read back"),
            Err(_) => sx::fail("a number is written as something else"),
        }
    }
}
fn ascii(tag: &str, i: usize, n: usize) -> String {
    let v = (0..n).map(|k| { let b = sx::byte(tag, i * 8 + k); sx::assume(b < 0x80); b }).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// everything but the writing of numbers
fn layout(cols: usize, rows: usize) {
    let n = sx::choose("columns", 0, cols + 1);
    let delims = [",", ";", "\t", "||", "\u{e9}", ""];
    let d = delims[sx::choose("delim", 0, 6)];
    let time = sx::flag("time", 0);
    let unit = sx::choose("unit", 0, 4);
    let human = sx::flag("human", 0);
    let named = sx::choose("named", 0, 3);
    if human || named > 0 { if !time || unit != 3 { return; } }
    let tname = match named { 0 => None, 1 => Some(String::new()), _ => Some(ascii("t", 0, 2)) };
    let c = CSVOutputConfig::new(d, time, tname.clone(), if human { TimestampStyle::HumanReadable } else { TimestampStyle::Epoch }, UNITS[unit].0, ChopperTz::from(chrono_tz::Etc::UTC));
    let names: Vec<String> = (0..n).map(|i| ascii("n", i, i % 3)).collect();
    let mut want = vec![];
    let mut head = vec![];
    if time { head.push(tname.unwrap_or(if human { "time".to_string() } else { UNITS[unit].2.to_string() })); }
    head.extend(names.iter().cloned());
    want.extend(head.join(d).into_bytes());
    want.push(b'\n');
    let mut rs = vec![];
    for r in 0..rows {
        let ts = [1_600_000_000_123_456_789u64, 0, u64::max_value()][sx::choose("ts", r, 3)];
        if human && ts > 1 << 63 { return; }
        let mut vs = vec![];
        let mut cells = vec![];
        if time {
            let c = if human { if ts == 0 { "1970-01-01T00:00:00.000000000+00:00".to_string() } else { "2020-09-13T12:26:40.123456789+00:00".to_string() } } else { (ts / UNITS[unit].1).to_string() };
            cells.push(c.into_bytes());
        }
        for i in 0..n {
            let (v, c) = match sx::choose("kind", r * 8 + i, 4) {
                0 => (FieldValue::None, vec![]),
                1 => { let s = ascii("s", r * 8 + i, 2); (FieldValue::String(s.clone()), s.into_bytes()) }
                2 => (FieldValue::String(String::new()), vec![]),
                _ => (FieldValue::Int(-7), b"-7".to_vec()),
            };
            vs.push(v);
            cells.push(c);
        }
        for (i, c) in cells.iter().enumerate() {
            if i > 0 { want.extend(d.as_bytes()); }
            want.extend(c);
        }
        want.push(b'\n');
        rs.push(Row { timestamp: ts, field_values: vs });
    }
    let (out, ok) = write(c, &names, vec![FieldType::String; n], &rs);
    sx::check(ok, "a row was refused");
    sx::observe_bytes("out", &out);
    sx::check(sx::eq_bytes(&out, &want), "the output differs from header and rows");
    if n > 0 && time { sx::cover("time and columns"); }
}
fn epoch() {
    let bases: &[u64] = &[0, 999_999_999, 1_600_000_000_123_456_789, 1 << 63, u64::max_value(), 10_000_000_000_000];
    let ts = window("ts", 0, bases[sx::choose("base", 0, bases.len())], 8);
    let unit = sx::choose("unit", 0, 4);
    let (out, ok) = write(config(",", true, unit), &[], vec![], &[Row { timestamp: ts, field_values: vec![] }]);
    sx::check(ok, "a row was refused");
    let h = UNITS[unit].2.len();
    sx::check(out.len() > h + 2 && &out[..h] == UNITS[unit].2.as_bytes() && out[h] == b'\n' && out[out.len() - 1] == b'\n', "the output is not a header line and a row line");
    sx::observe_bytes("out", &out);
    sx::check(decimal(&out[h + 1..out.len() - 1], false, ts / UNITS[unit].1), "an epoch time is not the timestamp in the unit");
}
fn unsupported() {
    let v = if sx::flag("buf", 0) { FieldValue::ByteBuf(vec![1]) } else { FieldValue::Boolean(sx::flag("b", 0)) };
    let at = sx::choose("at", 0, 2);
    let mut vs = vec![FieldValue::Int(1), FieldValue::Int(2)];
    vs[at] = v;
    let (_, ok) = write(config(",", sx::flag("time", 0), 3), &["a".to_string(), "b".to_string()], vec![FieldType::Int; 2], &[Row { timestamp: 0, field_values: vs }]);
    sx::check(!ok, "an unsupported value was written");
}
/// strings beyond the writer's buffer
fn long() {
    let n = [8189, 8190, 8191, 8192, 8193, 20000][sx::choose("size", 0, 6)];
    let mut s = vec![b'x'; n];
    s[n - 1] = sx::byte("last", 0);
    sx::assume(s[n - 1] < 0x80);
    let mut want = b"a,b\n".to_vec();
    let mut rows = vec![];
    for r in 0..2 {
        want.extend(&s);
        want.extend(b",5\n");
        rows.push(Row { timestamp: r, field_values: vec![FieldValue::String(unsafe { String::from_utf8_unchecked(s.clone()) }), FieldValue::Int(5)] });
    }
    let (out, ok) = write(config(",", false, 0), &["a".to_string(), "b".to_string()], vec![FieldType::String; 2], &rows);
    sx::check(ok, "a row was refused");
    sx::check(sx::eq_bytes(&out, &want), "the output differs from header and rows");
}
/// many columns and rows, one value any or missing
fn big() {
    let (n, rows) = [(1, 300), (3, 129), (31, 3), (32, 3), (33, 3), (64, 2), (65, 2), (128, 2), (255, 2), (256, 2), (257, 2), (300, 2)][sx::choose("shape", 0, 12)];
    let d = [",", "\t", "||"][sx::choose("delim", 0, 3)];
    let time = sx::flag("time", 0);
    let col = [0, n / 2, n - 1][sx::choose("col", 0, 3)];
    let row = [0, rows / 2, rows - 1][sx::choose("row", 0, 3)];
    let what = sx::choose("what", 0, 4);
    let text = ascii("v", 0, 2);
    let names: Vec<String> = (0..n).map(|i| if i == col { text.clone() } else { format!("c{}", i) }).collect();
    let mut head: Vec<String> = names.clone();
    if time { head.insert(0, UNITS[3].2.to_string()); }
    let mut want = head.join(d).into_bytes();
    want.push(b'\n');
    let mut rs = vec![];
    for r in 0..rows {
        let mut vs = vec![];
        let mut cells: Vec<Vec<u8>> = vec![];
        if time { cells.push((r as u64 * 1_000_000_007).to_string().into_bytes()); }
        for i in 0..n {
            let (v, c) = if r == row && i == col {
                match what {
                    0 => (FieldValue::None, vec![]),
                    1 => (FieldValue::String(text.clone()), text.clone().into_bytes()),
                    2 => (FieldValue::Short(-300), b"-300".to_vec()),
                    _ => (FieldValue::String(String::new()), vec![]),
                }
            } else {
                match (r + i) % 4 {
                    0 => (FieldValue::Long(-((r * n + i) as i64)), if r * n + i == 0 { b"0".to_vec() } else { format!("-{}", r * n + i).into_bytes() }),
                    1 => (FieldValue::Byte((i % 256) as u8), (i % 256).to_string().into_bytes()),
                    2 => (FieldValue::None, vec![]),
                    _ => (FieldValue::String(format!("s{}", i)), format!("s{}", i).into_bytes()),
                }
            };
            vs.push(v);
            cells.push(c);
        }
        for (i, c) in cells.iter().enumerate() {
            if i > 0 { want.extend(d.as_bytes()); }
            want.extend(c);
        }
        want.push(b'\n');
        rs.push(Row { timestamp: r as u64 * 1_000_000_007, field_values: vs });
    }
    let (out, ok) = write(config(d, time, 3), &names, vec![FieldType::String; n], &rs);
    sx::check(ok, "a row was refused");
    sx::check(sx::eq_bytes(&out, &want), "the output differs from header and rows");
    if n > 200 { sx::cover("wide"); }
    if rows > 200 { sx::cover("many rows"); }
}
harness! {
    h_out_big { big(); }
    h_int_8 { int(0); }
    h_int_u16 { int(1); }
    h_int_16 { int(2); }
    h_int_32 { int(3); }
    h_int_64 { int(4); }
    h_double { float(true); }
    h_float { float(false); }
    h_layout { layout(3, 1); }
    h_layout_2 { layout(1, 2); }
    h_epoch { epoch(); }
    h_out_unsupported { unsupported(); }
    h_out_long { long(); }
}
