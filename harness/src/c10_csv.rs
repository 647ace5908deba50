//! CSV input: every line becomes one row (C10).
use crate::kit::Shim;
use crate::sx;
use chopper::chopper::chopper::Source;
use chopper::chopper::types::FieldValue;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::csv_source::CSVSource;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use chopper::error::CliResult;

pub fn config(delimiter: Option<&str>, header: YesNoAuto, col: TimestampColConfig, fmt: TimestampFmtConfig, tz: ChopperTz) -> CSVInputConfig {
    match CSVInputConfig::new(delimiter, header, TimestampConfig::new(col, fmt, tz)) {
        Ok(c) => c,
        Err(_) => { sx::fail("a valid configuration was refused"); unreachable!() }
    }
}
pub fn nanos(delimiter: Option<&str>, header: YesNoAuto) -> CSVInputConfig {
    config(delimiter, header, TimestampColConfig::Index(0), TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails())
}
pub fn open(text: Vec<u8>, step: usize, c: &CSVInputConfig) -> CliResult<CSVSource> {
    let p = match ChopperBufPreviewer::new(Box::new(Shim::step(text, step)) as Box<dyn std::io::Read>) {
        Ok(p) => p,
        Err(_) => { sx::fail("previewing failed"); unreachable!() }
    };
    CSVSource::new(p, c)
}

fn trim(v: &[u8]) -> Vec<u8> {
    let ws = |c: &u8| *c == b' ' || *c == b'\t' || *c == b'\r' || *c == b'\n' || *c == 0x0b || *c == 0x0c;
    let mut a = 0;
    let mut b = v.len();
    while a < b && ws(&v[a]) { a += 1; }
    while b > a && ws(&v[b - 1]) { b -= 1; }
    v[a..b].to_vec()
}
/// the records of a CSV text, written down independently: a quote is special only at the start of
/// a field; two quotes in a quoted field are one; \n, \r and \r\n end a record; empty lines are
/// skipped; spaces around fields are dropped
pub fn reference(text: &[u8], delim: u8) -> Vec<Vec<Vec<u8>>> {
    let mut records = vec![];
    let mut i = 0;
    let n = text.len();
    let end = |c: u8| c == b'\n' || c == b'\r';
    while i < n {
        if end(text[i]) { i += 1; continue; }
        let mut rec = vec![];
        'record: loop {
            let mut f = vec![];
            if i < n && text[i] == b'"' {
                i += 1;
                while i < n {
                    if text[i] == b'"' {
                        if i + 1 < n && text[i + 1] == b'"' { f.push(b'"'); i += 2; continue; }
                        i += 1;
                        break;
                    }
                    f.push(text[i]);
                    i += 1;
                }
            }
            while i < n && text[i] != delim && !end(text[i]) { f.push(text[i]); i += 1; }
            rec.push(trim(&f));
            if i < n && text[i] == delim { i += 1; continue 'record; }
            if i < n { i += 1; }
            break;
        }
        records.push(rec);
    }
    records
}
fn number(f: &[u8]) -> Option<u64> {
    if f.is_empty() { return None; }
    let mut r = 0u64;
    for c in f {
        if !(*c >= b'0' && *c <= b'9') { return None; }
        r = r * 10 + (*c - b'0') as u64;
    }
    Some(r)
}
/// what reading `text` gives, against the reference
pub fn against_reference(text: Vec<u8>, step: usize, delim: u8, has_header: bool) {
    sx::allow(sx::OPAQUE);
    let ds = (delim as char).to_string();
    let c = nanos(Some(&ds), if has_header { YesNoAuto::Yes } else { YesNoAuto::No });
    let r = open(text.clone(), step, &c);
    compare(r, reference(&text, delim), has_header);
}
pub fn compare(r: CliResult<CSVSource>, mut want: Vec<Vec<Vec<u8>>>, has_header: bool) {
    let head: Option<Vec<Vec<u8>>> = if has_header && !want.is_empty() { Some(want.remove(0)) } else { None };
    if want.is_empty() {
        sx::check(r.is_err(), "an input without data lines was accepted");
        sx::cover("no data");
        return;
    }
    let cols = match &head { Some(h) => h.len(), None => want[0].len() };
    // the first line that cannot become a row
    let bad = want.iter().position(|r| number(&r[0]).is_none() || r.len() > cols);
    let mut src = match r {
        Ok(s) => s,
        Err(_) => {
            sx::check(bad == Some(0), "a readable input was refused");
            sx::cover("refused");
            return;
        }
    };
    sx::check(bad != Some(0) || want[0].len() > cols, "a line without a timestamp was accepted");
    let h = Source::header(&src).clone();
    sx::check(h.field_names().len() == cols && h.field_types().len() == cols, "the number of columns is wrong");
    if let Some(head) = &head {
        for (a, b) in h.field_names().iter().zip(head) {
            sx::check(sx::eq_bytes(a.as_bytes(), b), "a column name differs from the header line");
        }
    } else {
        for (i, a) in h.field_names().iter().enumerate() {
            sx::check(*a == format!("col_{}", i), "a generated column name is wrong");
        }
    }
    let mut n = 0;
    loop {
        match Source::next_row(&mut src) {
            Ok(Some(g)) => {
                if n >= want.len() { sx::fail("a row appeared from nowhere"); return; }
                let w = &want[n];
                sx::check(g.field_values.len() == cols, "a row has another number of values than columns");
                match number(&w[0]) {
                    None => { sx::fail("a line without a timestamp became a row"); return; }
                    Some(t) => sx::check(g.timestamp == t, "a timestamp is wrong"),
                }
                for (i, v) in g.field_values.iter().enumerate() {
                    match v {
                        FieldValue::String(s) => sx::check(if i < w.len() { sx::eq_bytes(s.as_bytes(), &w[i]) } else { s.is_empty() }, "a value is not the line's field"),
                        FieldValue::None => sx::check(i >= w.len(), "a value was lost"),
                        _ => sx::fail("a value is of an unexpected kind"),
                    }
                }
                n += 1;
            }
            Ok(None) => {
                sx::check(n == want.len(), "a line was lost");
                sx::cover("end");
                if n > 1 { sx::cover("several rows"); }
                return;
            }
            Err(_) => {
                sx::check(bad.is_some(), "a readable line was refused");
                sx::cover("error");
                return;
            }
        }
    }
}
fn letter(i: usize, alphabet: &[u8]) -> u8 {
    let b = sx::byte("c", i);
    let mut ok = false;
    for a in alphabet { ok = sx::or(ok, b == *a); }
    sx::assume(ok);
    b
}
fn any_text(max: usize, prefix: &str, alphabet: &[u8]) {
    let n = sx::choose("len", 0, max + 1);
    let mut t = prefix.as_bytes().to_vec();
    for i in 0..n { t.push(letter(i, alphabet)); }
    against_reference(t, 0, b',', sx::flag("header", 0));
}
/// characters that other dialects of CSV give a meaning, at the start of lines and in and out of quotes
fn marks() {
    let prefix = ["", "1,", "1,\"", "1,a\n"][sx::choose("prefix", 0, 4)];
    any_text(4, prefix, b"\\#\",\n");
}
/// lines with varying numbers of fields of any plain ASCII text, any line ends
fn ragged(lines: usize, cols: usize, width: usize) {
    let header = sx::flag("header", 0);
    let delim = [b',', b'\t', b' ', b';'][sx::choose("delim", 0, 4)];
    let last_nl = sx::flag("nl", 0);
    let eol: &[u8] = if sx::flag("crlf", 0) { b"\r\n" } else { b"\n" };
    let mut t = vec![];
    let mut want = vec![];
    if header {
        let names: Vec<Vec<u8>> = (0..cols).map(|i| vec![b'h', b'0' + i as u8]).collect();
        t.extend(names.join(&delim));
        t.extend(eol);
        want.push(names);
    }
    for l in 0..lines {
        let k = 1 + sx::choose("fields", l, cols + 1);
        let mut rec = vec![vec![b'1' + l as u8]];
        for f in 1..k {
            let mut v = vec![];
            for c in 0..width {
                let b = sx::byte("f", (l * 8 + f) * 8 + c);
                // printable, not special; spaces are covered elsewhere
                sx::assume(b > b' ');
                sx::assume(b < 0x7f);
                sx::assume(b != b'"');
                sx::assume(b != delim);
                v.push(b);
            }
            rec.push(v);
        }
        t.extend(rec.join(&delim));
        if l + 1 < lines || last_nl { t.extend(eol); }
        want.push(rec);
    }
    sx::allow(sx::OPAQUE);
    let ds = (delim as char).to_string();
    let c = nanos(Some(&ds), if header { YesNoAuto::Yes } else { YesNoAuto::No });
    let step = [0, 1][sx::choose("step", 0, 2)];
    compare(open(t, step, &c), want, header);
}

/// lines long enough to cross the preview and read buffers
fn long() {
    let n = [8183, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 16377, 20000][sx::choose("size", 0, 10)];
    let header = sx::flag("header", 0);
    let mut f = vec![b'x'; n];
    f[n - 1] = letter(0, b"xyz");
    f[0] = letter(1, b"xyz");
    let tail = letter(2, b"xyz");
    let want: Vec<Vec<Vec<u8>>> = vec![vec![b"1".to_vec(), f.clone()], vec![b"2".to_vec(), vec![tail]], vec![b"3".to_vec()]];
    let mut t = vec![];
    for r in &want { t.extend(r.join(&b',')); t.push(b'\n'); }
    let step = [0, 100, 8192][sx::choose("step", 0, 3)];
    compare(open(t, step, &nanos(Some(","), if header { YesNoAuto::Yes } else { YesNoAuto::No })), want, header);
}

/// many lines, one of which is unusual
fn many(counts: &[usize]) {
    let n = counts[sx::choose("rows", 0, counts.len())];
    let width = [1, 13, 90][sx::choose("width", 0, 3)];
    let odd = [1, n / 2, n - 1, (8192 / (width + 8)).min(n - 1)][sx::choose("odd", 0, 4)];
    let what = sx::choose("what", 0, 8);
    let header = sx::flag("header", 0);
    let mut t: Vec<u8> = vec![];
    let mut want: Vec<Vec<Vec<u8>>> = vec![];
    if header {
        t.extend(b"a,b,c\n");
        want.push(vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()]);
    }
    let c = letter(0, b"pqr");
    for r in 0..n {
        let mut rec = vec![(1000 + r).to_string().into_bytes(), vec![b'x'; width], vec![b'a' + (r % 20) as u8]];
        let mut eol: &[u8] = b"\n";
        if r == odd {
            rec[2] = vec![c];
            match what {
                0 => {}
                1 => { rec.truncate(2); }
                2 => { rec.truncate(1); }
                3 => { rec.push(vec![c]); }
                4 => { eol = b"\n\n\r\n"; }
                5 => {
                    // a quoted field over two lines
                    rec[1] = vec![c, b'\n', b','];
                    t.extend(&rec[0]);
                    t.extend(b",\"");
                    t.extend(&rec[1]);
                    t.extend(b"\",");
                    t.extend(&rec[2]);
                    t.push(b'\n');
                    want.push(rec);
                    continue;
                }
                6 => { rec[0] = vec![c]; }
                _ => { rec[1] = vec![]; }
            }
        }
        if r + 1 == n && what == 0 { eol = b""; }
        t.extend(rec.join(&b','));
        t.extend(eol);
        want.push(rec);
    }
    sx::allow(sx::OPAQUE);
    let step = [0, 4096, 8192][sx::choose("step", 0, 3)];
    if n > 50 { sx::cover("many rows"); }
    compare(open(t, step, &nanos(Some(","), if header { YesNoAuto::Yes } else { YesNoAuto::No })), want, header);
}
/// many columns, one line with another number of them
fn columns() {
    let n = [2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300][sx::choose("columns", 0, 14)];
    let at = [1, n / 2, n - 1][sx::choose("at", 0, 3)];
    let k = [1, n - 1, n, n + 1, 2 * n + 40][sx::choose("fields", 0, 5)];
    let header = sx::flag("header", 0);
    let c = letter(0, b"pqr");
    let mut want: Vec<Vec<Vec<u8>>> = vec![];
    if header { want.push((0..n).map(|i| format!("h{}", i).into_bytes()).collect()); }
    for r in 0..3 {
        let m = if r == 1 { k } else { n };
        let mut rec: Vec<Vec<u8>> = (0..m).map(|i| (r * 1000 + i).to_string().into_bytes()).collect();
        if at < m { rec[at] = vec![c, b'a' + r as u8]; }
        want.push(rec);
    }
    let mut t = vec![];
    for r in &want { t.extend(r.join(&b',')); t.push(b'\n'); }
    sx::allow(sx::OPAQUE);
    compare(open(t, 0, &nanos(Some(","), if header { YesNoAuto::Yes } else { YesNoAuto::No })), want, header);
}

harness! {
    h_csv_many { many(&[3, 60, 200, 701]); }
    h_csv_many_deep { many(&[33, 129, 257, 1000, 3000]); }
    h_csv_columns { columns(); }
    h_csv_long { long(); }
    h_csv_text { any_text(7, "", b"1,\n"); }
    h_csv_quotes { any_text(6, "1,", b"1,\"\nx"); }
    h_csv_marks { marks(); }
    h_csv_lines { any_text(5, "1,a\n", b"1,\n\r "); }
    h_csv_any { any_text(5, "", b"1x,\"\n\r "); }
    h_csv_text_deep { any_text(9, "", b"1,\n"); }
    h_csv_quotes_deep { any_text(8, "1,", b"1,\"\nx"); }
    h_csv_any_deep { any_text(7, "", b"1x,\"\n\r "); }
    h_csv_ragged { ragged(3, 3, 1); }
    h_csv_wide { ragged(2, 4, 2); }
}
