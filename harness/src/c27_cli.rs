//! The command line (C27): arguments given to the program's own entry point, files and standard streams in place.
use crate::c08_dc::encode_header;
use crate::sx;
use chopper::chopper_cli::chopper_cli;
use chrono_tz::Tz;
use std::collections::HashMap;
use std::io::Write;

#[derive(Clone, Copy, PartialEq)]
enum Want { Done, Refused, Either }

fn b(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
/// run the program; None: it was refused or failed; otherwise what it wrote to standard output
fn cli(args: &[Vec<u8>], stdin: &[u8], want: Want) -> Option<Vec<u8>> { cli_zones(args, stdin, want, None) }
fn cli_zones(args: &[Vec<u8>], stdin: &[u8], want: Want, zones: Option<HashMap<&str, Tz>>) -> Option<Vec<u8>> {
    let mut all = vec![b("chopper")];
    all.extend(args.iter().cloned());
    sx::args(&all);
    if std::fs::write("stdin", stdin).is_err() || std::fs::write("stdout", b"").is_err() { sx::fail("cannot write the standard streams"); }
    sx::allow(sx::OPAQUE | if want == Want::Done { 0 } else { sx::EXIT });
    sx::stdio("stdin", "stdout");
    let r = chopper_cli(None, None, zones);
    let _ = std::io::stdout().flush();
    sx::stdio_end();
    sx::allow(sx::OPAQUE);
    match r {
        Ok(()) => {
            if want == Want::Refused { sx::fail("arguments that cannot be obeyed were accepted"); }
            Some(std::fs::read("stdout").unwrap_or_default())
        }
        Err(_) => {
            if want == Want::Done { sx::fail("valid arguments were refused, or the run failed"); }
            sx::cover("failed");
            None
        }
    }
}
fn letter(name: &str, i: usize) -> u8 {
    let c = sx::byte(name, i);
    sx::assume(sx::and(c >= b'a', c <= b'z'));
    c
}
fn digit(name: &str, i: usize) -> u8 {
    let c = sx::byte(name, i);
    sx::assume(sx::and(c >= b'0', c <= b'9'));
    c
}
/// one row of a time and a letter, as a CSV file or as a binary one
fn content(dc: bool, time: u8, label: u8) -> Vec<u8> {
    if !dc { return vec![b't', b',', b'a', b'\n', time, b',', b'x', label, b'\n']; }
    let mut d = encode_header(&[("t", "Ljava.lang.String;"), ("a", "Ljava.lang.String;")]);
    d.extend(&[0; 7]);
    d.push(time.wrapping_sub(b'0'));
    d.extend(&[0, 0, 1, time, 0, 2, b'x', label]);
    d
}
/// inputs and the list of formats
fn pairs(max: usize, formats: usize) {
    let n = sx::choose("inputs", 0, max + 1);
    let m = sx::choose("formats", 0, formats + 1);
    let words = ["auto", "csv", "dc", "xyz"];
    let fs: Vec<usize> = (0..m).map(|i| sx::choose("format", i, 4)).collect();
    let names = [["p.csv", "p"], ["q.csv", "q"], ["r.csv", "r"], ["s.csv", "s"]];
    let dcs = [["p.dc", "p"], ["q.dc", "q"], ["r.dc", "r"], ["s.dc", "s"]];
    let mut files = vec![];
    let mut rows = vec![];
    let mut stdin = vec![];
    let mut good = true;
    for i in 0..n.max(1) {
        let f = if m == 0 { 0 } else { fs[i.min(m - 1)] };
        let dc = sx::flag("dc", i);
        // text is not found in binary files by any rule worth telling
        if dc && f == 1 { return; }
        if f == 3 || !dc && f == 2 { good = false; }
        let (t, a) = (digit("t", i), letter("a", i));
        for (u, _) in &rows {
            // which of two rows of the same time comes first is not told
            sx::assume(t != *u);
        }
        rows.push((t, a));
        let data = content(dc, t, a);
        if n == 0 { stdin = data; } else {
            let name = if dc { dcs[i] } else { names[i] }[if f == 0 { sx::choose("bare", i, 2) } else { 1 }];
            if std::fs::write(name, &data).is_err() { sx::fail("cannot write an input"); }
            files.push(b(name));
        }
    }
    let mut args = vec![];
    let late = sx::flag("late", 0);
    if late { args.extend(files.iter().cloned()); }
    if m > 0 {
        args.push(b(if sx::flag("long", 0) { "--format" } else { "-f" }));
        args.push(b(&fs.iter().map(|f| words[*f]).collect::<Vec<_>>().join(",")));
    }
    args.push(b("--csv-in-epoch"));
    args.push(b("ns"));
    args.push(b("-E"));
    if !late { args.extend(files.iter().cloned()); }
    let out = cli(&args, &stdin, if good { Want::Done } else { Want::Refused });
    if let Some(out) = out {
        rows.sort_by(|x, y| x.0.cmp(&y.0));
        let mut want = b("timestampNanos,t,a\n");
        for (t, a) in &rows { want.extend(&[*t, b',', *t, b',', b'x', *a, b'\n']); }
        sx::observe_bytes("out", &out);
        sx::check(sx::eq_bytes(&out, &want), "the output is not the rows of all inputs in order");
        sx::cover("written");
    }
}
/// one option with its value, in any of the ways to write it
fn opt(args: &mut Vec<Vec<u8>>, long: &str, short: &str, value: &[u8], form: usize) {
    let form = if short.is_empty() { form % 2 } else { form % 5 };
    match form {
        0 => { args.push(b(long)); args.push(value.to_vec()); }
        1 => { let mut a = b(long); a.push(b'='); a.extend(value); args.push(a); }
        2 => { args.push(b(short)); args.push(value.to_vec()); }
        // nothing to attach
        _ if value.is_empty() => { args.push(b(short)); args.push(value.to_vec()); }
        3 => { let mut a = b(short); a.extend(value); args.push(a); }
        _ => { let mut a = b(short); a.push(b'='); a.extend(value); args.push(a); }
    }
}
const SECOND: &str = "160000000";
/// 2020-09-13T12:26:40 and d seconds later
fn seconds(d: u8) -> Vec<u8> { let mut t = b(SECOND); t.push(d); t }
/// what is written: where to and how
fn output(styles: bool) {
    let d = digit("d", 0);
    let a = letter("a", 0);
    let mut text = b("t,a\n");
    text.extend(seconds(d));
    text.push(b',');
    text.push(a);
    text.push(b'\n');
    if std::fs::write("i.csv", &text).is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![b("i.csv"), b("--csv-in-epoch=s")];
    let mut good = true;
    let form = sx::choose("form", 0, 5);
    let mut delim = b(",");
    let mut print = true;
    if !styles {
        let ds: [&str; 6] = [";", "\t", "||", "\u{e9}", "", "\\t"];
        let k = sx::choose("delim", 0, 7);
        if k > 0 { delim = b(ds[k - 1]); opt(&mut args, "--delimiter", "", &delim, form); }
        let k = sx::choose("print", 0, 7);
        if k > 0 { let v = ["yes", "no", "YES", "nO", "y", "maybe"][k - 1]; opt(&mut args, "--print-time", "", v.as_bytes(), form); print = k % 2 == 1; if k > 4 { good = false; } }
    }
    let named = sx::choose("named", 0, 3);
    let mut name = None;
    if named > 0 { let v = vec![letter("n", 0); named - 1]; opt(&mut args, "--time-col-name", "", &v, form); name = Some(v); }
    let style = sx::choose("style", 0, if styles { 6 } else { 2 });
    match style { 1 => args.push(b("-E")), 2 => args.push(b("--epoch")), 3 => args.push(b("-H")), 4 => args.push(b("--human")), 5 => { args.push(b("-E")); args.push(b("-H")); good = false; } _ => {} }
    let human = style == 0 || style > 2;
    let mut unit = 3;
    let mut zone = 0;
    std::env::remove_var("CHOPPER_TZ");
    if styles {
        let k = sx::choose("unit", 0, 8);
        if k > 0 { let v = ["s", "ms", "us", "ns", "S", "m", "auto"][k - 1]; opt(&mut args, "--granularity", "-g", v.as_bytes(), form); if k < 5 { unit = k - 1; } else { good = false; } }
        zone = sx::choose("zone", 0, 6);
        match zone {
            1 => opt(&mut args, "--timezone", "-z", b"UTC", form),
            2 => std::env::set_var("CHOPPER_TZ", "UTC"),
            3 => { std::env::set_var("CHOPPER_TZ", "Etc/GMT-3"); opt(&mut args, "--timezone", "-z", b"UTC", form); }
            4 => { opt(&mut args, "--timezone", "-z", b"Nowhere", form); good = false; }
            5 => { std::env::set_var("CHOPPER_TZ", "Nowhere"); good = false; }
            _ => {}
        }
    }
    if human && print && zone == 0 { good = false; }
    let out = cli(&args, b"", if good { Want::Done } else { Want::Refused });
    std::env::remove_var("CHOPPER_TZ");
    if let Some(out) = out {
        let (suffix, zeros) = [("Seconds", 0), ("Millis", 3), ("Micros", 6), ("Nanos", 9)][unit];
        let mut want = vec![];
        if print {
            match name { Some(n) => want.extend(n), None if human => want.extend(b"time"), None => { want.extend(b"timestamp"); want.extend(b(suffix)); } }
            want.extend(&delim);
        }
        want.push(b't');
        want.extend(&delim);
        want.extend(b"a\n");
        if print {
            if human {
                want.extend(b"2020-09-13T12:26:4");
                want.push(d);
                if zeros > 0 { want.push(b'.'); want.extend(vec![b'0'; zeros]); }
                want.extend(b"+00:00");
            } else {
                want.extend(seconds(d));
                want.extend(vec![b'0'; zeros]);
            }
            want.extend(&delim);
        }
        want.extend(seconds(d));
        want.extend(&delim);
        want.push(a);
        want.push(b'\n');
        sx::observe_bytes("out", &out);
        sx::check(sx::eq_bytes(&out, &want), "the output is not what the options ask for");
        sx::cover(if human { "human" } else { "epoch" });
    }
}
/// the file named by -o gets the output, in the format its name says
fn outfile() {
    let (t, a) = (digit("t", 0), letter("a", 0));
    if std::fs::write("i.csv", content(false, t, a)).is_err() { sx::fail("cannot write an input"); }
    let names = ["o.csv", "o.dc", "csv", "dc", "x.dc.csv", "x.csv.dc", "o.CSV", "o.txt", "o.csv.gz", "o", "none/o.csv", "o.dc "];
    let k = sx::choose("name", 0, names.len());
    let old = sx::flag("old", 0);
    let name = names[k];
    if old && k < 6 && std::fs::write(name, vec![b'z'; 100]).is_err() { sx::fail("cannot write an old file"); }
    let mut args = vec![b("--csv-in-epoch=ns"), b("-E")];
    let early = sx::flag("early", 0);
    if early { args.push(b("i.csv")); }
    opt(&mut args, "--output", "-o", name.as_bytes(), sx::choose("form", 0, 5));
    if !early { args.push(b("i.csv")); }
    let out = cli(&args, b"", if k < 6 { Want::Done } else { Want::Refused });
    if let Some(out) = out {
        sx::check(out.is_empty(), "the output went to standard output as well");
        let got = std::fs::read(name).unwrap_or_default();
        sx::observe_bytes("got", &got);
        let want = if k % 2 == 1 { content(true, t, a) } else { let mut w = b("timestampNanos,"); w.extend(b"t,a\n"); w.extend(&[t, b',', t, b',', b'x', a, b'\n']); w };
        sx::check(sx::eq_bytes(&got, &want), "the output file does not hold the output");
        sx::cover(if k % 2 == 1 { "binary" } else { "text" });
    }
    let _ = std::fs::remove_file(name);
    let _ = std::fs::remove_file("i.csv");
}
/// -b and -e select rows
fn range() {
    let (p, q, r) = (digit("t", 0), digit("t", 1), digit("t", 2));
    sx::assume(p <= q);
    sx::assume(q <= r);
    let mut text = b("t,a\n");
    for (i, d) in [p, q, r].iter().enumerate() { text.extend(seconds(*d)); text.extend(&[b',', b'x' + i as u8, b'\n']); }
    if std::fs::write("i.csv", &text).is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![b("--csv-in-epoch=s"), b("-E"), b("-gs")];
    let form = sx::choose("form", 0, 5);
    let mut ends = [None, None];
    let mut good = true;
    let mut zone = false;
    for (i, (long, short)) in [("--begin", "-b"), ("--end", "-e")].iter().enumerate() {
        let k = sx::choose("kind", i, 5);
        if k == 0 { continue; }
        let d = digit("e", i);
        let v = match k {
            1 => seconds(d),
            2 => { let mut v = seconds(d); v.extend(b"000"); v }
            3 => { zone = true; let mut v = b("20200913-12264"); v.push(d); v }
            _ => { good = false; b("tomorrow") }
        };
        opt(&mut args, long, short, &v, form);
        ends[i] = Some(d);
    }
    if sx::flag("zone", 0) { args.push(b("-zUTC")); } else if zone { good = false; }
    args.push(b("i.csv"));
    let out = cli(&args, b"", if good { Want::Done } else { Want::Refused });
    if let Some(out) = out {
        let mut want = b("timestampSeconds,t,a\n");
        for (i, d) in [p, q, r].iter().enumerate() {
            if ends[0].map_or(true, |x| x <= *d) && ends[1].map_or(true, |x| *d < x) {
                want.extend(seconds(*d));
                want.push(b',');
                want.extend(seconds(*d));
                want.extend(&[b',', b'x' + i as u8, b'\n']);
                sx::cover("row");
            }
        }
        sx::observe_bytes("out", &out);
        sx::check(sx::eq_bytes(&out, &want), "the output is not the rows in the range");
    }
    let _ = std::fs::remove_file("i.csv");
}
/// options about reading CSV
fn input() {
    let (d, a) = (digit("d", 0), letter("a", 0));
    let k = sx::choose("case", 0, 16);
    // text, options, expected columns and cells after the time, and the time in seconds
    let mut line = |cells: &[Vec<u8>], sep: &str| -> Vec<u8> { let mut v = cells.join(sep.as_bytes()); v.push(b'\n'); v };
    let t = seconds(d);
    let x = vec![a];
    let n = |v: &[&str]| -> Vec<Vec<u8>> { v.iter().map(|s| b(s)).collect() };
    let clock = |d: u8| -> Vec<u8> { let mut v = b("12:26:4"); v.push(d); v };
    let (text, opts, cols, cells): (Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) = match k {
        // delimiters, guessed and given
        0 => (line(&[t.clone(), x.clone()], ","), n(&["--csv-in-epoch=s"]), n(&["col_0", "col_1"]), vec![t.clone(), x.clone()]),
        1 => (line(&[t.clone(), x.clone()], ";"), n(&["--csv-in-epoch=s", "--csv-in-delimiter=;"]), n(&["col_0", "col_1"]), vec![t.clone(), x.clone()]),
        2 => (line(&[t.clone(), x.clone()], "\t"), n(&["--csv-in-epoch", "s", "--csv-in-delimiter", "\\t"]), n(&["col_0", "col_1"]), vec![t.clone(), x.clone()]),
        // a header or not
        3 => (b"t,u\n".iter().cloned().chain(line(&[t.clone(), x.clone()], ",")).collect(), n(&["--csv-in-epoch=s", "--csv-in-has-header=Yes"]), n(&["t", "u"]), vec![t.clone(), x.clone()]),
        4 => (b"5,u\n".iter().cloned().chain(line(&[t.clone(), x.clone()], ",")).collect(), n(&["--csv-in-epoch=s", "--csv-in-has-header=yes"]), n(&["5", "u"]), vec![t.clone(), x.clone()]),
        5 => (line(&[t.clone(), x.clone()], ","), n(&["--csv-in-epoch=s", "--csv-in-has-header", "no"]), n(&["col_0", "col_1"]), vec![t.clone(), x.clone()]),
        6 => (b"t,u\n".iter().cloned().chain(line(&[t.clone(), x.clone()], ",")).collect(), n(&["--csv-in-epoch=s", "--csv-in-has-header=AUTO"]), n(&["t", "u"]), vec![t.clone(), x.clone()]),
        // the column of the time
        7 => (b"u,t\n".iter().cloned().chain(line(&[x.clone(), t.clone()], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-epoch=s", "--csv-in-ts-col=1"]), n(&["u", "t"]), vec![x.clone(), t.clone()]),
        8 => (b"u,w\n".iter().cloned().chain(line(&[x.clone(), t.clone()], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-epoch=s", "--csv-in-ts-col", "w"]), n(&["u", "w"]), vec![x.clone(), t.clone()]),
        // formats
        9 => { let mut w = b("40:26:12 on 13/09/2020"); w[1] = d; (b"t,u\n".iter().cloned().chain(line(&[w.clone(), x.clone()], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-fmt", "%S:%M:%H on %d/%m/%Y", "-zUTC"]), n(&["t", "u"]), vec![w, x.clone()]) }
        // a column for the date and one for the time
        10 => (b"u,c,p\n".iter().cloned().chain(line(&[x.clone(), clock(d), b("20200913")], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-col-date=p", "--csv-in-ts-col-time=c", "-zUTC"]), n(&["u", "c", "p"]), vec![x.clone(), clock(d), b("20200913")]),
        11 => (b"u,c,p\n".iter().cloned().chain(line(&[x.clone(), clock(d), b("20200913")], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-col-date=2", "--csv-in-ts-col-time=1", "-zUTC"]), n(&["u", "c", "p"]), vec![x.clone(), clock(d), b("20200913")]),
        12 => { let mut w = b("40.26.12"); w[1] = d; (b"u,c,p\n".iter().cloned().chain(line(&[x.clone(), w.clone(), b("13.09.20")], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-col-date=p", "--csv-in-ts-col-time=c", "--csv-in-ts-fmt-date=%d.%m.%y", "--csv-in-ts-fmt-time=%S.%M.%H", "-zUTC"]), n(&["u", "c", "p"]), vec![x.clone(), w, b("13.09.20")]) }
        // the time's format by default
        13 => (b"date,u,time\n".iter().cloned().chain(line(&[b("13.09.20"), x.clone(), clock(d)], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-fmt-date=%d.%m.%y", "-zUTC"]), n(&["date", "u", "time"]), vec![b("13.09.20"), x.clone(), clock(d)]),
        14 => (b"u,c,p\n".iter().cloned().chain(line(&[x.clone(), clock(d), b("13/09/2020")], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-fmt-date", "%d/%m/%Y", "--csv-in-ts-col-date=2", "--csv-in-ts-col-time=1", "-zUTC"]), n(&["u", "c", "p"]), vec![x.clone(), clock(d), b("13/09/2020")]),
        _ => { let mut w = b("40.26.12"); w[1] = d; (b"date,u,time\n".iter().cloned().chain(line(&[b("13.09.20"), x.clone(), w.clone()], ",")).collect(), n(&["--csv-in-has-header=yes", "--csv-in-ts-fmt-date=%d.%m.%y", "--csv-in-ts-fmt-time=%S.%M.%H", "-zUTC"]), n(&["date", "u", "time"]), vec![b("13.09.20"), x.clone(), w]) }
    };
    let from_stdin = sx::flag("stdin", 0);
    let mut args = n(&["-E", "-gs"]);
    args.extend(opts);
    if !from_stdin {
        if std::fs::write("i.csv", &text).is_err() { sx::fail("cannot write an input"); }
        args.push(b("i.csv"));
    }
    let out = cli(&args, if from_stdin { &text } else { b"" }, Want::Done);
    if let Some(out) = out {
        let mut want = b("timestampSeconds,");
        want.extend(line(&cols, ","));
        want.extend(&t);
        want.push(b',');
        want.extend(line(&cells, ","));
        sx::observe_bytes("out", &out);
        sx::check(sx::eq_bytes(&out, &want), "the input was not read as the options say");
        sx::cover("read");
    }
    let _ = std::fs::remove_file("i.csv");
}
/// options that need or exclude each other
fn conflicts(most: usize) {
    let names = ["--csv-in-ts-col=1", "--csv-in-ts-col-date=2", "--csv-in-ts-col-time=3", "--csv-in-ts-fmt=%s", "--csv-in-ts-fmt-date=%Y", "--csv-in-ts-fmt-time=%H", "--csv-in-epoch=s"];
    let mut has = [false; 7];
    let mut args = vec![b("-zUTC")];
    for i in 0..sx::choose("count", 0, most + 1) {
        let k = sx::choose("option", i, 7);
        if has[k] { return; }
        has[k] = true;
        args.push(b(names[k]));
    }
    let need = has[1] != has[2] || has[5] && !has[4];
    let split = has[1] || has[2] || has[4] || has[5];
    let clash = split && (has[0] || has[3]) || has[6] && (has[1] || has[2] || has[3]);
    // the epoch and a date format at once: not told
    let either = !need && !clash && has[6] && has[4] || has[0] && has[3];
    let bad = need || clash;
    if std::fs::write("i.csv", b"t,u,v,w\n1,1,2020,10\n").is_err() { sx::fail("cannot write an input"); }
    args.push(b("i.csv"));
    cli(&args, b"", if bad { Want::Refused } else if either { Want::Either } else { Want::Either });
    if !bad { sx::cover("accepted"); }
    let _ = std::fs::remove_file("i.csv");
}
/// arguments that mean nothing are refused, whatever they are
fn unknown() {
    let k = sx::choose("case", 0, 22);
    let list: [&[&str]; 22] = [
        &["-x"], &["--nothing"], &["--timezone"], &["-o"], &["-f"], &["--csv-in-epoch", "m"], &["--csv-in-epoch", "S"], &["--csv-in-has-header", "maybe"],
        &["--csv-in-delimiter", "ab"], &["--csv-in-delimiter", ""], &["--csv-in-delimiter", "\u{e9}"], &["--begin", ""], &["--end", "x"], &["-o", "a.csv", "-o", "b.csv"],
        &["-E", "-E", "-H"], &["-E", "--human"], &["--csv-in-ts-col", "nocol"], &["--csv-in-ts-col", "2"], &["--csv-in-ts-col", "99999999999999999999"], &["missing.csv"], &["--print-time="], &["-z", ""],
    ];
    if std::fs::write("i.csv", b"t,u\n1,1\n").is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![];
    let early = sx::flag("early", 0);
    if early { args.push(b("i.csv")); }
    args.extend(list[k].iter().map(|s| b(s)));
    // an option without its value takes the next argument
    if !early { if k == 2 || k == 3 || k == 4 { return; } args.push(b("i.csv")); }
    if k < 2 || k > 6 { args.push(b("--csv-in-epoch=s")); }
    if k < 2 || k > 4 && k != 14 && k != 15 { args.push(b("-E")); }
    cli(&args, b"", Want::Refused);
    let _ = std::fs::remove_file("i.csv");
}
/// any bytes as the value of any option: never a crash
fn any_value(max: usize) {
    let longs = ["--format", "--begin", "--end", "--granularity", "--delimiter", "--time-col-name", "--print-time", "--csv-in-delimiter", "--csv-in-has-header",
        "--csv-in-ts-col", "--csv-in-ts-fmt", "--csv-in-epoch", "--csv-in-ts-col-date", "--csv-in-ts-fmt-date"];
    let k = sx::choose("option", 0, longs.len());
    let n = sx::choose("len", 0, max + 1);
    let v: Vec<u8> = (0..n).map(|i| { let c = sx::byte("v", i); sx::assume(c != 0); c }).collect();
    let form = sx::choose("form", 0, 2);
    // that is another option
    if form == 0 && n > 0 { sx::assume(v[0] != b'-'); }
    if std::fs::write("i.csv", b"t,u\n1,1\n").is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![];
    opt(&mut args, longs[k], "", &v, form);
    if k == 12 { args.push(b("--csv-in-ts-col-time=1")); }
    if k == 13 { args.push(b("--csv-in-ts-fmt-time=%H")); }
    args.push(b("-E"));
    args.push(b("i.csv"));
    if cli(&args, b"", Want::Either).is_some() { sx::cover("done"); }
    let _ = std::fs::remove_file("i.csv");
}
/// arguments that are no text
fn odd() {
    let list: [&[u8]; 9] = [b"", b"-", b"--", b"\xff", b"\xff.csv", b"=", b"-=", b"--=x", b"./i.csv"];
    let opts = ["", "-o", "-f", "-z", "-b", "-e", "-g", "--delimiter", "--time-col-name", "--csv-in-ts-col", "--csv-in-ts-fmt", "--print-time"];
    let (i, k) = (sx::choose("option", 0, opts.len()), sx::choose("value", 0, list.len()));
    if std::fs::write("i.csv", b"t,u\n1,1\n").is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![];
    if i > 0 { args.push(b(opts[i])); }
    args.push(list[k].to_vec());
    args.push(b("--csv-in-epoch=s"));
    args.push(b("-E"));
    cli(&args, b"t,u\n1,1\n", Want::Either);
    let _ = std::fs::remove_file("i.csv");
}
/// more inputs than overrides, rows of all of them in turn, in a range, to either kind of output
fn many() {
    let n = [4, 5, 8, 9, 16, 17, 33][sx::choose("inputs", 0, 7)];
    let a = letter("a", 0);
    let at = sx::choose("at", 0, 3) * (n - 1) / 2;
    let formats = sx::choose("formats", 0, 4);
    let kept = sx::choose("range", 0, 2) == 1;
    let binary = sx::flag("binary", 0);
    let mut args = match formats { 0 => vec![], 1 => vec![b("-fcsv")], 2 => vec![b("-f"), b("dc,csv")], _ => vec![b("-f"), b("auto,csv,dc,csv")] };
    let mut rows = vec![];
    for i in 0..n {
        let dc = formats == 2 && i == 0 || formats == 3 && i == 2;
        let label = |j: usize| -> Vec<u8> { vec![if i == at && j == 1 { a } else { b'a' + (i % 26) as u8 }, b'0' + j as u8] };
        // every input's rows among those of the others
        let times = [1000 + (i * 7) % n, 2000 + (i * 3 + 1) % n * 7 + i % 7, 3000 + n - i];
        let mut d = vec![];
        if dc { d = encode_header(&[("t", "Ljava.lang.String;"), ("a", "Ljava.lang.String;")]); } else { d.extend(b"t,a\n"); }
        for (j, t) in times.iter().enumerate() {
            let text = b(&format!("{}", t));
            if dc {
                d.extend(&[0, 0, 0, 0, 0, 0, (t >> 8) as u8, *t as u8, 0, 0, 4]);
                d.extend(&text);
                d.extend(&[0, 2]);
                d.extend(label(j));
            } else {
                d.extend(&text);
                d.push(b',');
                d.extend(label(j));
                d.push(b'\n');
            }
            rows.push((*t, label(j), i));
        }
        let name = format!("in{}{}", i, if formats == 1 || formats == 2 || dc { "" } else { ".csv" });
        if std::fs::write(&name, &d).is_err() { sx::fail("cannot write an input"); }
        args.push(b(&name));
    }
    // the same input again
    let again = formats == 0 && sx::flag("again", 0);
    if again { args.push(b("in1.csv")); let more: Vec<_> = rows.iter().filter(|r| r.2 == 1).cloned().collect(); rows.extend(more); }
    args.extend(vec![b("--csv-in-epoch=ns"), b("-E")]);
    // the beginning of the year as a time is far later
    if kept { args.push(b("-e")); args.push(b("1990")); args.push(b("-zUTC")); }
    if binary { args.push(b("-oout.dc")); }
    let out = match cli(&args, b"", Want::Done) { Some(o) => o, None => return };
    rows.sort_by_key(|r| r.0);
    let out = if binary { std::fs::read("out.dc").unwrap_or_default() } else { out };
    // which of two rows of one time comes first is not told
    let mut want = if binary { encode_header(&[("t", "Ljava.lang.String;"), ("a", "Ljava.lang.String;")]) } else { b("timestampNanos,t,a\n") };
    let mut ties = false;
    for (k, (t, l, _)) in rows.iter().enumerate() {
        ties |= k > 0 && rows[k - 1].0 == *t;
        let text = b(&format!("{}", t));
        if binary {
            want.extend(&[0, 0, 0, 0, 0, 0, (t >> 8) as u8, *t as u8, 0, 0, 4]);
            want.extend(&text);
            want.extend(&[0, 2]);
            want.extend(l);
        } else {
            want.extend(&text);
            want.push(b',');
            want.extend(&text);
            want.push(b',');
            want.extend(l);
            want.push(b'\n');
        }
    }
    if ties { sx::check(out.len() == want.len(), "the output is not the rows of all inputs"); }
    else { sx::check(sx::eq_bytes(&out, &want), "the output is not the rows of all inputs in order"); sx::cover("in order"); }
}
/// the column of the time among many
fn columns() {
    let n = [2, 10, 11, 100, 101, 255, 256, 257, 300][sx::choose("columns", 0, 9)];
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose("at", 0, 5)];
    let d = digit("d", 0);
    let row: Vec<Vec<u8>> = (0..n).map(|i| if i == at { vec![d] } else { b("x") }).collect();
    let names: Vec<Vec<u8>> = (0..n).map(|i| b(&format!("n{}", i))).collect();
    let mut text = names.join(&b',');
    text.push(b'\n');
    text.extend(row.join(&b','));
    text.push(b'\n');
    if std::fs::write("i.csv", &text).is_err() { sx::fail("cannot write an input"); }
    let mut args = vec![b("i.csv"), b("--csv-in-epoch=ns"), b("-E"), b("--csv-in-has-header=yes")];
    opt(&mut args, "--csv-in-ts-col", "", format!("{}{}", if sx::flag("named", 0) { "n" } else { "" }, at).as_bytes(), sx::choose("form", 0, 2));
    if let Some(out) = cli(&args, b"", Want::Done) {
        let mut want = b("timestampNanos,");
        want.extend(names.join(&b','));
        want.push(b'\n');
        want.push(d);
        want.push(b',');
        want.extend(row.join(&b','));
        want.push(b'\n');
        sx::check(sx::eq_bytes(&out, &want), "the output is not the row at its time");
        sx::cover("read");
    }
}
/// names of zones the program is built with
fn zones() {
    let d = digit("d", 0);
    let mut text = b("t,a\n");
    text.extend(seconds(d));
    text.extend(b",x\n");
    if std::fs::write("i.csv", &text).is_err() { sx::fail("cannot write an input"); }
    let mut map = HashMap::new();
    let own = sx::flag("own", 0);
    if own { map.insert("UTC", Tz::Etc__GMTMinus3); map.insert("Here", Tz::Etc__GMTPlus2); map.insert("here", Tz::UTC); }
    let (name, offset) = [("UTC", 3), ("Here", -2), ("here", 0), ("HERE", 99), ("Etc/GMT-1", 1), ("Africa/Abidjan", 0)][sx::choose("name", 0, 6)];
    let offset = if own { offset } else if name == "UTC" { 0 } else if name.contains('/') { offset } else { 99 };
    let mut args = vec![b("--csv-in-epoch=s"), b("-gs"), b("i.csv")];
    let by_env = sx::flag("env", 0);
    if by_env { std::env::set_var("CHOPPER_TZ", name); } else { opt(&mut args, "--timezone", "-z", name.as_bytes(), sx::choose("form", 0, 5)); }
    let map = if own || sx::flag("map", 0) { Some(map) } else { None };
    let out = cli_zones(&args, b"", if offset == 99 { Want::Refused } else { Want::Done }, map);
    std::env::remove_var("CHOPPER_TZ");
    if let Some(out) = out {
        let mut want = b(&format!("time,t,a\n2020-09-13T{}:26:4", 12 + offset));
        want.push(d);
        want.extend(format!("{}0{}:00,", if offset < 0 { '-' } else { '+' }, (offset as i32).abs()).into_bytes());
        want.extend(seconds(d));
        want.extend(b",x\n");
        sx::observe_bytes("out", &out);
        sx::check(sx::eq_bytes(&out, &want), "the time is not in the zone named");
        sx::cover("zoned");
    }
}
crate::harness! {
    h_cli_zones { zones() }
    h_cli_many { many() }
    h_cli_columns { columns() }
    h_cli_output { output(false) }
    h_cli_styles { output(true) }
    h_cli_outfile { outfile() }
    h_cli_range { range() }
    h_cli_input { input() }
    h_cli_conflicts_3 { conflicts(3) }
    h_cli_conflicts_4 { conflicts(4) }
    h_cli_unknown { unknown() }
    h_cli_any_1 { any_value(1) }
    h_cli_any_2 { any_value(2) }
    h_cli_odd { odd() }
    h_cli_pairs_1 { pairs(1, 2) }
    h_cli_pairs_2 { pairs(2, 2) }
    h_cli_pairs_3 { pairs(3, 3) }
}
