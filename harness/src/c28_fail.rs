//! Failures surface, and what was written is there when a run has succeeded (C28).
use crate::c08_dc::encode_header;
use crate::c10_csv::nanos;
use crate::c12_csvout::UNITS;
use crate::c25_packed::{stored, suffix, How, KINDS};
use crate::kit::{any_range, boxed_source, chain, header2, in_range, label, lrow, new_log, rows_at, run, sorted_rows, Ev, Log, Rec, Shim};
use crate::{harness, sx};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TIMESTAMP_RANGE_ALL};
use chopper::cli::util::YesNoAuto;
use chopper::decompress::decompress::{decompress, is_compressed_using_format};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::{CliResult, Error};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{CSVOutputConfig, TimestampStyle};
use chopper::source::csv_source::CSVSource;
use chopper::source::dc_source::DCSource;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use chopper::write::factory::new_header_sink;
use std::cell::RefCell;
use std::io::{ErrorKind, Read};
use std::rc::Rc;

/// the one thing that goes wrong
#[derive(Clone, Copy, PartialEq)]
enum Fault {
    Nothing,
    /// this source, instead of its nth row or its end
    Source(usize, usize),
    /// this stage, at its header
    Header(usize),
    /// at its nth row
    Row(usize, usize),
    /// at its nth flush
    Flush(usize, usize),
}
#[derive(Clone)]
struct Trap {
    fault: Fault,
    sprung: Rc<RefCell<bool>>,
    io: bool,
}
impl Trap {
    fn at(&self, f: Fault) -> CliResult<()> {
        if self.fault != f {
            return Ok(());
        }
        *self.sprung.borrow_mut() = true;
        if self.io {
            return Err(Error::from(std::io::Error::from(ErrorKind::Other)));
        }
        Err(Error::from("failed on purpose"))
    }
}
struct Src {
    id: usize,
    header: Header,
    rows: Vec<Row>,
    at: usize,
    trap: Trap,
}
impl Source for Src {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        self.trap.at(Fault::Source(self.id, self.at))?;
        self.at += 1;
        Ok(self.rows.get(self.at - 1).cloned())
    }
}
struct Out {
    id: usize,
    log: Log,
    rows: usize,
    flushes: usize,
    trap: Trap,
}
impl HeaderSink for Out {
    fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.log.borrow_mut().push(Ev::Header(self.id, h.clone()));
        self.trap.at(Fault::Header(self.id))?;
        Ok(self)
    }
}
impl DataSink for Out {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        self.rows += 1;
        self.trap.at(Fault::Row(self.id, self.rows - 1))?;
        self.log.borrow_mut().push(Ev::Row(self.id, rows[0].clone()));
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.flushes += 1;
        self.trap.at(Fault::Flush(self.id, self.flushes - 1))?;
        self.log.borrow_mut().push(Ev::Flush(self.id));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}
fn merge_head(n: usize) -> HeaderNode {
    let m = MergeJoin::new(n).ok().unwrap();
    let t = m.get_new_header_count_tracker();
    HeaderNode::MergeHeaderSink(m, t)
}
fn split(to: Vec<usize>) -> HeaderNode {
    let s = Split::new(to);
    let t = s.get_new_header_count_tracker();
    HeaderNode::SplitHeaderSink(s, t)
}
/// (sources, which sources feed each stage, chains)
fn shape(k: usize, stage: &dyn Fn(usize) -> HeaderNode) -> (usize, Vec<Vec<usize>>, Vec<HeaderChain>) {
    match k {
        // one after the other
        0 => (1, vec![vec![0], vec![0]], vec![chain(vec![stage(0), stage(1)])]),
        // side by side
        1 => (2, vec![vec![0], vec![1]], vec![chain(vec![stage(0)]), chain(vec![stage(1)])]),
        // as the command line tool does it
        2 => (2, vec![vec![0, 1], vec![0, 1]], vec![chain(vec![HeaderNode::Merge(2)]), chain(vec![HeaderNode::Merge(2)]), chain(vec![merge_head(2), stage(0), stage(1)])]),
        3 => (3, vec![vec![0, 1, 2]], vec![chain(vec![HeaderNode::Merge(3)]), chain(vec![HeaderNode::Merge(3)]), chain(vec![HeaderNode::Merge(3)]), chain(vec![merge_head(3), stage(0)])]),
        // to two places and on
        4 => (1, vec![vec![0], vec![0], vec![0], vec![0]], vec![chain(vec![stage(0), split(vec![1, 2]), stage(1)]), chain(vec![stage(2)]), chain(vec![stage(3)])]),
        // merged, after and before stages of their own
        5 => (2, vec![vec![0], vec![0], vec![1], vec![0, 1]], vec![chain(vec![stage(0), HeaderNode::Merge(2), stage(1)]), chain(vec![stage(2), HeaderNode::Merge(2)]), chain(vec![merge_head(2), stage(3)])]),
        // one of two split to a merge with the other
        _ => (2, vec![vec![0], vec![0, 1]], vec![chain(vec![split(vec![2, 3])]), chain(vec![HeaderNode::Merge(3)]), chain(vec![stage(0)]), chain(vec![merge_head(2), stage(1)])]),
    }
}
fn faults(k: usize, max: usize, ranged: bool) {
    sx::allow(sx::OPAQUE);
    let range = if ranged { any_range() } else { TIMESTAMP_RANGE_ALL };
    let log = new_log();
    let sprung = Rc::new(RefCell::new(false));
    let blank = |_: usize| HeaderNode::Merge(0);
    let (n, feeds, _) = shape(k, &blank);
    let counts: Vec<usize> = (0..n).map(|i| sx::choose("rows", i, max + 1)).collect();
    let m = feeds.len();
    let fault = match sx::choose("fault", 0, 5) {
        0 => Fault::Nothing,
        1 => {
            let s = sx::choose("where", 0, n);
            Fault::Source(s, sx::choose("nth", 0, counts[s] + 1))
        }
        2 => Fault::Header(sx::choose("where", 0, m)),
        w => {
            let s = sx::choose("where", 0, m);
            let rows = feeds[s].iter().map(|f| counts[*f]).sum::<usize>();
            if w == 3 {
                sx::assume(rows > 0);
                Fault::Row(s, sx::choose("nth", 0, rows.max(1)))
            } else {
                Fault::Flush(s, sx::choose("nth", 0, feeds[s].len()))
            }
        }
    };
    let trap = Trap { fault, sprung: sprung.clone(), io: sx::flag("io", 0) };
    let stage = |id: usize| HeaderNode::HeaderSink(Box::new(Out { id, log: log.clone(), rows: 0, flushes: 0, trap: trap.clone() }));
    let (_, _, chains) = shape(k, &stage);
    let mut all = Vec::new();
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    for i in 0..n {
        let (ts, rows) = sorted_rows(i, counts[i]);
        all.push(ts);
        sources.push(Box::new(Src { id: i, header: header2(), rows, at: 0, trap: trap.clone() }));
    }
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let r = Driver::new(sources, HeaderGraph::new(chains), range, headers).and_then(|mut d| {
        // nothing is lost with the driver
        let r = ChopperDriver::drive(&mut d);
        if r.is_ok() {
            complete(&log, &feeds, &all, &range);
        }
        r
    });
    if *sprung.borrow() {
        sx::check(r.is_err(), "a failure did not make the run fail");
        sx::cover(match fault {
            Fault::Source(..) => "source",
            Fault::Header(_) => "header",
            Fault::Row(..) => "row",
            _ => "flush",
        });
    } else {
        sx::check(r.is_ok(), "a run in which nothing failed was reported as failed");
        // a source may only be left unread past the end of the time range
        if let Fault::Source(s, k) = fault {
            let mut past = false;
            for t in &all[s][..k] {
                past = sx::or(past, match range.end { Some(e) => *t >= e, None => false });
            }
            sx::check(past, "a source was not read to its end");
        }
        sx::cover("success");
    }
}
fn complete(log: &Log, feeds: &[Vec<usize>], all: &[Vec<u64>], range: &chopper::chopper::types::TimestampRange) {
    for (id, from) in feeds.iter().enumerate() {
        let last = log.borrow().iter().rev().find(|e| match e { Ev::Header(i, _) | Ev::Row(i, _) | Ev::Flush(i) => *i == id }).map(|e| matches!(e, Ev::Flush(_)));
        sx::check(last == Some(true), "an output was not flushed after all it was given");
        let rows = rows_at(log, id);
        for &s in from {
            for (k, t) in all[s].iter().enumerate() {
                let got = rows.iter().filter(|r| label(r) == (s, k)).count();
                sx::check(got <= 1, "a row was written more than once");
                sx::check((got == 1) == in_range(*t, range), "a successful run wrote other rows than those in range");
            }
        }
    }
}

/// many rows, sources, stages or branches; one failure early, in the middle or late
fn far() {
    sx::allow(sx::OPAQUE | sx::FORK);
    let k = sx::choose("topology", 0, 3);
    let size = sx::choose("size", 0, 3);
    // sources, rows of each, stages, stages fed by each source
    let (n, rows, m) = match k {
        0 => (1, [60, 20, 5][size], [2, 9, 33][size]),
        1 => ([5, 9, 33][size], 3, 2),
        _ => (1, [40, 9, 3][size], [4, 9, 33][size]),
    };
    let log = new_log();
    let sprung = Rc::new(RefCell::new(false));
    let pick = |n: usize| [0, n / 2, n - 1][sx::choose("pick", 0, 3)];
    let nth = |n: usize| [0, n / 2, n - 1][sx::choose("nth", 0, 3)];
    let fault = match sx::choose("fault", 0, 5) {
        0 => Fault::Nothing,
        1 => Fault::Source(pick(n), nth(rows + 1)),
        2 => Fault::Header(pick(m)),
        3 => Fault::Row(pick(m), nth(n * rows)),
        _ => Fault::Flush(pick(m), nth(if k == 1 { n } else { 1 })),
    };
    let trap = Trap { fault, sprung: sprung.clone(), io: sx::flag("io", 0) };
    let stage = |id: usize| HeaderNode::HeaderSink(Box::new(Out { id, log: log.clone(), rows: 0, flushes: 0, trap: trap.clone() }));
    let chains: Vec<HeaderChain> = match k {
        0 => vec![chain((0..m).map(|i| stage(i)).collect())],
        1 => {
            let mut c: Vec<HeaderChain> = (0..n).map(|_| chain(vec![HeaderNode::Merge(n)])).collect();
            c.push(chain(vec![merge_head(n), stage(0), stage(1)]));
            c
        }
        _ => {
            let mut c = vec![chain(vec![split((1..m).collect()), stage(0)])];
            c.extend((1..m).map(|i| chain(vec![stage(i)])));
            c
        }
    };
    let moved = [0, n * rows / 2, n * rows - 1][sx::choose("moved", 0, 3)];
    let mut all = Vec::new();
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    for i in 0..n {
        let mut ts = Vec::new();
        for r in 0..rows {
            let base = (1 + r as u64) * 1000;
            let t = if i * rows + r == moved {
                let t = sx::u64v("t", 0);
                sx::assume(sx::and(t >= base - 1000, r + 1 == rows || t <= base + 1000));
                t
            } else { base };
            ts.push(t);
        }
        sources.push(Box::new(Src { id: i, header: header2(), rows: ts.iter().enumerate().map(|(r, t)| lrow(*t, i, r)).collect(), at: 0, trap: trap.clone() }));
        all.push(ts);
    }
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let feeds: Vec<Vec<usize>> = (0..m).map(|_| (0..n).collect()).collect();
    let r = Driver::new(sources, HeaderGraph::new(chains), TIMESTAMP_RANGE_ALL, headers).and_then(|mut d| {
        let r = ChopperDriver::drive(&mut d);
        if r.is_ok() { complete(&log, &feeds, &all, &TIMESTAMP_RANGE_ALL); }
        r
    });
    if *sprung.borrow() {
        sx::check(r.is_err(), "a failure did not make the run fail");
        sx::cover(match fault { Fault::Source(..) => "source", Fault::Header(_) => "header", Fault::Row(..) => "row", _ => "flush" });
    } else {
        sx::check(r.is_ok(), "a run in which nothing failed was reported as failed");
        sx::check(!matches!(fault, Fault::Source(..)), "a source was not read to its end");
        sx::cover("success");
    }
}
fn csv_config() -> CSVOutputConfig {
    CSVOutputConfig::new(",", true, None, TimestampStyle::Epoch, UNITS[3].0, ChopperTz::new_always_fails())
}
fn strings() -> Header {
    Header::new(vec!["a".to_string()], vec![FieldType::String])
}
struct Strings(Header, std::vec::IntoIter<Row>);
impl Source for Strings {
    fn header(&self) -> &Header {
        &self.0
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(self.1.next())
    }
}
/// a disk without room left
fn full() {
    sx::allow(sx::OPAQUE);
    let n = sx::choose("rows", 0, 4);
    let rows: Vec<Row> = (0..n).map(|k| {
        let len = [0, 1, 5000, 9000][sx::choose("len", k, 4)];
        Row { timestamp: sx::byte("t", k) as u64, field_values: vec![FieldValue::String("x".repeat(len))] }
    }).collect();
    for k in 1..n {
        sx::assume(rows[k - 1].timestamp <= rows[k].timestamp);
    }
    let dc = sx::flag("dc", 0);
    // named so that the kind of output follows, as on the command line, where that is possible
    let path = "/dev/full".to_string();
    let out: Box<dyn HeaderSink> = if dc {
        match chopper::write::dc_sink::DCSink::new(&Some(path)) { Ok(s) => Box::new(s), Err(_) => { sx::fail("cannot open the output"); return; } }
    } else {
        match chopper::write::csv_sink::CSVSink::new(&Some(path), csv_config()) { Ok(s) => Box::new(s), Err(_) => { sx::fail("cannot open the output"); return; } }
    };
    let s: Box<dyn Source> = Box::new(Strings(strings(), rows.into_iter()));
    let log = new_log();
    // alone, or followed or preceded by an output that works
    let nodes = match sx::choose("others", 0, 3) {
        0 => vec![HeaderNode::HeaderSink(out)],
        1 => vec![HeaderNode::HeaderSink(out), Rec::node(0, &log)],
        _ => vec![Rec::node(0, &log), HeaderNode::HeaderSink(out)],
    };
    let r = run(vec![s], vec![chain(nodes)], TIMESTAMP_RANGE_ALL);
    sx::check(r.is_err(), "a run whose output could not be written succeeded");
    sx::cover("refused");
}
/// outputs that cannot be opened
fn unopened() {
    sx::allow(sx::OPAQUE);
    let _ = std::fs::create_dir("d.csv");
    let _ = std::fs::create_dir("d.dc");
    let p = ["none/o.csv", "none/o.dc", "d.csv", "d.dc", "d.csv/none/o.dc", "", "csv/", "o.txt", "o"][sx::choose("path", 0, 9)];
    let r = new_header_sink(Some(p), Some(csv_config()));
    sx::check(r.is_err(), "an output that cannot be opened was taken");
    let _ = std::fs::remove_dir("d.csv");
    let _ = std::fs::remove_dir("d.dc");
    sx::cover("refused");
}
/// all of it is in the file when the run has ended
fn on_disk(sources: usize) {
    let range = if sources == 1 { any_range() } else { TIMESTAMP_RANGE_ALL };
    let dc = sx::flag("dc", 0);
    let path = if dc { "o.dc" } else { "o.csv" };
    let len = [1, 3000, 9000][sx::choose("len", 0, 3)];
    let mut text = vec![b'y'; len];
    text[len - 1] = sx::byte("c", 0);
    let last = text[len - 1];
    sx::assume(sx::and(last > b' ', last < 0x7f));
    let mut all = Vec::new();
    let mut srcs: Vec<Box<dyn Source>> = Vec::new();
    for s in 0..sources {
        let n = sx::choose("rows", s, 3);
        let mut rows = Vec::new();
        for k in 0..n {
            // one digit, so that it does not matter how it is written
            let d = sx::byte("t", s * 4 + k);
            sx::assume(d < 10);
            let t = d as u64;
            if k > 0 {
                let before: &Row = &rows[k - 1];
                sx::assume(before.timestamp <= t);
            }
            let text = match String::from_utf8(text.clone()) { Ok(t) => t, Err(_) => return };
            rows.push(Row { timestamp: t, field_values: vec![FieldValue::String(text)] });
            all.push(t);
        }
        srcs.push(Box::new(Strings(strings(), rows.into_iter())));
    }
    let sink = match new_header_sink(Some(path), Some(csv_config())) { Ok(s) => s, Err(_) => { sx::fail("cannot open the output"); return; } };
    let mut chains = Vec::new();
    if sources == 1 {
        chains.push(chain(vec![HeaderNode::HeaderSink(sink)]));
    } else {
        for _ in 0..sources {
            chains.push(chain(vec![HeaderNode::Merge(sources)]));
        }
        chains.push(chain(vec![merge_head(sources), HeaderNode::HeaderSink(sink)]));
    }
    let headers = srcs.iter().map(|s| s.header().clone()).collect();
    let mut d = match Driver::new(srcs, HeaderGraph::new(chains), range, headers) { Ok(d) => d, Err(_) => { sx::fail("setting up a valid run failed"); return; } };
    sx::check(ChopperDriver::drive(&mut d).is_ok(), "a valid run failed");
    let got = std::fs::read(path).unwrap_or_default();
    // the sizes tell how many rows are there, the rest is for other properties
    let (head, each) = if dc {
        (crate::c08_dc::encode_header(&[("a", "Ljava.lang.String;")]).len(), 8 + 1 + 2 + len)
    } else {
        ("timestampNanos,a\n".len(), 2 + len + 1)
    };
    let mut want = 0;
    for t in &all {
        if in_range(*t, &range) {
            want += 1;
        }
    }
    sx::observe("size", got.len() as u64);
    if got.len() != head + want * each {
        sx::observe("head", head as u64);
        sx::observe("each", each as u64);
    }
    sx::check(got.len() == head + want * each, "not everything was in the output when the run had succeeded");
    if want > 0 {
        let end = if dc { got.len() } else { got.len() - 1 };
        sx::check(sx::eq_bytes(&got[end - len..end], &text), "the last row is not what was written");
        sx::cover("rows");
    } else {
        sx::cover("no rows");
    }
    drop(d);
    let _ = std::fs::remove_file(path);
}
const EINTR: u64 = 4;
const ERRORS: [u64; 6] = [5, 28, 32, 11, 27, EINTR];
/// the device of an output fails at one of its writes, for a while or for good, or takes only little at a time
fn faulty_output(rows: usize, lens: &[usize]) {
    sx::allow(sx::OPAQUE);
    let to = sx::choose("to", 0, 3);
    let dc = to == 1;
    let path = ["o.csv", "o.dc", "o"][to];
    if to == 2 {
        let _ = std::fs::write(path, "");
        sx::stdio("", path);
    }
    let name = "n".repeat([1, 9000][sx::choose("name", 0, 2)]);
    let time = "t".repeat(if dc { 1 } else { [1, 9000][sx::choose("time", 0, 2)] });
    let mut all = Vec::new();
    let mut size = if dc { crate::c08_dc::encode_header(&[(&name, "Ljava.lang.String;")]).len() } else { time.len() + 1 + name.len() + 1 };
    for k in 0..rows {
        let len = lens[sx::choose("len", k, lens.len())];
        all.push(Row { timestamp: k as u64, field_values: vec![FieldValue::String("v".repeat(len))] });
        size += if dc { 8 + 1 + 2 + len } else { 2 + len + 1 };
    }
    let config = CSVOutputConfig::new(",", true, Some(time), TimestampStyle::Epoch, UNITS[3].0, ChopperTz::new_always_fails());
    let sink = match new_header_sink(if to == 2 { None } else { Some(path) }, Some(config)) { Ok(s) => s, Err(_) => { sx::fail("cannot open the output"); return; } };
    let src: Box<dyn Source> = Box::new(Strings(Header::new(vec![name], vec![FieldType::String]), all.into_iter()));
    let headers = vec![src.header().clone()];
    let errno = ERRORS[sx::choose("error", 0, ERRORS.len())];
    let piece = [0, 5000][sx::choose("piece", 0, 2)];
    let at = sx::choose("at", 0, 7) as u64;
    let times = if errno == EINTR { 1 } else { [1, 2, 1000][sx::choose("times", 0, 3)] };
    sx::fault(true, at, times, errno, piece);
    let mut d = Driver::new(vec![src], HeaderGraph::new(vec![chain(vec![HeaderNode::HeaderSink(sink)])]), TIMESTAMP_RANGE_ALL, headers);
    let r = match &mut d { Ok(d) => ChopperDriver::drive(d).is_ok(), Err(_) => false };
    let failed = sx::fault_end();
    let got = std::fs::read(path).map(|v| v.len()).unwrap_or(0);
    drop(d);
    if to == 2 {
        sx::stdio_end();
    }
    let _ = std::fs::remove_file(path);
    if failed > 0 && errno != EINTR {
        sx::check(!r, "a run whose output could not be written succeeded");
        sx::cover("failed");
    } else {
        sx::check(r, "a run whose output could be written failed");
        sx::check(got == size, "not everything was in the output when the run had succeeded");
        sx::cover("written");
        if failed > 0 {
            sx::cover("interrupted");
        }
    }
}
/// the end of the process tells whether the run succeeded
fn exit_status() {
    use chopper::error::{handle_drive_error, Error};
    use std::io::ErrorKind::*;
    let kinds = [NotFound, PermissionDenied, ConnectionReset, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, UnexpectedEof, Other];
    let k = sx::choose("kind", 0, kinds.len() + 7);
    let n = sx::byte("text", 0);
    sx::assume(n < 0x80);
    let text = unsafe { String::from_utf8_unchecked(vec![n; sx::choose("length", 0, 2)]) };
    let result: CliResult<()> = if k < kinds.len() {
        Err(if sx::flag("os", 0) { std::io::Error::from(kinds[k]) } else { std::io::Error::new(kinds[k], text) }.into())
    } else {
        match k - kinds.len() {
            0 => Ok(()),
            1 => Err(Error::from(text)),
            2 => Err(Error::from("given")),
            3 => match chrono::NaiveDate::parse_from_str("2020", "%Y-%m-%d") { Err(e) => Err(e.into()), Ok(_) => return },
            4 => match crate::c10_csv::open(b"t,a\n1,\xff\n".to_vec(), 0, &nanos(Some(","), YesNoAuto::Yes)) { Err(e) => Err(e), Ok(_) => { sx::fail("text that is not UTF-8 was taken"); return; } },
            5 => {
                sx::args(&[b"chopper".to_vec(), b"--nothing".to_vec()]);
                sx::allow(sx::EXIT);
                chopper::chopper_cli::chopper_cli(None, None, None)
            }
            // what the device said
            _ => {
                let e = std::io::Error::from_raw_os_error([2, 5, 13, 28, 32][sx::choose("errno", 0, 5)]);
                Err(e.into())
            }
        }
    };
    sx::cover(if result.is_ok() { "success" } else { "failure" });
    sx::allow(if result.is_ok() { sx::EXIT0 } else { sx::EXIT });
    if sx::flag("own", 0) {
        if let Err(mut e) = result { e.exit(); }
        return;
    }
    handle_drive_error(result);
}
/// each write of a row in turn is the one that finds the buffer full and the device failing once
fn faulty_write() {
    sx::allow(sx::OPAQUE);
    let dc = sx::flag("dc", 0);
    let path = if dc { "o.dc" } else { "o.csv" };
    let types: &[(FieldType, &str)] = &[(FieldType::Byte, "B"), (FieldType::Char, "C"), (FieldType::Short, "S"), (FieldType::Int, "I"), (FieldType::Long, "J"), (FieldType::Float, "F"), (FieldType::Double, "D"), (FieldType::Double, "D"), (FieldType::String, "Ljava.lang.String;"), (FieldType::Int, "I")];
    let values = vec![FieldValue::Byte(1), FieldValue::Char(2), FieldValue::Short(3), FieldValue::Int(4), FieldValue::Long(5), FieldValue::Float(1.5), FieldValue::Double(2.5), FieldValue::Double(f64::INFINITY), FieldValue::String("s".to_string()), FieldValue::None];
    let mut names: Vec<String> = (0..types.len()).map(|k| format!("{}", k)).collect();
    let head = |names: &Vec<String>| if dc {
        let f: Vec<(&str, &str)> = names.iter().zip(types).map(|(n, t)| (n.as_str(), t.1)).collect();
        crate::c08_dc::encode_header(&f).len()
    } else {
        "timestampNanos".len() + names.iter().map(|n| 1 + n.len()).sum::<usize>() + 1
    };
    // room in the buffer, or how much of the header no longer fits
    let rest = sx::choose("rest", 0, 224);
    let fill = 8192 + 160 - rest - head(&names);
    names[0].push_str(&"n".repeat(fill));
    let size = 8192 + 160 - rest + if dc { 8 + 2 + 1 + 2 + 2 + 4 + 8 + 4 + 8 + 8 + 3 } else { "0,1,2,3,4,5,1.5,2.5,inf,s,\n".len() };
    let sink = match new_header_sink(Some(path), Some(csv_config())) { Ok(s) => s, Err(_) => { sx::fail("cannot open the output"); return; } };
    let src: Box<dyn Source> = Box::new(Strings(Header::new(names, types.iter().map(|t| t.0.clone()).collect()), vec![Row { timestamp: 0, field_values: values }].into_iter()));
    let headers = vec![src.header().clone()];
    let at = sx::choose("at", 0, 3) as u64;
    sx::fault(true, at, 1, 5, 0);
    let mut d = Driver::new(vec![src], HeaderGraph::new(vec![chain(vec![HeaderNode::HeaderSink(sink)])]), TIMESTAMP_RANGE_ALL, headers);
    let r = match &mut d { Ok(d) => ChopperDriver::drive(d).is_ok(), Err(_) => false };
    let failed = sx::fault_end();
    let got = std::fs::read(path).map(|v| v.len()).unwrap_or(0);
    drop(d);
    let _ = std::fs::remove_file(path);
    if failed > 0 {
        sx::check(!r, "a run whose output could not be written succeeded");
        sx::cover("failed");
    } else {
        sx::check(r && got == size, "not everything was in the output when the run had succeeded");
        sx::cover("written");
    }
}
/// the device of an input fails at one of its reads, for a while or for good, or gives only little at a time
fn faulty_input(kinds: usize) {
    sx::allow(sx::OPAQUE);
    let dc = sx::flag("dc", 0);
    let rows = 3;
    let len = [1, 3000, 9000][sx::choose("len", 0, 3)];
    let mut data = if dc { encode_header(&[("v", "Ljava.lang.String;")]) } else { b"t,v\n".to_vec() };
    for k in 0..rows {
        if dc {
            data.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, k as u8 + 1, 0, (len >> 8) as u8, len as u8]);
            data.extend_from_slice(&vec![b'v'; len]);
        } else {
            data.extend_from_slice(&[b'1' + k as u8, b',']);
            data.extend_from_slice(&vec![b'v'; len]);
            data.push(b'\n');
        }
    }
    // as it is, packed, in an archive, in a directory
    let how = [0, 1, 6, 7, 2, 3, 4, 5][sx::choose("how", 0, kinds)];
    let name = if dc { "i.dc" } else { "i.csv" };
    let mut path = name.to_string();
    match how {
        0 => {}
        1..=5 => {
            let kind = KINDS[how - 1];
            path += suffix(kind);
            let n = data.len();
            data = stored(kind, &data, How { block: n, sums: false, block_sums: false, notes: false });
        }
        6 => {
            path += ".zip";
            let mut z = crate::c19_zip::plain(&data);
            z.name = name.as_bytes().to_vec();
            data = z.bytes().0;
        }
        _ => {
            let _ = std::fs::create_dir("in");
            path = format!("in/{}", name);
        }
    }
    if std::fs::write(&path, &data).is_err() {
        sx::fail("cannot write the input");
        return;
    }
    let errno = [5, 21, EINTR][sx::choose("error", 0, 3)];
    let piece = [0, 700, 5000][sx::choose("piece", 0, 3)];
    let at = [0, 1, 2, 3, 5, 8, 13, 30][sx::choose("at", 0, 8)];
    let times = if errno == EINTR { 1 } else { [1, 2, 1000][sx::choose("times", 0, 3)] };
    let log = new_log();
    sx::fault(false, at, times, errno, piece);
    let r = InputFactory::new(nanos(Some(","), YesNoAuto::Yes), None, None)
        .and_then(|mut f| f.create_source_from_path(if how == 7 { "in" } else { &path }))
        .and_then(|s| run(vec![s], vec![chain(vec![Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL));
    let failed = sx::fault_end();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir("in");
    if failed > 0 && errno != EINTR {
        sx::check(r.is_err(), "a run whose input could not be read succeeded");
        sx::cover("failed");
    } else if failed == 0 || r.is_ok() {
        sx::check(r.is_ok(), "a run whose input could be read failed");
        let got = rows_at(&log, 0);
        sx::check(got.len() == rows && got.iter().all(|r| matches!(&r.field_values[dc as usize ^ 1], FieldValue::String(s) if s.len() == len)), "rows of a good input are missing");
        sx::cover("read");
    }
}
/// listing a directory breaks off
fn faulty_list() {
    sx::allow(sx::OPAQUE);
    let n = sx::choose("files", 0, 4);
    let _ = std::fs::create_dir("in");
    for k in 0..n {
        if std::fs::write(format!("in/{}.csv", k), format!("t,v\n{},x\n", k + 1)).is_err() {
            sx::fail("cannot write the input");
        }
    }
    let log = new_log();
    sx::fault_list(sx::choose("at", 0, 8) as u64, [1, 1000][sx::choose("times", 0, 2)], [5, 2, 13, 24][sx::choose("error", 0, 4)]);
    let r = InputFactory::new(nanos(Some(","), YesNoAuto::Yes), None, None).and_then(|mut f| f.create_source_from_path("in"));
    let failed = sx::fault_end();
    let r = r.and_then(|s| run(vec![s], vec![chain(vec![Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL));
    for k in 0..n {
        let _ = std::fs::remove_file(format!("in/{}.csv", k));
    }
    let _ = std::fs::remove_dir("in");
    if failed > 0 {
        sx::check(r.is_err(), "a run over a directory that could not be listed succeeded");
        sx::cover("failed");
    } else if n > 0 {
        sx::check(r.is_ok() && rows_at(&log, 0).len() == n, "rows of a directory are missing");
        sx::cover("read");
    }
}
fn source_of(kind: usize, r: Box<dyn Read>) -> CliResult<Box<dyn Source>> {
    if kind == 0 {
        let p = ChopperBufPreviewer::new(r)?;
        Ok(Box::new(CSVSource::new(p, &nanos(Some(","), YesNoAuto::Yes))?))
    } else {
        Ok(Box::new(DCSource::new(r)?))
    }
}
/// an input of one column and three rows, the first few with any text
fn input(kind: usize, any: usize) -> Vec<u8> {
    let mut v;
    if kind == 0 {
        v = b"t,v\n".to_vec();
        for k in 0..3 {
            let c = if k < any { sx::byte("c", k) } else { b'c' };
            sx::assume(sx::and(sx::and(c > b' ', c < 0x7f), sx::and(c != b',', c != b'"')));
            v.extend_from_slice(&[b'1' + k as u8, b',', c, b'\n']);
        }
    } else {
        v = encode_header(&[("v", "I")]);
        for k in 0..3 {
            v.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, k as u8 + 1, 0]);
            let c = if k < any { sx::byte("c", k) } else { b'c' };
            v.extend_from_slice(&[0, 0, c, 1]);
        }
    }
    v
}
/// reading breaks off with an error anywhere
fn unread(kind: usize) {
    sx::allow(sx::OPAQUE);
    let data = input(kind, 3);
    let n = data.len();
    let at = sx::choose("at", 0, n + 2);
    let mut s = Shim::step(data, [0, 1, 5][sx::choose("step", 0, 3)]);
    if at <= n {
        s.fail_at = Some(at);
    }
    let log = new_log();
    let merged = sx::flag("merged", 0);
    let r = source_of(kind, Box::new(s)).and_then(|s| {
        if merged {
            let h = Header::new(s.header().field_names().clone(), s.header().field_types().clone());
            let other: Box<dyn Source> = Box::new(Strings(h, vec![Row { timestamp: 2, field_values: vec![FieldValue::None] }].into_iter()));
            run(vec![s, other], vec![chain(vec![HeaderNode::Merge(2)]), chain(vec![HeaderNode::Merge(2)]), chain(vec![merge_head(2), Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL)
        } else {
            run(vec![s], vec![chain(vec![Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL)
        }
    });
    if at <= n {
        sx::check(r.is_err(), "a run whose input could not be read to its end succeeded");
        sx::cover("failed");
    } else {
        sx::check(r.is_ok() && rows_at(&log, 0).len() == 3 + merged as usize, "a good input was not read");
        sx::cover("read");
    }
}
/// compressed input that is cut
fn packed(kind: usize) {
    sx::allow(sx::OPAQUE);
    let data = input(kind, 1);
    let how = KINDS[sx::choose("packing", 0, 5)];
    let n = data.len();
    let mut v = stored(how, &data, How { block: n, sums: false, block_sums: false, notes: false });
    let at = 1 + sx::choose("at", 0, v.len());
    let whole = at == v.len();
    v.truncate(at);
    let log = new_log();
    let r = ChopperBufPreviewer::new(Box::new(Shim::new(v)) as Box<dyn Read>).map_err(Error::from).and_then(|p| {
        let f = is_compressed_using_format(suffix(how)).unwrap().0;
        decompress(f, p)
    }).and_then(|r| source_of(kind, r)).and_then(|s| run(vec![s], vec![chain(vec![Rec::node(0, &log)])], TIMESTAMP_RANGE_ALL));
    if whole {
        sx::check(r.is_ok() && rows_at(&log, 0).len() == 3, "a good input was not read");
        sx::cover("read");
    } else {
        sx::check(r.is_err(), "a run over cut compressed input succeeded");
        sx::cover("failed");
    }
}

harness! {
    h_fail_exit { exit_status(); }
    h_fail_far { far(); }
    h_fail_chain { faults(0, 3, true); }
    h_fail_pair { faults(1, 2, true); }
    h_fail_merge { faults(2, 2, true); }
    h_fail_merge_3 { faults(3, 1, true); }
    h_fail_split { faults(4, 2, true); }
    h_fail_tee { faults(5, 2, true); }
    h_fail_join { faults(6, 2, true); }
    h_fail_chain_5 { faults(0, 5, true); }
    h_fail_merge_deep { faults(2, 3, true); }
    h_fail_merge_3_deep { faults(3, 2, true); }
    h_fail_split_4 { faults(4, 4, true); }
    h_fail_tee_deep { faults(5, 3, true); }
    h_fail_join_deep { faults(6, 3, true); }
    h_fail_full { full(); }
    h_fail_write { faulty_output(1, &[1, 9000]); }
    h_fail_write_rows { faulty_output(3, &[1, 5000, 9000]); }
    h_fail_write_each { faulty_write(); }
    h_fail_read { faulty_input(8); }
    h_fail_list { faulty_list(); }
    h_fail_open { unopened(); }
    h_flush_file { on_disk(1); }
    h_flush_merged { on_disk(2); }
    h_fail_read_csv { unread(0); }
    h_fail_read_dc { unread(1); }
    h_fail_packed_csv { packed(0); }
    h_fail_packed_dc { packed(1); }
}
