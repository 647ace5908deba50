//! Stand-ins shared by the harnesses: in-memory sources, recording sinks, shims over readers.
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::error::{CliResult, Error};
use std::cell::RefCell;
use std::rc::Rc;

use crate::sx;

pub struct VecSource {
    pub header: Header,
    pub rows: std::vec::IntoIter<Row>,
    /// fail with an I/O error once this many rows were given out
    pub fail_at: Option<usize>,
    pub given: usize,
}
impl VecSource {
    pub fn new(header: Header, rows: Vec<Row>) -> VecSource {
        VecSource { header, rows: rows.into_iter(), fail_at: None, given: 0 }
    }
}
impl Source for VecSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.fail_at == Some(self.given) {
            return Err(Error::from("source failed"));
        }
        self.given += 1;
        Ok(self.rows.next())
    }
}

/// what reached a sink, in order
#[derive(Clone)]
pub enum Ev {
    Header(usize, Header),
    Row(usize, Row),
    Flush(usize),
}
pub type Log = Rc<RefCell<Vec<Ev>>>;
pub fn new_log() -> Log {
    Rc::new(RefCell::new(Vec::new()))
}
pub struct Rec {
    pub id: usize,
    pub log: Log,
    /// rows handed on for each row received
    pub copies: usize,
}
impl Rec {
    pub fn node(id: usize, log: &Log) -> HeaderNode {
        Rec::copies(id, log, 1)
    }
    pub fn copies(id: usize, log: &Log, copies: usize) -> HeaderNode {
        HeaderNode::HeaderSink(Box::new(Rec { id, log: log.clone(), copies }))
    }
}
impl HeaderSink for Rec {
    fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.log.borrow_mut().push(Ev::Header(self.id, h.clone()));
        Ok(self)
    }
}
impl DataSink for Rec {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        if rows.len() != 1 {
            sx::fail("a sink was given a number of rows other than one");
        }
        self.log.borrow_mut().push(Ev::Row(self.id, rows[0].clone()));
        if self.copies == 0 {
            rows.clear();
        }
        for k in 1..self.copies {
            let mut r = rows[0].clone();
            r.field_values.push(FieldValue::Int(k as i32));
            rows.push(r);
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.log.borrow_mut().push(Ev::Flush(self.id));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}
pub fn rows_at(log: &Log, id: usize) -> Vec<Row> {
    log.borrow().iter().filter_map(|e| match e { Ev::Row(i, r) if *i == id => Some(r.clone()), _ => None }).collect()
}
pub fn flushes_at(log: &Log, id: usize) -> usize {
    log.borrow().iter().filter(|e| matches!(e, Ev::Flush(i) if *i == id)).count()
}

pub fn header2() -> Header {
    Header::new(vec!["a".to_string(), "b".to_string()], vec![FieldType::Int, FieldType::Int])
}
/// a row labelled with its source and its place in it
pub fn lrow(ts: u64, src: usize, k: usize) -> Row {
    Row { timestamp: ts, field_values: vec![FieldValue::Int(src as i32), FieldValue::Int(k as i32)] }
}
pub fn label(r: &Row) -> (usize, usize) {
    let g = |i: usize| match r.field_values.get(i) {
        Some(FieldValue::Int(v)) => *v as usize,
        _ => {
            sx::fail("a row's fields changed on the way");
            0
        }
    };
    (g(0), g(1))
}
/// a source of n labelled rows whose symbolic timestamps never decrease
pub fn sorted_rows(src: usize, n: usize) -> (Vec<u64>, Vec<Row>) {
    let mut ts = Vec::new();
    for k in 0..n {
        let t = sx::u64v("t", src * 16 + k);
        if k > 0 {
            sx::assume(ts[k - 1] <= t);
        }
        ts.push(t);
    }
    let rows = ts.iter().enumerate().map(|(k, t)| lrow(*t, src, k)).collect();
    (ts, rows)
}
pub fn boxed_source(rows: Vec<Row>) -> Box<dyn Source> {
    Box::new(VecSource::new(header2(), rows))
}
pub fn chain(nodes: Vec<HeaderNode>) -> HeaderChain {
    HeaderChain::new(nodes)
}
pub fn run(sources: Vec<Box<dyn Source>>, chains: Vec<HeaderChain>, range: TimestampRange) -> CliResult<()> {
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = Driver::new(sources, HeaderGraph::new(chains), range, headers)?;
    ChopperDriver::drive(&mut d)
}
pub fn any_range() -> TimestampRange {
    let begin = if sx::flag("has_begin", 0) { Some(sx::u64v("begin", 0)) } else { None };
    let end = if sx::flag("has_end", 0) { Some(sx::u64v("end", 0)) } else { None };
    TimestampRange { begin, end }
}
/// branch-free membership
pub fn in_range(t: u64, r: &TimestampRange) -> bool {
    let a = match r.begin { Some(b) => t >= b, None => true };
    let b = match r.end { Some(e) => t < e, None => true };
    sx::and(a, b)
}
pub fn same_value(a: &FieldValue, b: &FieldValue) -> bool {
    match (a, b) {
        (FieldValue::Boolean(x), FieldValue::Boolean(y)) => x == y,
        (FieldValue::Byte(x), FieldValue::Byte(y)) => x == y,
        (FieldValue::ByteBuf(x), FieldValue::ByteBuf(y)) => sx::eq_bytes(x, y),
        (FieldValue::Char(x), FieldValue::Char(y)) => x == y,
        (FieldValue::Double(x), FieldValue::Double(y)) => x.to_bits() == y.to_bits(),
        (FieldValue::Float(x), FieldValue::Float(y)) => x.to_bits() == y.to_bits(),
        (FieldValue::Int(x), FieldValue::Int(y)) => x == y,
        (FieldValue::Long(x), FieldValue::Long(y)) => x == y,
        (FieldValue::Short(x), FieldValue::Short(y)) => x == y,
        (FieldValue::String(x), FieldValue::String(y)) => sx::eq_bytes(x.as_bytes(), y.as_bytes()),
        (FieldValue::None, FieldValue::None) => true,
        _ => false,
    }
}

/// A reader over given bytes that returns at most `step` bytes at a time (0: as many as asked
/// for) and, if `fail_at` is set, an error instead of the bytes from there on.
pub struct Shim {
    pub data: Vec<u8>,
    pub pos: usize,
    pub step: usize,
    pub fail_at: Option<usize>,
    /// deliver this many Interrupted errors, one before each read
    pub interrupts: usize,
    /// choose each read's size separately
    pub wild: bool,
    pub reads: usize,
}
impl Shim {
    pub fn new(data: Vec<u8>) -> Shim {
        Shim { data, pos: 0, step: 0, fail_at: None, interrupts: 0, wild: false, reads: 0 }
    }
    pub fn step(data: Vec<u8>, step: usize) -> Shim {
        Shim { step, ..Shim::new(data) }
    }
}
impl std::io::Read for Shim {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        self.reads += 1;
        let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
        let mut n = buf.len().min(end - self.pos);
        if self.step > 0 {
            n = n.min(self.step);
        }
        if self.wild && n > 1 {
            n = 1 + sx::choose("read", self.reads, n);
        }
        if n == 0 && buf.len() > 0 && self.fail_at.is_some() && self.pos == end {
            return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
