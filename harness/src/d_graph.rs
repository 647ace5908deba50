//! Routing of rows and headers through graphs of chains (C04, C05).
use crate::kit::{chain, new_log, run, Ev, Log, VecSource};
use crate::sx;
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::CliResult;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, PartialEq)]
enum N {
    /// a stage
    S(usize),
    /// split to these chains
    X(Vec<usize>),
    /// merge into that chain
    M(usize),
    /// head of a chain that merges so many inputs
    H(usize),
}
use N::*;
type Spec = Vec<Vec<N>>;

/// how many rows a stage hands on for a row, decided when first needed
#[derive(Clone)]
struct Copies {
    wild: usize,
    max: usize,
    memo: Rc<RefCell<Vec<Option<usize>>>>,
}
impl Copies {
    fn get(&self, stage: usize, row: usize) -> usize {
        if stage != self.wild {
            return 1;
        }
        if let Some(c) = self.memo.borrow()[row] {
            return c;
        }
        let c = sx::choose("copies", row, self.max + 1);
        self.memo.borrow_mut()[row] = Some(c);
        c
    }
}

fn stage_type(id: usize) -> FieldType {
    [FieldType::Double, FieldType::String, FieldType::Long][id % 3]
}
/// A stage: notes the header and the rows it gets, appends a column named after itself, and
/// appends to each row a value that says which stage and which copy made it.
struct Stage {
    id: usize,
    log: Log,
    copies: Copies,
    append: bool,
}
impl HeaderSink for Stage {
    fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.log.borrow_mut().push(Ev::Header(self.id, h.clone()));
        if self.append {
            h.field_names_mut().push(format!("s{}", self.id));
            h.field_types_mut().push(stage_type(self.id));
        }
        Ok(self)
    }
}
impl DataSink for Stage {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        if rows.len() != 1 {
            sx::fail("a stage was given a number of rows other than one");
        }
        self.log.borrow_mut().push(Ev::Row(self.id, rows[0].clone()));
        let orig = match rows[0].field_values[0] { FieldValue::Int(v) => v as usize, _ => 0 };
        let n = self.copies.get(self.id, orig);
        let base = rows.pop().unwrap();
        for k in 0..n {
            let mut r = base.clone();
            r.field_values.push(FieldValue::Int((self.id * 4096 + k) as i32));
            rows.push(r);
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn build(spec: &Spec, log: &Log, copies: &Copies, append: bool) -> Vec<HeaderChain> {
    spec.iter().map(|c| chain(c.iter().map(|n| match n {
        S(id) => HeaderNode::HeaderSink(Box::new(Stage { id: *id, log: log.clone(), copies: copies.clone(), append })),
        X(v) => { let s = Split::new(v.clone()); let t = s.get_new_header_count_tracker(); HeaderNode::SplitHeaderSink(s, t) }
        M(c) => HeaderNode::Merge(*c),
        H(n) => { let m = MergeJoin::new(*n).ok().unwrap(); let t = m.get_new_header_count_tracker(); HeaderNode::MergeHeaderSink(m, t) }
    }).collect())).collect()
}

/// the rows each stage must get, by following one row through the graph, in order
fn deliver(spec: &Spec, copies: &Copies, ch: usize, at: usize, hist: &[i32], out: &mut Vec<(usize, Vec<i32>)>) {
    if at == spec[ch].len() {
        return;
    }
    match &spec[ch][at] {
        H(_) => deliver(spec, copies, ch, at + 1, hist, out),
        M(c) => {
            deliver(spec, copies, *c, 0, hist, out);
            deliver(spec, copies, ch, at + 1, hist, out);
        }
        X(v) => {
            for c in v {
                deliver(spec, copies, *c, 0, hist, out);
            }
            deliver(spec, copies, ch, at + 1, hist, out);
        }
        S(id) => {
            out.push((*id, hist.to_vec()));
            for k in 0..copies.get(*id, hist[0] as usize) {
                let mut h = hist.to_vec();
                h.push((*id * 4096 + k) as i32);
                deliver(spec, copies, ch, at + 1, &h, out);
            }
        }
    }
}

fn hist(r: &Row) -> Vec<i32> {
    r.field_values.iter().map(|v| match v { FieldValue::Int(i) => *i, _ => -1 }).collect()
}
/// the stages a row went through, without copy numbers
fn path(h: &[i32]) -> Vec<i32> {
    h[1..].iter().map(|v| v / 4096).collect()
}

fn sources(counts: &[usize]) -> (Vec<Box<dyn Source>>, Vec<Vec<u64>>) {
    let mut all = Vec::new();
    let mut v: Vec<Box<dyn Source>> = Vec::new();
    let mut id = 0;
    for (i, n) in counts.iter().enumerate() {
        let mut ts: Vec<u64> = Vec::new();
        let mut rows = Vec::new();
        for k in 0..*n {
            let t = sx::u64v("t", i * 16 + k);
            if k > 0 {
                sx::assume(ts[k - 1] <= t);
            }
            ts.push(t);
            rows.push(Row { timestamp: t, field_values: vec![FieldValue::Int(id)] });
            id += 1;
        }
        all.push(ts);
        v.push(Box::new(VecSource::new(Header::new(vec!["a".to_string()], vec![FieldType::Int]), rows)));
    }
    (v, all)
}

/// run a graph and compare what each stage got with what it must get
fn route(spec: &Spec, counts: &[usize], wild: usize, max: usize) {
    let log = new_log();
    let total: usize = counts.iter().sum();
    let copies = Copies { wild, max, memo: Rc::new(RefCell::new(vec![None; total])) };
    let (src, ts) = sources(counts);
    let r = run(src, build(spec, &log, &copies, false), TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "a valid graph failed");
    let mut want = Vec::new();
    let mut id = 0;
    for (i, n) in counts.iter().enumerate() {
        for _ in 0..*n {
            deliver(spec, &copies, i, 0, &[id], &mut want);
            id += 1;
        }
    }
    let flat: Vec<u64> = ts.concat();
    let mut got: Vec<(usize, Vec<i32>)> = Vec::new();
    for e in log.borrow().iter() {
        if let Ev::Row(s, r) = e {
            let h = hist(r);
            sx::check(r.timestamp == flat[h[0] as usize], "a row's timestamp changed on the way");
            got.push((*s, h));
        }
    }
    let count = |v: &Vec<(usize, Vec<i32>)>, x: &(usize, Vec<i32>)| v.iter().filter(|y| *y == x).count();
    for w in &want {
        sx::check(count(&got, w) == count(&want, w), "a row did not reach a stage downstream the right number of times");
    }
    sx::check(got.len() == want.len(), "a stage got a row that it should not get");
    for (i, a) in got.iter().enumerate() {
        for b in &got[i + 1..] {
            // same stage, same way there, same source: in order
            if a.0 == b.0 && path(&a.1) == path(&b.1) && src_of(counts, a.1[0]) == src_of(counts, b.1[0]) {
                sx::check(a.1 <= b.1, "rows that came the same way were reordered");
            }
        }
    }
    sx::observe("deliveries", got.len() as u64);
    if got.len() > total * 2 { sx::cover("fan out"); }
    let stages = spec.iter().flatten().filter(|n| matches!(n, S(_))).count();
    for s in 0..stages {
        let seen = log.borrow().iter().filter(|e| matches!(e, Ev::Header(i, _) if *i == s)).count();
        sx::check(seen == 1, "a stage was not set up exactly once");
    }
}
fn src_of(counts: &[usize], id: i32) -> usize {
    let mut n = 0;
    for (i, c) in counts.iter().enumerate() {
        n += *c as i32;
        if id < n { return i; }
    }
    99
}
fn shapes() -> Vec<(Spec, usize, usize)> {
    vec![
        // (graph, sources, stages)
        (vec![vec![S(0), S(1), S(2)]], 1, 3),
        (vec![vec![S(0), M(1), S(1)], vec![H(1), S(2)]], 1, 3),
        (vec![vec![S(0), X(vec![1, 2]), S(1)], vec![S(2)], vec![S(3)]], 1, 4),
        (vec![vec![S(0), X(vec![1, 2]), S(1)], vec![S(2), M(3), S(3)], vec![S(4), M(3)], vec![H(2), S(5), S(6)]], 1, 7),
        (vec![vec![S(0), M(2), S(1)], vec![S(2), M(2)], vec![H(2), S(3), X(vec![3]), S(4)], vec![S(5)]], 2, 6),
        (vec![vec![X(vec![1, 2])], vec![S(0), X(vec![3]), S(1)], vec![S(2)], vec![S(3), S(4)]], 1, 5),
        (vec![vec![S(0), X(vec![1, 2]), S(1)], vec![S(2), M(2)], vec![H(2), S(3)]], 1, 4),
        (vec![vec![H(2), S(0), M(2), S(1)], vec![S(2), M(0), S(3)], vec![H(1), S(4)]], 2, 5),
        (vec![vec![S(0), M(2), M(3), S(1)], vec![S(2), M(2), M(3), S(3)], vec![H(2), S(4)], vec![H(2), S(5)]], 2, 6),
    ]
}
fn route_any(max: usize, rows: usize) {
    let sh = shapes();
    let (spec, n, stages) = &sh[sx::choose("shape", 0, sh.len())];
    let wild = sx::choose("wild", 0, *stages);
    let counts: Vec<usize> = if *n == 1 { vec![rows] } else { vec![rows - 1, 1] };
    route(spec, &counts, wild, max);
}

/// what each stage must see as its header
fn headers_of(spec: &Spec, ch: usize, at: usize, h: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>)>) {
    for n in &spec[ch][at..] {
        match n {
            S(id) => {
                out.push((*id, h.clone()));
                h.push(format!("s{}", id));
            }
            X(v) => for c in v { headers_of(spec, *c, 0, &mut h.clone(), out) },
            M(c) => headers_of(spec, *c, 0, &mut h.clone(), out),
            H(_) => {}
        }
    }
}
fn headers() {
    let specs: Vec<Spec> = vec![
        vec![vec![S(0), S(1), S(2)]],
        vec![vec![S(0), M(1), S(1)], vec![H(1), S(2), S(3)]],
        vec![vec![S(0), X(vec![1, 2]), S(1)], vec![S(2), S(3)], vec![S(4), S(5)]],
        vec![vec![X(vec![1, 2]), S(0)], vec![S(1), X(vec![3]), S(2)], vec![S(3)], vec![S(4), S(5)]],
        vec![vec![S(0), X(vec![1]), M(2), S(1)], vec![S(2), S(3)], vec![H(1), S(4), X(vec![3]), S(5)], vec![S(6)]],
    ];
    let spec = &specs[sx::choose("shape", 0, specs.len())];
    let log = new_log();
    let copies = Copies { wild: 99, max: 1, memo: Rc::new(RefCell::new(vec![])) };
    let (src, _) = sources(&[1]);
    let r = run(src, build(spec, &log, &copies, true), TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "a valid graph failed");
    let mut want = Vec::new();
    headers_of(spec, 0, 0, &mut vec!["a".to_string()], &mut want);
    let mut got: Vec<(usize, Vec<String>)> = log.borrow().iter().filter_map(|e| match e { Ev::Header(i, h) => Some((*i, h.field_names().clone())), _ => None }).collect();
    want.sort();
    got.sort();
    sx::check(got == want, "a stage was set up with a header other than that of its rows");
    for e in log.borrow().iter() {
        if let Ev::Header(s, h) = e {
            let mut t = vec![FieldType::Int];
            t.extend(h.field_names().iter().skip(1).map(|n| stage_type(n[1..].parse().unwrap())));
            sx::check(*h.field_types() == t, "column types of a stage are not those of its rows");
            let _ = s;
        }
        if let Ev::Row(s, r) = e {
            let h = &want.iter().find(|w| w.0 == *s).unwrap().1;
            sx::check(r.field_values.len() == h.len(), "rows and header of a stage have different numbers of columns");
            for (v, n) in r.field_values.iter().zip(h).skip(1) {
                sx::check(matches!(v, FieldValue::Int(i) if format!("s{}", i / 4096) == *n), "row values are not in the columns of the header");
            }
        }
    }
    sx::cover("headers");
}

/// merged inputs with small arbitrary headers
fn any_header(i: usize, max: usize) -> (Header, Vec<u8>) {
    let n = sx::choose("cols", i, max + 1);
    let mut names = Vec::new();
    let mut types = Vec::new();
    let mut key = vec![n as u8];
    for k in 0..n {
        let b = sx::byte("name", i * 8 + k);
        sx::assume(sx::and(b >= b' ', b < 0x7f));
        let t = sx::choose("type", i * 8 + k, 3);
        names.push(String::from_utf8(vec![b]).unwrap());
        types.push([FieldType::Int, FieldType::Double, FieldType::String][t]);
        key.push(b);
        key.push(t as u8);
    }
    (Header::new(names, types), key)
}
fn merge_headers(n: usize, max: usize) {
    let log = new_log();
    let hs: Vec<(Header, Vec<u8>)> = (0..n).map(|i| any_header(i, max)).collect();
    let mut src: Vec<Box<dyn Source>> = Vec::new();
    let mut spec = Vec::new();
    for (i, (h, _)) in hs.iter().enumerate() {
        let row = Row { timestamp: i as u64, field_values: vec![FieldValue::Int(i as i32); h.field_names().len()] };
        src.push(Box::new(VecSource::new(h.clone(), vec![row])));
        spec.push(vec![M(n)]);
    }
    spec.push(vec![H(n), S(0)]);
    let copies = Copies { wild: 99, max: 1, memo: Rc::new(RefCell::new(vec![])) };
    let headers: Vec<Header> = hs.iter().map(|x| x.0.clone()).collect();
    let d = Driver::new(src, HeaderGraph::new(build(&spec, &log, &copies, false)), TIMESTAMP_RANGE_ALL, headers);
    let mut same = true;
    for x in &hs[1..] {
        same = sx::and(same, sx::eq_bytes(&x.1, &hs[0].1));
    }
    match d {
        Ok(_) => {
            sx::check(same, "merged inputs with different headers were accepted");
            sx::cover("accepted");
        }
        Err(_) => {
            sx::check(!same, "merged inputs with the same header were refused");
            sx::cover("refused");
            sx::check(log.borrow().iter().all(|e| !matches!(e, Ev::Row(..))), "rows were processed before the refusal");
        }
    }
}

/// an arbitrary small graph: refused with an error unless it adds up, and never a crash
fn any_node(slot: usize, stage: &mut usize, chains: usize) -> N {
    let k = sx::choose("kind", slot, 5);
    match k {
        0 => { *stage += 1; S(*stage - 1) }
        1 => X(vec![sx::choose("to", slot, chains + 1)]),
        2 => { let a = sx::choose("to", slot, chains + 1); X(vec![a, sx::choose("and", slot, chains)]) }
        3 => M(sx::choose("to", slot, chains + 1)),
        _ => H(1 + sx::choose("of", slot, 2)),
    }
}
/// Some(true) adds up, Some(false) does not, None: says nothing
fn adds_up(spec: &Spec, nsrc: usize) -> Option<bool> {
    // inputs each chain really gets, found by walking from the sources; a chain is walked once
    // all its inputs have come
    let n = spec.len();
    let mut inputs = vec![0usize; n];
    let mut walked = vec![false; n];
    let mut todo: Vec<(usize, bool)> = (0..nsrc).map(|i| (i, false)).collect();
    while let Some((c, by_merge)) = todo.pop() {
        if c >= n { return Some(false); }
        inputs[c] += 1;
        let need = match spec[c].get(0) { Some(H(k)) => *k, _ => { if by_merge { return Some(false) } 1 } };
        if inputs[c] > need { return Some(false); }
        if inputs[c] < need { continue; }
        walked[c] = true;
        for (i, x) in spec[c].iter().enumerate() {
            match x {
                H(_) if i > 0 => return Some(false),
                M(t) => todo.push((*t, true)),
                X(v) => for t in v { todo.push((*t, false)) },
                _ => {}
            }
        }
    }
    for c in 0..n {
        if !walked[c] {
            if let Some(H(_)) = spec[c].get(0) {
                return if inputs[c] > 0 { Some(false) } else { None };
            }
        }
    }
    Some(true)
}
fn any_graph(chains: usize, maxlen: usize) {
    let mut stage = 0;
    let spec: Spec = (0..chains).map(|c| {
        let n = sx::choose("len", c, maxlen + 1);
        (0..n).map(|k| any_node(c * 4 + k, &mut stage, chains)).collect()
    }).collect();
    let nsrc = 1 + sx::choose("sources", 0, chains);
    let log = new_log();
    let counts = vec![1; nsrc];
    let copies = Copies { wild: 99, max: 1, memo: Rc::new(RefCell::new(vec![])) };
    let (src, _) = sources(&counts);
    let heads = src.iter().map(|s| s.header().clone()).collect();
    let ok = adds_up(&spec, nsrc);
    match Driver::new(src, HeaderGraph::new(build(&spec, &log, &copies, false)), TIMESTAMP_RANGE_ALL, heads) {
        Err(_) => {
            sx::check(ok != Some(true), "a graph that adds up was refused");
            sx::cover("refused");
        }
        Ok(mut d) => {
            sx::check(ok != Some(false), "a graph that does not add up was accepted");
            if ok == Some(false) { return; }
            let r = ChopperDriver::drive(&mut d);
            sx::check(r.is_ok(), "running an accepted graph failed");
            let mut want = Vec::new();
            for i in 0..nsrc {
                deliver(&spec, &copies, i, 0, &[i as i32], &mut want);
            }
            let mut got: Vec<(usize, Vec<i32>)> = log.borrow().iter().filter_map(|e| match e { Ev::Row(s, r) => Some((*s, hist(r))), _ => None }).collect();
            want.sort();
            got.sort();
            sx::check(got == want, "rows of an accepted graph were not routed as it says");
            sx::cover("accepted");
        }
    }
}

/// the number of sources, headers and chains given to a driver must fit together
fn counts_fit() {
    let chains = sx::choose("chains", 0, 4);
    let nsrc = sx::choose("sources", 0, 4);
    let nhead = sx::choose("headers", 0, 4);
    let log = new_log();
    let copies = Copies { wild: 99, max: 1, memo: Rc::new(RefCell::new(vec![])) };
    let spec: Spec = (0..chains).map(|i| vec![S(i)]).collect();
    let (src, _) = sources(&vec![1; nsrc]);
    let heads = (0..nhead).map(|_| Header::new(vec!["a".to_string()], vec![FieldType::Int])).collect();
    let r = Driver::new(src, HeaderGraph::new(build(&spec, &log, &copies, false)), TIMESTAMP_RANGE_ALL, heads);
    match r {
        Ok(mut d) => {
            sx::check(nsrc == nhead && nsrc <= chains, "sources without a chain or header were accepted");
            let r = ChopperDriver::drive(&mut d);
            sx::check(r.is_ok() && crate::kit::rows_at(&log, 0).len() == (nsrc > 0) as usize, "an accepted driver failed");
        }
        Err(_) => sx::check(!(nsrc == nhead && nsrc <= chains), "matching sources, headers and chains were refused"),
    }
}
/// graphs with many chains, stages, sources or rows
fn wide() {
    let m = [3, 4, 8, 9, 16, 17, 33][sx::choose("size", 0, 7)];
    let mut rows = 1;
    let (spec, n, stages): (Spec, usize, usize) = match sx::choose("family", 0, 9) {
        // one stage after the other
        0 => (vec![(0..m).map(S).collect()], 1, m),
        // split to many
        1 => (std::iter::once(vec![X((1..=m).collect()), S(m)]).chain((0..m).map(|i| vec![S(i)])).collect(), 1, m + 1),
        // many merged
        2 => ((0..m).map(|i| vec![S(i), M(m)]).chain(std::iter::once(vec![H(m), S(m)])).collect(), m, m + 1),
        // split and merged
        3 => (std::iter::once(vec![X((1..=m).collect())]).chain((0..m).map(|i| vec![S(i), M(m + 1)])).chain(std::iter::once(vec![H(m), S(m)])).collect(), 1, m + 1),
        // one merge after the other
        4 => ((0..m).map(|i| if i == 0 { vec![S(i), M(1)] } else if i + 1 < m { vec![H(1), S(i), M(i + 1)] } else { vec![H(1), S(i)] }).collect(), 1, m),
        // many merges in one chain
        5 => (std::iter::once((1..=m).map(M).chain(vec![S(m)]).collect()).chain((0..m).map(|i| vec![H(1), S(i)])).collect(), 1, m + 1),
        // one split after the other
        6 => ((0..m).map(|i| if i + 1 < m { vec![S(i), X(vec![i + 1])] } else { vec![S(i)] }).collect(), 1, m),
        // many splits in one chain
        7 => (std::iter::once((1..=m).map(|c| X(vec![c])).chain(vec![S(m)]).collect()).chain((0..m).map(|i| vec![S(i)])).collect(), 1, m + 1),
        // many rows
        _ => { rows = m; (vec![vec![S(0), X(vec![1]), M(2), S(1)], vec![S(2), M(2)], vec![H(2), S(3)]], 1, 4) }
    };
    let wild = [0, stages / 2, stages - 1][sx::choose("wild", 0, 3)];
    let log = new_log();
    // the first row's copies are any number, the others' one
    let total = n * rows;
    let which = [0, total - 1][sx::choose("row", 0, 2)];
    let mut memo = vec![Some(1); total];
    memo[which] = None;
    let copies = Copies { wild, max: 2, memo: Rc::new(RefCell::new(memo)) };
    let head = || Header::new(vec!["a".to_string()], vec![FieldType::Int]);
    let mut src: Vec<Box<dyn Source>> = vec![];
    let mut want = vec![];
    let any = sx::u64v("t", 0);
    for i in 0..n {
        let v = (0..rows).map(|k| { let id = i * rows + k; Row { timestamp: if id == 0 && rows == 1 { any } else { 100 + id as u64 }, field_values: vec![FieldValue::Int(id as i32)] } }).collect();
        src.push(Box::new(VecSource::new(head(), v)));
        for k in 0..rows { deliver(&spec, &copies, i, 0, &[(i * rows + k) as i32], &mut want); }
    }
    let r = run(src, build(&spec, &log, &copies, false), TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "a valid graph failed");
    let mut got: Vec<(usize, Vec<i32>)> = vec![];
    for e in log.borrow().iter() {
        if let Ev::Row(s, r) = e {
            let h = hist(r);
            if h[0] > 0 || rows > 1 { sx::check(r.timestamp == 100 + h[0] as u64, "a row's timestamp changed on the way"); }
            else { sx::check(r.timestamp == any, "a row's timestamp changed on the way"); }
            got.push((*s, h));
        }
    }
    if n == 1 {
        // per stage, the rows come in the order of the source
        for s in 0..stages {
            let g: Vec<_> = got.iter().filter(|x| x.0 == s && x.1.len() > 0).map(|x| x.1[0]).collect();
            sx::check(g.windows(2).all(|w| w[0] <= w[1]), "rows that came the same way were reordered");
        }
    }
    sx::check(got.len() == want.len(), "a stage got a number of rows other than it should");
    got.sort();
    want.sort();
    sx::check(got == want, "a row did not reach a stage downstream the right number of times");
    sx::cover("wide");
}
/// a stage that makes very many rows of one, and what follows it
fn burst() {
    let k = [4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 1025][sx::choose("burst", 0, 11)];
    let (spec, stages): (Spec, usize) = match sx::choose("shape", 0, 5) {
        0 => (vec![vec![S(0), S(1)]], 2),
        1 => (vec![vec![S(0), S(1), S(2)]], 3),
        2 => (vec![vec![S(0), X(vec![1, 2]), S(1)], vec![S(2)], vec![S(3)]], 4),
        3 => (vec![vec![S(0), M(1), S(1)], vec![H(1), S(2)]], 3),
        _ => (vec![vec![X(vec![1]), S(0)], vec![S(1), S(2)]], 3),
    };
    let wild = sx::choose("wild", 0, stages - 1);
    let log = new_log();
    let any = sx::u64v("t", 0);
    let copies = Copies { wild, max: 2, memo: Rc::new(RefCell::new(vec![Some(k), Some(if k % 2 == 0 { 0 } else { 2 })])) };
    let head = || Header::new(vec!["a".to_string()], vec![FieldType::Int]);
    let rows = vec![Row { timestamp: 7, field_values: vec![FieldValue::Int(0)] }, Row { timestamp: any, field_values: vec![FieldValue::Int(1)] }];
    let src: Vec<Box<dyn Source>> = vec![Box::new(VecSource::new(head(), rows))];
    let mut want = vec![];
    for r in 0..2 { deliver(&spec, &copies, 0, 0, &[r], &mut want); }
    sx::assume(any >= 7);
    let r = run(src, build(&spec, &log, &copies, false), TIMESTAMP_RANGE_ALL);
    sx::check(r.is_ok(), "a valid graph failed");
    let mut got: Vec<(usize, Vec<i32>)> = vec![];
    for e in log.borrow().iter() {
        if let Ev::Row(s, r) = e {
            let h = hist(r);
            sx::check(r.timestamp == if h[0] == 0 { 7 } else { any }, "a row's timestamp changed on the way");
            got.push((*s, h));
        }
    }
    sx::check(got.len() == want.len(), "a stage got a number of rows other than it should");
    // in a chain, the rows come in the order in which they were made
    for s in 0..stages {
        let of = |v: &Vec<(usize, Vec<i32>)>| v.iter().filter(|x| x.0 == s).map(|x| x.1.clone()).collect::<Vec<_>>();
        sx::check(of(&got) == of(&want), "rows were lost, repeated or reordered on their way to a stage");
    }
    sx::cover("burst");
}
/// many inputs with many columns, one of which may be different in one place
fn merge_wide() {
    let n = [2, 3, 8, 9, 17][sx::choose("inputs", 0, 5)];
    let c = [1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 256][sx::choose("cols", 0, 12)];
    let who = [0, 1, n / 2, n - 1][sx::choose("who", 0, 4)];
    let at = [0, c / 2, c - 1][sx::choose("at", 0, 3)];
    let what = sx::choose("what", 0, 5);
    let any = sx::byte("name", 0);
    sx::assume(sx::and(any >= b' ', any < 0x7f));
    let mut same = true;
    let hs: Vec<Header> = (0..n).map(|i| {
        let mut names: Vec<String> = (0..c).map(|k| format!("column {}", k)).collect();
        let mut types: Vec<FieldType> = (0..c).map(|k| stage_type(k)).collect();
        if i == who {
            match what {
                0 => { let mut b = names[at].clone().into_bytes(); b[0] = any; names[at] = unsafe { String::from_utf8_unchecked(b) }; same = any == b'c'; }
                1 => { let mut b = names[at].clone().into_bytes(); b.push(any); names[at] = unsafe { String::from_utf8_unchecked(b) }; same = false; }
                2 => { types[at] = FieldType::Int; same = false; }
                3 => { names.remove(at); types.remove(at); same = false; }
                _ => { names.push("more".to_string()); types.push(FieldType::Int); same = false; }
            }
        }
        Header::new(names, types)
    }).collect();
    let log = new_log();
    let mut src: Vec<Box<dyn Source>> = vec![];
    let mut spec = vec![];
    for h in &hs {
        src.push(Box::new(VecSource::new(h.clone(), vec![])));
        spec.push(vec![M(n)]);
    }
    spec.push(vec![H(n), S(0)]);
    let copies = Copies { wild: 99, max: 1, memo: Rc::new(RefCell::new(vec![])) };
    match Driver::new(src, HeaderGraph::new(build(&spec, &log, &copies, false)), TIMESTAMP_RANGE_ALL, hs.clone()) {
        Ok(_) => {
            sx::check(same, "merged inputs with different headers were accepted");
            for e in log.borrow().iter() { if let Ev::Header(_, h) = e { sx::check(*h == hs[n - 1], "the stage after the merge was given another header"); } }
            sx::cover("accepted");
        }
        Err(_) => { sx::check(!same, "merged inputs with the same header were refused"); sx::cover("refused"); }
    }
}

harness! {
    h_route_wide { wide() }
    h_route_burst { burst() }
    h_merge_headers_wide { merge_wide() }
    h_route { route_any(3, 2); }
    h_route_long { route_any(2, 3); }
    h_headers { headers(); }
    h_merge_headers_2 { merge_headers(2, 2); }
    h_merge_headers_3 { merge_headers(3, 1); }
    h_any_graph_2 { any_graph(2, 2); }
    h_any_graph_3 { any_graph(3, 1); }
    h_any_graph_3x2 { any_graph(3, 2); }
    h_counts_fit { counts_fit(); }
}
