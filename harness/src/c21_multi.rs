//! Several files read as one input (C21).
use crate::kit::{same_value, VecSource};
use crate::{harness, sx};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::error::CliResult;
use chopper::input::input::InputFormat;
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::multi_file_source::SerialMultiFileSource;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use std::cell::RefCell;
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// what the files hold: file k is the path "f<k>.t" whose only byte is k
pub struct Disk {
    pub headers: Vec<Header>,
    pub rows: Vec<Vec<Row>>,
    pub fail_at: Vec<Option<usize>>,
    pub missing: usize,
    /// files opened, in order
    pub opened: Vec<usize>,
}
pub type Shared = Rc<RefCell<Disk>>;
#[derive(Clone)]
struct Mem(Shared);
fn number(p: &Path) -> usize {
    let s = p.to_str().unwrap_or("").as_bytes();
    let mut k = 0;
    for c in &s[1..] {
        if *c < b'0' || *c > b'9' { break; }
        k = k * 10 + (*c - b'0') as usize;
    }
    k
}
impl StreamingTransport for Mem {
    fn can_open(&self, p: &Path) -> bool {
        number(p) != self.0.borrow().missing
    }
    fn open(&self, p: &Path) -> io::Result<Box<dyn io::Read>> {
        let k = number(p);
        self.0.borrow_mut().opened.push(k);
        Ok(Box::new(crate::kit::Shim::new(vec![k as u8])))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mem"
    }
}
#[derive(Clone)]
struct Fac(Shared);
impl SourceFactory for Fac {
    fn can_create_from_format(&self, f: &String) -> bool {
        f.ends_with(".t")
    }
    fn can_create_from_previewer(&self, _: &ChopperBufPreviewer<Box<dyn io::Read>>) -> bool {
        false
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn io::Read>>) -> CliResult<Box<dyn Source>> {
        let k = p.get_buf()[0] as usize;
        let d = self.0.borrow();
        let mut s = VecSource::new(d.headers[k].clone(), d.rows[k].clone());
        s.fail_at = d.fail_at[k];
        Ok(Box::new(s))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}
struct Paths(Vec<PathBuf>, usize);
impl SerialMultiFilePathProvider for Paths {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        self.1 += 1;
        self.0.get(self.1 - 1).cloned()
    }
}

const TYPES: [FieldType; 2] = [FieldType::Long, FieldType::String];
/// a header of n columns: one-character names, all different unless `dup`
fn header(f: usize, n: usize, letters: usize, dup: bool, types: usize, tails: bool) -> Header {
    let mut b = Vec::new();
    let mut names = Vec::new();
    let mut ty = Vec::new();
    for k in 0..n {
        let c = sx::byte("name", f * 8 + k);
        sx::assume(sx::or(c == b'A', sx::and(c >= b'a', c < b'a' + letters as u8)));
        for &o in &b {
            if !dup && !tails {
                sx::assume(c != o);
            }
        }
        b.push(c);
        let mut text = vec![c];
        if tails && sx::flag("tail", f * 8 + k) {
            text.push(b'a');
        }
        names.push(String::from_utf8(text).unwrap_or_default());
        if tails {
            for o in 0..k {
                sx::assume(names[o] != names[k]);
            }
        }
        ty.push(TYPES[sx::choose("type", f * 8 + k, types)]);
    }
    Header::new(names, ty)
}
fn rows(f: usize, n: usize, cols: usize) -> Vec<Row> {
    (0..n)
        .map(|r| Row {
            timestamp: sx::u64v("t", f * 8 + r),
            field_values: (0..cols).map(|c| FieldValue::Int((f * 100 + r * 10 + c) as i32)).collect(),
        })
        .collect()
}
fn name(h: &Header, k: usize) -> &str {
    &h.field_names()[k]
}

struct Shape {
    files: usize,
    cols: usize,
    rows: usize,
    letters: usize,
    types: usize,
    dup: bool,
    external: bool,
    faults: bool,
    /// number of columns of the second header onwards (otherwise any up to `cols`)
    same_cols: bool,
    /// names of one or two characters
    tails: bool,
}
fn run(s: Shape) {
    sx::allow(sx::OPAQUE);
    let given = if s.external && sx::flag("given", 0) {
        let n = sx::choose("cols", 7, s.cols + 1);
        Some(header(7, n, s.letters, s.dup, s.types, s.tails))
    } else {
        None
    };
    let mut d = Disk { headers: vec![], rows: vec![], fail_at: vec![], missing: 99, opened: vec![] };
    for f in 0..s.files {
        let n = if s.same_cols { s.cols } else { sx::choose("cols", f, s.cols + 1) };
        let h = if s.dup && f > 0 {
            d.headers[0].clone()
        } else {
            header(f, n, s.letters, s.dup, s.types, s.tails)
        };
        d.headers.push(h);
        d.rows.push(rows(f, sx::choose("rows", f, s.rows + 1), n));
        d.fail_at.push(None);
    }
    if s.faults && s.files > 0 {
        let f = sx::choose("fault", 0, s.files);
        if sx::flag("missing", 0) {
            d.missing = f;
        } else {
            d.fail_at[f] = Some(sx::choose("fail_at", 0, d.rows[f].len() + 1));
        }
    }
    let disk: Shared = Rc::new(RefCell::new(d));
    let mem: Box<dyn StreamingTransport> = Box::new(Mem(disk.clone()));
    let fac: Box<dyn SourceFactory> = Box::new(Fac(disk.clone()));
    let factory = SingleFileInputFactory::new(SeekableTransportFactory::new(vec![]), PreviewerTransportFactory::new(vec![mem]), vec![fac]);
    let paths = Paths((0..s.files).map(|k| PathBuf::from(["f0.t", "f1.t", "f2.t", "f3.t"][k])).collect(), 0);

    // what must come out
    let mut want: Vec<Row> = Vec::new();
    let mut fails = false;
    let mut fails_at_once = false;
    let mut reference: Option<Header> = given.clone();
    {
        let d = disk.borrow();
        for f in 0..s.files {
            if d.missing == f {
                fails = true;
            } else {
                let h = &d.headers[f];
                let r = match &reference { Some(r) => r.clone(), None => h.clone() };
                reference = Some(r.clone());
                let mut place = Vec::new();
                for c in 0..r.field_names().len() {
                    let mut at = None;
                    // with repeated names any column of that name will do, so only the plain case
                    // (a header like the reference) is predicted
                    for k in 0..h.field_names().len() {
                        if at.is_none() && !place.contains(&k) && name(h, k) == name(&r, c) {
                            at = Some(k);
                        }
                    }
                    match at {
                        Some(k) if h.field_types()[k] == r.field_types()[c] => place.push(k),
                        _ => fails = true,
                    }
                }
                if !fails {
                    for (i, row) in d.rows[f].iter().enumerate() {
                        if d.fail_at[f] == Some(i) {
                            fails = true;
                            break;
                        }
                        want.push(Row { timestamp: row.timestamp, field_values: place.iter().map(|&k| row.field_values[k].clone()).collect() });
                    }
                    if d.fail_at[f] == Some(d.rows[f].len()) {
                        fails = true;
                    }
                    if fails {
                        break;
                    }
                } else if f == 0 {
                    fails_at_once = true;
                }
            }
            if fails {
                if f == 0 {
                    fails_at_once = true;
                }
                break;
            }
        }
    }

    let mut source = match SerialMultiFileSource::new(factory, Box::new(paths), InputFormat::Auto, given.clone()) {
        Ok(x) => x,
        Err(_) => {
            sx::check(fails_at_once, "files that fit together were refused");
            sx::cover("refused at once");
            return;
        }
    };
    sx::check(!fails_at_once, "a first file that does not have the given columns was accepted");
    match &reference {
        Some(r) => sx::check(source.header() == r, "the input does not present the columns of the first or given header"),
        None => sx::check(source.header().field_names().is_empty(), "an input without files has columns"),
    }
    let mut k = 0;
    loop {
        match source.next_row() {
            Ok(Some(row)) => {
                if k >= want.len() {
                    sx::fail("a row nobody wrote, or a row of a file that should have been refused");
                    return;
                }
                sx::check(row.timestamp == want[k].timestamp, "a timestamp changed or rows were reordered");
                sx::check(row.field_values.len() == want[k].field_values.len(), "a row does not have the columns of the common header");
                if row.field_values.len() == want[k].field_values.len() {
                    for c in 0..row.field_values.len() {
                        sx::check(same_value(&row.field_values[c], &want[k].field_values[c]), "a value is not in the column of its name");
                    }
                }
                k += 1;
            }
            Ok(None) => {
                sx::check(!fails, "a file that lacks a column, has another type, is missing or fails was passed over");
                sx::check(k == want.len(), "rows were lost");
                sx::check(matches!(source.next_row(), Ok(None)), "rows after the end");
                sx::cover("all read");
                return;
            }
            Err(_) => {
                sx::check(fails, "files that fit together were refused");
                sx::check(k == want.len(), "rows of a file before the bad one were lost");
                sx::cover("refused");
                return;
            }
        }
    }
}

/// many wide files, each arranged in its own way; one of them may not fit
fn big() {
    sx::allow(sx::OPAQUE);
    let (files, n) = [(2, 257), (3, 64), (3, 65), (3, 17), (9, 8), (33, 5), (120, 3), (2, 33)][sx::choose("shape", 0, 8)];
    let style = sx::choose("style", 0, 6);
    let odd = [0, 1, files / 2, files - 1][sx::choose("odd", 0, 4)];
    let what = sx::choose("what", 0, 6);
    let col = [0, n / 2, n - 1][sx::choose("col", 0, 3)];
    let given = sx::flag("given", 0);
    let letter = sx::byte("letter", 0);
    sx::assume(sx::and(letter >= b'a', letter <= b'z'));
    // the column names of file f, in its order; None: a column of no interest
    let arrange = |f: usize| -> Vec<Option<usize>> {
        let mut v: Vec<Option<usize>> = (0..n).map(Some).collect();
        match if f == 0 && !given { 0 } else { (style + f) % 6 } {
            0 => {}
            1 => v.reverse(),
            2 => v.rotate_left(1),
            3 => v.rotate_right(n / 3),
            4 => v.swap(col, (col + n / 2) % n),
            _ => { for i in (1..n).step_by(2) { v.swap(i - 1, i); } }
        }
        if f == odd && !(f == 0 && !given) {
            match what {
                1 => v.insert(col, None),
                2 => { for _ in 0..n { v.insert(0, None); } }
                3 => v.push(None),
                4 => { for x in v.iter_mut() { if *x == Some(col) { *x = None; } } }
                _ => {}
            }
        }
        v
    };
    let mut d = Disk { headers: vec![], rows: vec![], fail_at: vec![None; files], missing: 999, opened: vec![] };
    let t0 = sx::u64v("t", 0);
    let kind = |c: usize| TYPES[c % 2].clone();
    let reference = Header::new((0..n).map(|c| if c == col { format!("q{}", letter as char) } else { format!("c{}", c) }).collect(), (0..n).map(kind).collect());
    let cell = |f: usize, r: usize, c: usize| FieldValue::Int((f * 100_000 + r * 1000 + c) as i32);
    let bad = !(odd == 0 && !given) && (what == 4 || what == 5);
    for f in 0..files {
        let v = arrange(f);
        let mut names = vec![];
        let mut types = vec![];
        for (i, x) in v.iter().enumerate() {
            match x {
                None => { names.push(format!("x{}", i)); types.push(FieldType::String); }
                Some(c) => {
                    names.push(reference.field_names()[*c].clone());
                    types.push(if f == odd && bad && what == 5 && *c == col { FieldType::Double } else { kind(*c) });
                }
            }
        }
        d.headers.push(Header::new(names, types));
        let rows = (0..1 + f % 3).map(|r| Row { timestamp: t0, field_values: v.iter().map(|x| match x { None => FieldValue::None, Some(c) => cell(f, r, *c) }).collect() }).collect();
        d.rows.push(rows);
    }
    let disk: Shared = Rc::new(RefCell::new(d));
    let mem: Box<dyn StreamingTransport> = Box::new(Mem(disk.clone()));
    let fac: Box<dyn SourceFactory> = Box::new(Fac(disk.clone()));
    let factory = SingleFileInputFactory::new(SeekableTransportFactory::new(vec![]), PreviewerTransportFactory::new(vec![mem]), vec![fac]);
    let paths = Paths((0..files).map(|k| PathBuf::from(format!("f{}.t", k))).collect(), 0);
    let mut s = match SerialMultiFileSource::new(factory, Box::new(paths), InputFormat::Auto, if given { Some(reference.clone()) } else { None }) {
        Ok(s) => s,
        Err(_) => { sx::check(bad && odd == 0, "files that fit together were refused"); return; }
    };
    sx::check(!(bad && odd == 0), "a file that does not fit was accepted");
    sx::check(*s.header() == reference, "the input does not present the columns of the first or given header");
    for f in 0..files {
        if bad && f == odd {
            sx::check(s.next_row().is_err(), "a file that lacks a column or has another type was passed over");
            sx::cover("refused");
            return;
        }
        for r in 0..1 + f % 3 {
            match s.next_row() {
                Ok(Some(row)) => {
                    sx::check(row.timestamp == t0, "a timestamp changed");
                    sx::check(row.field_values.len() == n, "a row does not have the columns of the common header");
                    for c in 0..n.min(row.field_values.len()) {
                        sx::check(same_value(&row.field_values[c], &cell(f, r, c)), "a value is not in the column of its name");
                    }
                }
                _ => { sx::fail("a row was lost"); return; }
            }
        }
    }
    sx::check(matches!(s.next_row(), Ok(None)), "more rows than the files hold");
    sx::cover("all read");
}

harness! {
    h_multi_big { big(); }
    /// two files, any headers
    h_multi_two {
        run(Shape { files: 2, cols: 2, rows: 1, letters: 3, types: 2, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    /// two files of three columns each
    h_multi_wide {
        run(Shape { files: 2, cols: 3, rows: 1, letters: 4, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    /// repeated column names, the same in both files
    h_multi_repeated {
        run(Shape { files: 2, cols: 3, rows: 2, letters: 3, types: 2, dup: true, external: false, faults: false, same_cols: true, tails: false })
    }
    h_multi_wide_5 {
        run(Shape { files: 2, cols: 5, rows: 1, letters: 6, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    h_multi_three_4 {
        run(Shape { files: 3, cols: 4, rows: 1, letters: 4, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    h_multi_two_4 {
        run(Shape { files: 2, cols: 4, rows: 1, letters: 4, types: 2, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    /// names that begin alike
    h_multi_names {
        run(Shape { files: 2, cols: 2, rows: 1, letters: 2, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: true })
    }
    /// three files: the state of one file must not leak into the next
    h_multi_three {
        run(Shape { files: 3, cols: 2, rows: 1, letters: 2, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    h_multi_three_rows {
        run(Shape { files: 3, cols: 2, rows: 2, letters: 3, types: 1, dup: false, external: false, faults: false, same_cols: true, tails: false })
    }
    /// a header given from outside
    h_multi_given {
        run(Shape { files: 1 , cols: 2, rows: 1, letters: 3, types: 2, dup: false, external: true, faults: false, same_cols: false, tails: false })
    }
    h_multi_given_two {
        run(Shape { files: 2, cols: 2, rows: 1, letters: 2, types: 1, dup: false, external: true, faults: false, same_cols: false, tails: false })
    }
    h_multi_none {
        run(Shape { files: 0, cols: 2, rows: 1, letters: 3, types: 2, dup: false, external: true, faults: false, same_cols: false, tails: false })
    }
    /// files that are missing or fail while being read
    h_multi_faults {
        run(Shape { files: 3, cols: 1, rows: 2, letters: 1, types: 1, dup: false, external: false, faults: true, same_cols: true, tails: false })
    }
    /// wider files (thorough)
    h_multi_wide_4 {
        run(Shape { files: 2, cols: 4, rows: 1, letters: 5, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
    h_multi_three_3 {
        run(Shape { files: 3, cols: 3, rows: 1, letters: 3, types: 1, dup: false, external: false, faults: false, same_cols: false, tails: false })
    }
}
