//! Which handler reads an input (C18).
use crate::c19_zip::plain;
use crate::c25_packed::{stored, How, Kind, KINDS};
use crate::kit::Shim;
use crate::{harness, sx};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{Header, Row};
use chopper::cli::util::YesNoAuto;
use chopper::decompress::decompress::{is_compressed_using_format, is_compressed_using_previewer, DecompressionFormat};
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::{create_default_source_factories, InputFactory};
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::seekable::seekable_transport::SeekableTransport;
use chopper::transport::seekable::ReadSeek;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::path::Path;
use std::rc::Rc;

/// what was asked to read, and what it was given
#[derive(Default)]
struct Seen {
    /// (handler, bytes)
    made: Vec<(usize, Vec<u8>)>,
    /// transports opened
    opened: Vec<usize>,
    /// file formats the handlers were asked about
    asked: Vec<String>,
}
type Book = Rc<RefCell<Seen>>;

struct Empty(Header);
impl Source for Empty {
    fn header(&self) -> &Header {
        &self.0
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(None)
    }
}
#[derive(Clone)]
struct Handler {
    id: usize,
    /// takes formats that end with this
    suffix: Option<&'static str>,
    format: bool,
    contents: bool,
    book: Book,
}
impl SourceFactory for Handler {
    fn can_create_from_format(&self, f: &String) -> bool {
        self.book.borrow_mut().asked.push(f.clone());
        match self.suffix {
            Some(s) => f.ends_with(s),
            None => self.format,
        }
    }
    fn can_create_from_previewer(&self, _: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.contents
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        let mut r = p.get_reader();
        let mut all = Vec::new();
        let mut b = [0u8; 64];
        loop {
            match r.read(&mut b) {
                Ok(0) => break,
                Ok(n) => all.extend_from_slice(&b[..n]),
                Err(e) => return Err(Error::from(e)),
            }
        }
        self.book.borrow_mut().made.push((self.id, all));
        Ok(Box::new(Empty(Header::new(vec![], vec![]))))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}
#[derive(Clone)]
struct Opener {
    id: usize,
    able: bool,
    fails: bool,
    bytes: Vec<u8>,
    book: Book,
}
impl StreamingTransport for Opener {
    fn can_open(&self, _: &Path) -> bool {
        self.able
    }
    fn open(&self, _: &Path) -> std::io::Result<Box<dyn Read>> {
        self.book.borrow_mut().opened.push(self.id);
        if self.fails {
            return Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied));
        }
        Ok(Box::new(Shim::new(self.bytes.clone())))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "opener"
    }
}
impl SeekableTransport for Opener {
    fn can_open(&self, _: &Path) -> bool {
        self.able
    }
    fn open(&self, _: &Path) -> std::io::Result<Box<dyn ReadSeek>> {
        self.book.borrow_mut().opened.push(self.id);
        if self.fails {
            return Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied));
        }
        Ok(Box::new(Bytes(Cursor::new(self.bytes.clone()))))
    }
    fn box_clone(&self) -> Box<dyn SeekableTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "seekable opener"
    }
}
struct Bytes(Cursor<Vec<u8>>);
impl Read for Bytes {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
}
impl Seek for Bytes {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(to)
    }
}
impl ReadSeek for Bytes {}
fn factory(seekable: Vec<Box<dyn SeekableTransport>>, streaming: Vec<Box<dyn StreamingTransport>>, sources: Vec<Box<dyn SourceFactory>>) -> SingleFileInputFactory {
    SingleFileInputFactory::new(SeekableTransportFactory::new(seekable), PreviewerTransportFactory::new(streaming), sources)
}
fn handler(id: usize, book: &Book) -> Handler {
    Handler { id, suffix: None, format: sx::flag("format", id), contents: sx::flag("contents", id), book: book.clone() }
}
fn preview(v: Vec<u8>) -> ChopperBufPreviewer<Box<dyn Read>> {
    match ChopperBufPreviewer::new(Box::new(Shim::new(v)) as Box<dyn Read>) {
        Ok(p) => p,
        Err(_) => {
            sx::fail("cannot preview");
            panic!()
        }
    }
}
const HOW: How = How { block: 9, sums: false, block_sums: false, notes: false };
const TEXT: &[u8] = b"1,a\n";

fn ends(a: &[u8], b: &[u8]) -> bool {
    a.len() >= b.len() && a[a.len() - b.len()..] == *b
}
/// the first handler able to take the format, or else the contents, is used; with its own clone or not
fn handlers(n: usize) {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let hs: Vec<Handler> = (0..n).map(|k| handler(k, &book)).collect();
    let data = sx::bytes("data", 3);
    for &c in &data {
        sx::assume(sx::and(c >= b' ', c < 0x7f));
    }
    let mut f = factory(vec![], vec![], hs.iter().map(|h| Box::new(h.clone()) as Box<dyn SourceFactory>).collect());
    if sx::flag("cloned", 0) {
        f = f.clone();
    }
    let by = sx::choose("by", 0, 3);
    let (name, format) = match by {
        0 => (None, InputFormat::Auto),
        1 => (Some("some.name".to_string()), InputFormat::Auto),
        _ => (if sx::flag("name", 0) { Some("other".to_string()) } else { None }, InputFormat::Extension("some.name".to_string())),
    };
    let r = f.create_source_from_previewer(preview(data.clone()), name, &format);
    let by_format = hs.iter().find(|h| h.format).map(|h| h.id);
    let by_contents = hs.iter().find(|h| h.contents).map(|h| h.id);
    let want = match by {
        0 => by_contents,
        1 => by_format.or(by_contents),
        _ => by_format,
    };
    let b = book.borrow();
    match want {
        Some(k) => {
            sx::check(r.is_ok(), "an input some handler takes was refused");
            sx::check(b.made.len() == 1 && b.made[0].0 == k, "another handler than the first able was used");
            sx::check(b.made.len() == 1 && sx::eq_bytes(&b.made[0].1, &data), "the handler did not get the contents from their start");
            sx::cover("taken");
        }
        None => {
            sx::check(r.is_err() && b.made.is_empty(), "an input no handler takes was taken");
            sx::cover("refused");
        }
    }
    // the override reaches the handlers whole, with a dot in front
    if by == 2 {
        sx::check(b.asked.iter().all(|a| a == ".some.name"), "the override was changed");
    }
}
/// names and overrides of any characters around the known extensions
fn names(stem: usize, over: bool) {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let a = Handler { id: 0, suffix: Some(".dc"), format: false, contents: false, book: book.clone() };
    let b = Handler { id: 1, suffix: Some(".csv"), format: false, contents: true, book: book.clone() };
    let mut name: Vec<u8> = sx::bytes("stem", stem);
    for &c in &name {
        sx::assume(sx::and(c > b' ', c < 0x7f));
    }
    for k in 0..2 {
        name.extend_from_slice([&b""[..], b".csv", b".dc", b".gz", b".lz4", b".lzf", b".zst", b"csv", b".csv.", b".GZ"][sx::choose("suffix", k, 10)]);
    }
    sx::assume(!ends(&name, b".zip"));
    // the contents: as they are or packed
    let packed = sx::choose("packed", 0, 6);
    let data = match packed {
        0 => TEXT.to_vec(),
        k => stored(KINDS[k - 1], TEXT, HOW),
    };
    let text = match String::from_utf8(name.clone()) { Ok(t) => t, Err(_) => return };
    let mut f = factory(vec![], vec![], vec![Box::new(a), Box::new(b)]);
    let r = if over {
        f.create_source_from_previewer(preview(data.clone()), if sx::flag("name", 0) { Some("x.dc".to_string()) } else { None }, &InputFormat::Extension(text))
    } else {
        f.create_source_from_previewer(preview(data.clone()), Some(text), &InputFormat::Auto)
    };
    if over && name.first() != Some(&b'.') {
        name.insert(0, b'.');
    }
    // by the name: compression
    let mut state = packed;
    let mut broken = false;
    let mut unpacked = false;
    for (s, ok) in [(&b".gz"[..], &[1usize][..]), (b".lz4", &[2, 3]), (b".lzf", &[4]), (b".zst", &[5])] {
        if ends(&name, s) {
            name.truncate(name.len() - s.len());
            unpacked = true;
            if ok.contains(&packed) {
                state = 0;
            } else {
                broken = true;
            }
            break;
        }
    }
    let mut want = if ends(&name, b".dc") { Some(0) } else if ends(&name, b".csv") { Some(1) } else { None };
    if want.is_none() && !over {
        // by the contents
        if !unpacked {
            state = 0;
        }
        want = Some(1);
    }
    let seen = book.borrow();
    match want {
        Some(k) if !broken => {
            sx::check(r.is_ok(), "an input with a known extension was refused");
            sx::check(seen.made.len() == 1 && seen.made[0].0 == k, "another handler than the extension's was used");
            let want: &[u8] = if state == 0 { TEXT } else { &data };
            sx::check(seen.made.len() == 1 && sx::eq_bytes(&seen.made[0].1, want), "the contents were not unpacked as the name says");
            sx::cover("taken");
        }
        _ => {
            sx::check(r.is_err(), "an input that cannot be read as its name says was taken");
            sx::cover("refused");
        }
    }
}
/// which compression a name or leading bytes mean
fn compression() {
    if sx::flag("by name", 0) {
        let n = sx::choose("len", 0, 7);
        let name = sx::bytes("name", n);
        for &c in &name {
            sx::assume(c < 0x80);
        }
        let text = match String::from_utf8(name.clone()) { Ok(t) => t, Err(_) => return };
        let got = is_compressed_using_format(&text);
        let want = [(&b".gz"[..], 0), (b".lz4", 1), (b".lzf", 2), (b".zip", 3), (b".zst", 4)];
        let want = want.iter().find(|w| ends(&name, w.0));
        match (got, want) {
            (Some((f, rest)), Some(w)) => {
                sx::check(number(&f) == w.1, "the extension means another compression");
                sx::check(sx::eq_bytes(rest.as_bytes(), &name[..n - w.0.len()]), "the rest of the name is wrong");
                sx::cover("named");
            }
            (None, None) => sx::cover("none"),
            _ => sx::fail("an extension is taken for another"),
        }
    } else {
        let n = sx::choose("len", 0, 10);
        let mut b = sx::bytes("b", n.min(5));
        // longer ones: the rest of a magic, with any one byte replaced
        if n > 5 {
            b.extend_from_slice(&b"ockz"[..n - 5]);
            let at = 5 + sx::choose("place", 0, n - 5);
            b[at] = sx::byte("b", 5);
        }
        let got = is_compressed_using_previewer(&preview(b.clone())).map(|f| number(&f));
        let starts = |m: &[u8]| n >= m.len() && b[..m.len()] == *m;
        let want = if n < 4 {
            // not even a header
            None
        } else if starts(&[0x1f, 0x8b, 8]) {
            Some(0)
        } else if starts(&[4, 0x22, 0x4d, 0x18]) || starts(b"LZ4Block") {
            Some(1)
        } else if starts(b"ZV\0") || starts(b"ZV\x01") {
            Some(2)
        } else if starts(b"PK\x03\x04") {
            Some(3)
        } else if starts(&[0x28, 0xb5, 0x2f, 0xfd]) {
            Some(4)
        } else {
            None
        };
        sx::check(got == want, "leading bytes are taken for another compression");
        sx::cover(if got.is_some() { "magic" } else { "none" });
    }
}
fn number(f: &DecompressionFormat) -> usize {
    match f {
        DecompressionFormat::GZ => 0,
        DecompressionFormat::LZ4 => 1,
        DecompressionFormat::LZF => 2,
        DecompressionFormat::ZIP => 3,
        DecompressionFormat::ZST => 4,
    }
}
/// a built-in handler, watched
#[derive(Clone)]
struct Watched(usize, Box<dyn SourceFactory>, Book);
impl SourceFactory for Watched {
    fn can_create_from_format(&self, f: &String) -> bool {
        self.1.can_create_from_format(f)
    }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.1.can_create_from_previewer(p)
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        Handler { id: self.0, suffix: None, format: true, contents: true, book: self.2.clone() }.create_source(p)
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}
/// without a telling name the leading bytes decide: binary data by its magic and version, text as CSV
fn leading(symbolic: usize) {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let csv = crate::c10_csv::nanos(Some(","), YesNoAuto::No);
    let built_in = create_default_source_factories(Some(csv));
    let mut f = factory(vec![], vec![], built_in.into_iter().enumerate().map(|(k, h)| Box::new(Watched(k, h, book.clone())) as Box<dyn SourceFactory>).collect());
    // a header with one column, text, or neither
    let what = sx::choose("what", 0, 3);
    let mut v = match what {
        0 => crate::c08_dc::encode_header(&[("a", "I")])[..14].to_vec(),
        1 => "1,ab\n2,\u{e9}\n".as_bytes().to_vec(),
        _ => b"1,ab\n2,\xff\n".to_vec(),
    };
    if sx::flag("cut", 0) {
        let at = sx::choose("at", 0, v.len());
        v.truncate(at);
    }
    let magic = crate::c08_dc::encode_header(&[]);
    for k in 0..symbolic.min(v.len()) {
        let at = sx::choose("place", k, v.len());
        v[at] = sx::byte("b", k);
    }
    let binary = v.len() >= 10 && v[..10] == magic[..10];
    // compressed data is another matter
    let name = [None, Some("x"), Some("x.txt")][sx::choose("name", 0, 3)].map(|s| s.to_string());
    let compressed = is_compressed_using_previewer(&preview(v.clone())).is_some();
    sx::assume(!compressed);
    let text = std::str::from_utf8(&v).is_ok();
    let r = f.create_source_from_previewer(preview(v.clone()), name, &InputFormat::Auto);
    let b = book.borrow();
    let want = if binary { Some(0) } else if text { Some(1) } else { None };
    match want {
        Some(k) => {
            sx::check(r.is_ok() && b.made.len() == 1 && b.made[0].0 == k, "data was taken for something else than its leading bytes say");
            sx::check(b.made.len() == 1 && sx::eq_bytes(&b.made[0].1, &v), "the handler did not get the contents from their start");
            sx::cover(if k == 0 { "binary" } else { "text" });
        }
        None => {
            sx::check(r.is_err() && b.made.is_empty(), "something that is neither binary data nor text was taken");
            sx::cover("refused");
        }
    }
}
/// the built-in handlers: what a name or an override says goes before what the leading bytes say
fn built_in() {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let csv = crate::c10_csv::nanos(Some(","), YesNoAuto::No);
    let has_csv = sx::flag("csv", 0);
    let built_in = create_default_source_factories(if has_csv { Some(csv) } else { None });
    let mut f = factory(vec![], vec![], built_in.into_iter().enumerate().map(|(k, h)| Box::new(Watched(k, h, book.clone())) as Box<dyn SourceFactory>).collect());
    // binary data, text, or neither
    let what = sx::choose("what", 0, 3);
    let v = match what {
        0 => crate::c08_dc::encode_header(&[("a", "I")]),
        1 => b"1,ab\n".to_vec(),
        _ => b"1,ab\n2,\xff\n".to_vec(),
    };
    // any few characters, with a known ending in front, behind or not at all
    let n = sx::choose("len", 0, 6);
    let mut name = Vec::new();
    let put = sx::choose("put", 0, 5);
    let known: &[u8] = if put & 1 != 0 { b".dc" } else { b".csv" };
    if put == 1 || put == 2 {
        name.extend_from_slice(known);
    }
    let middle = sx::bytes("name", n);
    for &c in &middle {
        sx::assume(sx::and(c > b' ', c < 0x7f));
    }
    name.extend_from_slice(&middle);
    if put == 3 || put == 4 {
        name.extend_from_slice(known);
    }
    for s in [&b".gz"[..], b".lz4", b".lzf", b".zip", b".zst"] {
        sx::assume(!ends(&name, s));
    }
    let text = match String::from_utf8(name.clone()) { Ok(t) => t, Err(_) => return };
    let over = sx::flag("override", 0);
    let (given, format) = if over {
        (if sx::flag("name", 0) { Some("x.csv".to_string()) } else { None }, InputFormat::Extension(text))
    } else {
        (Some(text), InputFormat::Auto)
    };
    if over && name.first() != Some(&b'.') {
        name.insert(0, b'.');
    }
    let r = f.create_source_from_previewer(preview(v.clone()), given, &format);
    let want = if ends(&name, b".dc") {
        Some(0)
    } else if has_csv && ends(&name, b".csv") {
        Some(1)
    } else if over {
        None
    } else {
        match what { 0 => Some(0), 1 if has_csv => Some(1), _ => None }
    };
    let b = book.borrow();
    match want {
        Some(k) => {
            sx::check(r.is_ok() && b.made.len() == 1 && b.made[0].0 == k, "another handler than the name's, or else the leading bytes', was used");
            sx::check(b.made.len() == 1 && sx::eq_bytes(&b.made[0].1, &v), "the handler did not get the contents from their start");
            sx::cover(if k == 0 { "binary" } else { "text" });
        }
        None => {
            sx::check(r.is_err() && b.made.is_empty(), "an input nobody takes was taken");
            sx::cover("refused");
        }
    }
}
/// the first transport able to open a path is the only one that opens it; zip archives are unpacked
fn transports() {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let zipped = sx::flag("zip", 0);
    let opener = |id: usize, bytes: Vec<u8>| Opener { id, able: sx::flag("able", id), fails: sx::flag("fails", id), bytes, book: book.clone() };
    let inside = ["a.csv", "a.dc", "a"][sx::choose("inside", 0, 3)];
    let mut z = plain(TEXT);
    z.name = inside.as_bytes().to_vec();
    let (zip, _) = z.bytes();
    let seekable: Vec<Opener> = (0..2).map(|k| opener(k, if zipped { zip.clone() } else { vec![b'1', b'\n', k as u8 + b'a'] })).collect();
    let streaming: Vec<Opener> = (2..5).map(|k| opener(k, vec![b'1', b'\n', k as u8 + b'a'])).collect();
    let hs = vec![
        Handler { id: 0, suffix: Some(".dc"), format: false, contents: false, book: book.clone() },
        Handler { id: 1, suffix: Some(".csv"), format: false, contents: false, book: book.clone() },
        Handler { id: 2, suffix: Some("none"), format: false, contents: true, book: book.clone() },
    ];
    let mut f = factory(
        seekable.iter().map(|o| Box::new(o.clone()) as Box<dyn SeekableTransport>).collect(),
        streaming.iter().map(|o| Box::new(o.clone()) as Box<dyn StreamingTransport>).collect(),
        hs.iter().map(|h| Box::new(h.clone()) as Box<dyn SourceFactory>).collect(),
    );
    let r = f.create_source_from_path(Path::new("some/where.csv"), &InputFormat::Auto);
    let s = seekable.iter().find(|o| o.able);
    let t = streaming.iter().find(|o| o.able);
    let b = book.borrow();
    let mut opened = Vec::new();
    // what the handler is given, and which
    let mut want: Option<(usize, Vec<u8>)> = None;
    let mut fails = false;
    let mut done = false;
    if let Some(s) = s {
        opened.push(s.id);
        if s.fails {
            fails = true;
            done = true;
        } else if zipped {
            want = Some((match inside { "a.csv" => 1, "a.dc" => 0, _ => 2 }, TEXT.to_vec()));
            done = true;
        }
    }
    if !done {
        if let Some(t) = t {
            opened.push(t.id);
            if t.fails {
                fails = true;
            } else {
                want = Some((1, t.bytes.clone()));
            }
        }
    }
    sx::check(b.opened == opened, "not just the first transports able to open the path were used");
    match want {
        Some(w) => {
            sx::check(matches!(r, Ok(Some(_))), "a path that can be opened was refused");
            sx::check(b.made.len() == 1 && b.made[0] == w, "the wrong handler or contents were used");
            sx::cover(if zipped && done { "unpacked" } else { "taken" });
        }
        None => {
            sx::check(b.made.is_empty(), "something was read from nowhere");
            if fails {
                sx::check(r.is_err(), "a failure to open went unnoticed");
                sx::cover("failed");
            } else {
                sx::check(matches!(r, Ok(None)), "a path nobody can open was taken");
                sx::cover("none");
            }
        }
    }
}
/// long names in directories that look like files, contents plain or packed, among many handlers
fn paths() {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    let dir = ["", "/", "a.dc/", "x.csv/y.gz/", "./", "../a.lz4/"][sx::choose("dir", 0, 6)];
    let stem = match sx::choose("stem", 0, 6) {
        0 => String::new(), 1 => "a".to_string(), 2 => "a.dc.csv.gz".to_string(), 3 => "x".repeat(200), 4 => ".".repeat(40), _ => ".csv".repeat(300),
    };
    let ext = ["", ".csv", ".dc", "dc", ".csvx", ".dc ", ".CSV"][sx::choose("ext", 0, 7)];
    let packing = ["", ".gz", ".lz4", ".lzf", ".zst", "gz", ".gzip"][sx::choose("packing", 0, 7)];
    let packed = sx::choose("packed", 0, 6);
    let n = [0, 1, 40][sx::choose("others", 0, 3)];
    let letter = sx::byte("letter", 0);
    sx::assume(sx::and(letter >= b'a', letter <= b'z'));
    let text = vec![b'1', b',', letter, b'\n'];
    let data = if packed == 0 { text.clone() } else { stored(KINDS[packed - 1], &text, HOW) };
    let name = format!("{}{}{}", stem, ext, packing);
    if name.is_empty() || name == "." || name == ".." { return; }
    let mut hs = vec![];
    for k in 0..n {
        hs.push(Handler { id: 10 + k, suffix: Some(["none", ".dcx", ".gz.csv?"][k % 3]), format: false, contents: false, book: book.clone() });
    }
    hs.push(Handler { id: 0, suffix: Some(".dc"), format: false, contents: false, book: book.clone() });
    for k in 0..n {
        hs.push(Handler { id: 100 + k, suffix: Some("none"), format: false, contents: false, book: book.clone() });
    }
    hs.push(Handler { id: 1, suffix: Some(".csv"), format: false, contents: true, book: book.clone() });
    hs.push(Handler { id: 2, suffix: Some(".csv"), format: false, contents: true, book: book.clone() });
    let opener = Opener { id: 0, able: true, fails: false, bytes: data.clone(), book: book.clone() };
    let mut f = factory(vec![], vec![Box::new(opener)], hs.iter().map(|h| Box::new(h.clone()) as Box<dyn SourceFactory>).collect());
    let r = f.create_source_from_path(Path::new(&format!("{}{}", dir, name)), &InputFormat::Auto);
    // by the name
    let n = name.as_bytes();
    let named = [(&b".gz"[..], &[1usize][..]), (b".lz4", &[2, 3]), (b".lzf", &[4]), (b".zst", &[5])].iter().find(|w| ends(n, w.0)).cloned();
    let (rest, broken) = match named { Some((s, ok)) => (&n[..n.len() - s.len()], !ok.contains(&packed)), None => (n, false) };
    let known = if ends(rest, b".dc") { Some(0) } else if ends(rest, b".csv") { Some(1) } else { None };
    // by the contents, where the name says nothing
    let plain = packed == 0 || (named.is_some() && !broken) || (named.is_none() && known.is_none());
    let b = book.borrow();
    if broken {
        sx::check(r.is_err(), "an input that cannot be read as its name says was taken");
        sx::cover("refused");
    } else {
        sx::check(matches!(r, Ok(Some(_))), "an input with a known extension or contents was refused");
        sx::check(b.made.len() == 1 && b.made[0].0 == known.unwrap_or(1), "another handler than the first able was used");
        sx::check(b.made.len() == 1 && sx::eq_bytes(&b.made[0].1, if plain { &text } else { &data }), "the contents were not unpacked as the name says");
        sx::cover("taken");
    }
}
/// user-supplied handlers come before the built-in ones; real files
fn users() {
    sx::allow(sx::OPAQUE);
    let book: Book = Default::default();
    if std::fs::write("u.csv", TEXT).is_err() {
        sx::fail("cannot write the scratch file");
    }
    let user = handler(0, &book);
    let user2 = handler(1, &book);
    let t = Opener { id: 7, able: sx::flag("able", 7), fails: false, bytes: b"2,b\n".to_vec(), book: book.clone() };
    let with = sx::choose("with", 0, 4);
    let sources: Option<Vec<Box<dyn SourceFactory>>> = if with & 1 != 0 { Some(vec![Box::new(user.clone()), Box::new(user2.clone())]) } else { None };
    let transports: Option<Vec<Box<dyn StreamingTransport>>> = if with & 2 != 0 { Some(vec![Box::new(t.clone())]) } else { None };
    let csv = crate::c10_csv::nanos(Some(","), YesNoAuto::No);
    let has_csv = sx::flag("csv", 0);
    let f = if has_csv { InputFactory::new(csv, sources, transports) } else { InputFactory::new_without_csv(sources, transports) };
    let mut f = match f { Ok(f) => f, Err(_) => { sx::fail("no input factory"); return; } };
    let exists = sx::flag("exists", 0);
    let over = sx::choose("override", 0, 3);
    let format = match over { 0 => InputFormat::Auto, 1 => InputFormat::Extension("csv".to_string()), _ => InputFormat::Extension(".csv".to_string()) };
    let path = if exists { "u.csv" } else { "none.csv" };
    let r = f.create_source_from_input(&Input { input: InputType::Path(path.to_string()), format });
    let b = book.borrow();
    let by_user = with & 2 != 0 && t.able;
    let bytes: Option<&[u8]> = if by_user { Some(b"2,b\n") } else if exists { Some(TEXT) } else { None };
    sx::check(b.opened.len() == by_user as usize, "the user's transport was not used, or used although it cannot open the path");
    let mut who = None;
    if with & 1 != 0 {
        who = [&user, &user2].iter().find(|h| h.format).map(|h| h.id);
        if who.is_none() && !has_csv && over == 0 {
            who = [&user, &user2].iter().find(|h| h.contents).map(|h| h.id);
        }
    }
    match (bytes, who) {
        (Some(d), Some(k)) => {
            sx::check(r.is_ok() && b.made.len() == 1 && b.made[0].0 == k && b.made[0].1 == d, "the first able handler of the user was not used");
            sx::cover("user's");
        }
        (Some(d), None) if has_csv => {
            sx::check(b.made.is_empty(), "a handler that is not able was used");
            match r {
                Ok(mut s) => match s.next_row() {
                    Ok(Some(r)) => {
                        sx::check(r.timestamp == (d[0] - b'0') as u64, "the wrong contents were read");
                        sx::cover("built-in");
                    }
                    _ => sx::fail("the row was not read"),
                },
                Err(_) => sx::fail("a csv file was refused"),
            }
        }
        _ => {
            sx::check(r.is_err() && b.made.is_empty(), "an input nobody takes was taken");
            sx::cover("refused");
        }
    }
    let _ = std::fs::remove_file("u.csv");
}

harness! {
    h_pick_paths { paths(); }
    h_pick_handlers { handlers(3); }
    h_pick_handlers_4 { handlers(4); }
    h_pick_names { names(2, false); }
    h_pick_override { names(1, true); }
    h_pick_override_2 { names(2, true); }
    h_pick_compression { compression(); }
    h_pick_built_in { built_in(); }
    h_pick_leading { leading(1); }
    h_pick_leading_2 { leading(2); }
    h_pick_transports { transports(); }
    h_pick_users { users(); }
}
