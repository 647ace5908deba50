//! The previewing, buffering reader (C17).
use crate::sx;
use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use std::cell::Cell;
use std::io::{BufRead, Error, ErrorKind, Read};
use std::rc::Rc;

/// a stream of given bytes; every read's size is chosen, and one read may fail
struct Inner { step: usize, data: Vec<u8>, pos: usize, calls: usize, fail_call: usize, max: usize, failed: Rc<Cell<bool>>, whole: bool }
impl Read for Inner {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail_call {
            self.failed.set(true);
            return Err(Error::new(ErrorKind::ConnectionReset, "gone"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.step > 0 { n = n.min(self.step); }
        if n > 1 && !self.whole && self.calls <= 5 {
            let most = n.min(self.max);
            let k = sx::choose("read", self.calls, most);
            // the last choice stands for as many as there are
            n = if k + 1 == most { n } else { k + 1 };
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// take bytes from r, in steps of chosen sizes and ways, until its end; at most so many errors
fn drain<R: Read>(r: &mut ChopperBufReader<R>, want: &[u8], failed: &Cell<bool>, ops: usize) {
    let mut got: Vec<u8> = vec![];
    let mut errors = 0;
    for op in 0..100 + want.len() {
        let how = if op < ops { sx::choose("op", op, 5) } else { 4 };
        let before = failed.get();
        let r = match how {
            // look without taking
            0 => r.fill_buf().map(|b| {
                let n = b.len();
                sx::check(got.len() + n <= want.len() && sx::eq_bytes(b, &want[got.len()..got.len() + n]), "other bytes were shown than the stream's");
                1
            }),
            // look, take one
            1 => match r.fill_buf() {
                Ok(b) if b.is_empty() => Ok(0),
                Ok(b) => { let c = b[0]; got.push(c); r.consume(1); Ok(1) }
                Err(e) => Err(e),
            },
            2 => { let mut b = [0u8; 1]; r.read(&mut b).map(|n| { got.extend_from_slice(&b[..n]); n }) }
            3 => { let mut b = [0u8; 3]; r.read(&mut b).map(|n| { got.extend_from_slice(&b[..n]); n }) }
            _ => { let mut b = vec![0u8; 9000]; r.read(&mut b).map(|n| { got.extend_from_slice(&b[..n]); n }) }
        };
        match r {
            Ok(0) => { sx::check(got.len() == want.len(), "the end was reported before all bytes were read"); break; }
            Ok(_) => sx::check(got.len() <= want.len(), "more bytes were read than the stream has"),
            Err(_) => { errors += 1; sx::check(!before && failed.get(), "an error the stream did not report"); }
        }
        if got.len() > want.len() { return; }
        if failed.get() && errors == 0 { sx::fail("an error of the stream was not passed on"); return; }
    }
    sx::check(sx::eq_bytes(&got, want), "other bytes were read than the stream's");
    sx::cover("read to the end");
    if errors > 0 { sx::cover("error passed on"); }
}
/// every byte, every schedule of reads, a few buffer sizes
fn buffered(n: usize, ops: usize) {
    let data = sx::bytes("b", n);
    let cap = [1usize, 2, 3, 5][sx::choose("capacity", 0, 4)];
    let failed = Rc::new(Cell::new(false));
    let inner = Inner { step: 0, data: data.clone(), pos: 0, calls: 0, fail_call: sx::choose("fail", 0, 4), max: 3, failed: failed.clone(), whole: false };
    let mut r = ChopperBufReader::with_capacity(cap, inner);
    drain(&mut r, &data, &failed, ops);
}
/// the lines a preview of these bytes must show
fn lines(preview: &[u8], full: bool) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut line = vec![];
    let mut keep = |mut l: Vec<u8>| { if let Some(b'\r') = l.last() { l.pop(); } out.push(l); };
    for b in preview {
        if *b == b'\n' { keep(std::mem::take(&mut line)); } else { line.push(*b); }
    }
    if !full && !line.is_empty() { keep(line); }
    for l in &out { if std::str::from_utf8(l).is_err() { return None; } }
    Some(out)
}
fn preview(data: Vec<u8>, fails: usize, max: usize, whole: bool, ops: usize) {
    let failed = Rc::new(Cell::new(false));
    let fail_call = if fails > 0 { sx::choose("fail", 0, fails) } else { 0 };
    preview_of(Inner { step: 0, data: data.clone(), pos: 0, calls: 0, fail_call, max, failed: failed.clone(), whole }, data, failed, ops)
}
fn preview_of(inner: Inner, data: Vec<u8>, failed: Rc<Cell<bool>>, ops: usize) {
    let p = match ChopperBufPreviewer::new(inner) {
        Ok(p) => p,
        Err(_) => { sx::check(failed.get(), "previewing failed though the stream did not"); sx::cover("preview failed"); return; }
    };
    sx::check(!failed.get(), "an error of the stream was not passed on");
    let shown = data.len().min(8192);
    let b = p.get_buf();
    sx::check(b.len() == shown, "another number of bytes was shown");
    if b.len() != shown { return; }
    sx::check(sx::eq_bytes(b, &data[..shown]), "other bytes were shown than the leading ones");
    match (p.get_lines(), lines(&data[..shown], shown == 8192)) {
        (None, None) => sx::cover("no text"),
        (Some(a), Some(w)) => {
            sx::check(a.len() == w.len(), "another number of lines was shown");
            for (x, y) in a.iter().zip(&w) {
                sx::check(x.len() == y.len() && sx::eq_bytes(x.as_bytes(), y), "another line was shown");
            }
            sx::cover("text");
        }
        (Some(_), None) => sx::fail("lines were shown of what is no text"),
        (None, Some(_)) => sx::fail("no lines were shown of text"),
    }
    drain(&mut p.get_reader(), &data, &failed, ops);
}
/// around the end of the preview
fn boundary(before: usize) {
    let n = 8190 + sx::choose("length", 0, 5);
    let mut d = vec![b'a'; n];
    d[5] = b'\n';
    // the last bytes are any
    let k = before.min(n);
    for i in 0..k { d[8186 + i] = sx::byte("b", i); }
    preview(d, 0, 1, true, 0);
}
/// more than one buffer, few read sizes, one error
fn long() {
    let n = [8192usize, 8193, 16384, 16390][sx::choose("length", 0, 4)];
    let mut d = vec![b'x'; n];
    d[n - 1] = sx::byte("b", 4);
    d[8191] = sx::byte("b", 5);
    preview(d, 5, 2, sx::flag("whole", 0), 2);
}
/// all reads in pieces of one size, lines of one length
fn pieces() {
    let step = [1usize, 1000, 4095, 4096, 4097, 8191, 8192, 10000][sx::choose("step", 0, 8)];
    let n = [1usize, 4096, 6000, 8191, 8192, 8193, 16384][sx::choose("length", 0, 7)];
    let line = [3usize, 80, 20000][sx::choose("line", 0, 3)];
    let mut d: Vec<u8> = (0..n).map(|k| if (k + 1) % line == 0 { b'\n' } else { b'a' + (k % 23) as u8 }).collect();
    let at = [0, step - 1, step, 2 * step - 1, 4095, 8191, 8192, n - 1][sx::choose("any", 0, 8)];
    if at < n { d[at] = sx::byte("b", 0); }
    let failed = Rc::new(Cell::new(false));
    preview_of(Inner { step, data: d.clone(), pos: 0, calls: 0, fail_call: 0, max: 1, failed: failed.clone(), whole: true }, d, failed, 1);
}
harness! {
    h_preview_pieces { pieces(); }
    h_buffered_3 { buffered(3, 3); }
    h_buffered_5 { buffered(5, 2); }
    h_preview_4 { preview(sx::bytes("b", 4), 3, 2, false, 1); }
    h_preview_lines { let mut d = b"ab\r\ncd".to_vec(); let at = sx::choose("at", 0, 6); d[at] = sx::byte("b", 0); d.insert(sx::choose("more", 0, 7), sx::byte("b", 1)); preview(d, 0, 1, true, 0); }
    h_preview_boundary { boundary(4); }
    h_preview_long { long(); }
}
