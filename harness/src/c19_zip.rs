//! Single-file zip archives (C19, C20).
use crate::{harness, sx};
use chopper::decompress::zip::{is_zip, new_reader_for_single_file_zip_archive};
use std::io::{self, BufReader, Cursor, Read, Seek, SeekFrom};

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            let m = 0u32.wrapping_sub(c & 1);
            c = (c >> 1) ^ (0xedb88320 & m);
        }
    }
    !c
}
fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes());
}
fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}
fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}

#[derive(Clone)]
pub struct Zip {
    pub name: Vec<u8>,
    pub utf8: bool,
    pub method: u16,
    /// bytes as stored in the archive
    pub packed: Vec<u8>,
    pub size: u64,
    pub crc: u32,
    pub local_extra: Vec<u8>,
    pub extra: Vec<u8>,
    pub entry_comment: Vec<u8>,
    pub comment: Vec<u8>,
    /// sizes and offset moved to a zip64 field: 1 size, 2 packed size, 4 offset
    pub moved: usize,
    /// zip64 records at the end; 1: present, 2: and the 32-bit record refers to them
    pub z64: usize,
    /// with z64 == 2: the values of the 32-bit record moved, a bit each
    pub refer: u32,
    /// fields nobody may look at
    pub idle: u32,
    /// ahead of the local header: none; between data and directory: bytes of a data descriptor
    pub descriptor: bool,
    /// what comes before the local header
    pub lead: Vec<u8>,
}
pub fn plain(data: &[u8]) -> Zip {
    Zip {
        name: b"n".to_vec(),
        utf8: false,
        method: 0,
        packed: data.to_vec(),
        size: data.len() as u64,
        crc: crc32(data),
        local_extra: vec![],
        extra: vec![],
        entry_comment: vec![],
        comment: vec![],
        moved: 0,
        z64: 0,
        refer: 63,
        idle: 0,
        descriptor: false,
        lead: vec![],
    }
}
/// places of the records in the bytes made
#[derive(Clone, Copy)]
pub struct At {
    pub central: usize,
    pub end64: usize,
    pub locator: usize,
    pub end: usize,
}
impl Zip {
    pub fn bytes(&self) -> (Vec<u8>, At) {
        let mut v = self.lead.clone();
        let flags = if self.utf8 { 1 << 11 } else { 0 } | if self.descriptor { 8 } else { 0 };
        let ones = |bit: usize, x: u64| if self.moved & bit != 0 { 0xffff_ffff } else { x as u32 };
        let idle = self.idle;
        p32(&mut v, 0x04034b50);
        p16(&mut v, idle as u16);
        p16(&mut v, flags);
        p16(&mut v, self.method);
        p16(&mut v, idle as u16);
        p16(&mut v, idle as u16);
        if self.descriptor {
            p32(&mut v, 0);
            p32(&mut v, 0);
            p32(&mut v, 0);
        } else {
            p32(&mut v, self.crc);
            p32(&mut v, ones(2, self.packed.len() as u64));
            p32(&mut v, ones(1, self.size));
        }
        p16(&mut v, self.name.len() as u16);
        p16(&mut v, self.local_extra.len() as u16);
        v.extend_from_slice(&self.name);
        v.extend_from_slice(&self.local_extra);
        v.extend_from_slice(&self.packed);
        if self.descriptor {
            p32(&mut v, 0x08074b50);
            p32(&mut v, self.crc);
            p32(&mut v, self.packed.len() as u32);
            p32(&mut v, self.size as u32);
        }
        let central = v.len();
        let mut moved = Vec::new();
        if self.moved & 1 != 0 {
            p64(&mut moved, self.size);
        }
        if self.moved & 2 != 0 {
            p64(&mut moved, self.packed.len() as u64);
        }
        if self.moved & 4 != 0 {
            p64(&mut moved, self.lead.len() as u64);
        }
        let mut extra = self.extra.clone();
        if self.moved != 0 {
            p16(&mut extra, 1);
            p16(&mut extra, moved.len() as u16);
            extra.extend_from_slice(&moved);
        }
        p32(&mut v, 0x02014b50);
        p16(&mut v, idle as u16);
        p16(&mut v, idle as u16);
        p16(&mut v, flags);
        p16(&mut v, self.method);
        p16(&mut v, idle as u16);
        p16(&mut v, idle as u16);
        p32(&mut v, self.crc);
        p32(&mut v, ones(2, self.packed.len() as u64));
        p32(&mut v, ones(1, self.size));
        p16(&mut v, self.name.len() as u16);
        p16(&mut v, extra.len() as u16);
        p16(&mut v, self.entry_comment.len() as u16);
        p16(&mut v, 0);
        p16(&mut v, idle as u16);
        p32(&mut v, idle);
        p32(&mut v, ones(4, self.lead.len() as u64));
        v.extend_from_slice(&self.name);
        v.extend_from_slice(&extra);
        v.extend_from_slice(&self.entry_comment);
        let end64 = v.len();
        if self.z64 > 0 {
            p32(&mut v, 0x06064b50);
            p64(&mut v, 44);
            p16(&mut v, idle as u16);
            p16(&mut v, idle as u16);
            p32(&mut v, 0);
            p32(&mut v, 0);
            p64(&mut v, 1);
            p64(&mut v, 1);
            p64(&mut v, (end64 - central) as u64);
            p64(&mut v, central as u64);
        }
        let locator = v.len();
        if self.z64 > 0 {
            p32(&mut v, 0x07064b50);
            p32(&mut v, 0);
            p64(&mut v, end64 as u64);
            p32(&mut v, 1);
        }
        let end = v.len();
        p32(&mut v, 0x06054b50);
        let f = |k: u32| self.z64 == 2 && self.refer & 1 << k != 0;
        p16(&mut v, if f(0) { 0xffff } else { 0 });
        p16(&mut v, if f(1) { 0xffff } else { 0 });
        p16(&mut v, if f(2) { 0xffff } else { 1 });
        p16(&mut v, if f(3) { 0xffff } else { 1 });
        p32(&mut v, if f(4) { 0xffff_ffff } else { (end64 - central) as u32 });
        p32(&mut v, if f(5) { 0xffff_ffff } else { central as u32 });
        p16(&mut v, self.comment.len() as u16);
        v.extend_from_slice(&self.comment);
        (v, At { central, end64, locator, end })
    }
}

/// a seekable file that gives out few bytes at a time
pub struct Slow(pub Cursor<Vec<u8>>, pub usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

pub enum Got {
    NotZip,
    Refused,
    /// opened, and reading failed after these bytes
    Broken(String, Vec<u8>),
    Read(String, Vec<u8>),
}
/// open and read to the end, at most `step` bytes at a time
pub fn unpack<R: 'static + Read + Seek>(mut f: R, step: usize) -> Got {
    match is_zip(&mut f) {
        Ok(true) => {}
        Ok(false) => return Got::NotZip,
        Err(_) => return Got::Refused,
    }
    let (mut r, name) = match new_reader_for_single_file_zip_archive(f) {
        Ok(x) => x,
        Err(_) => return Got::Refused,
    };
    let mut out = Vec::new();
    let mut buf = vec![0u8; step];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Got::Read(name, out),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => return Got::Broken(name, out),
        }
        if out.len() > 200_000 {
            sx::fail("reading an archive does not end");
            return Got::Refused;
        }
    }
}
pub fn open(v: Vec<u8>) -> Got {
    unpack(Cursor::new(v), 7)
}
fn expect(got: Got, name: &str, data: &[u8]) {
    match got {
        Got::Read(n, d) => {
            sx::check(sx::eq_bytes(n.as_bytes(), name.as_bytes()), "the file has another name");
            sx::check(sx::eq_bytes(&d, data), "the file has other contents");
            sx::cover("read");
        }
        Got::NotZip => sx::fail("an archive is not recognised as one"),
        Got::Refused => sx::fail("a well-formed archive was refused"),
        Got::Broken(..) => sx::fail("a well-formed archive could not be read"),
    }
}
fn refused(got: Got) {
    match got {
        Got::Read(..) => sx::fail("an archive that is not one good file was accepted"),
        Got::Broken(..) => sx::cover("failed while reading"),
        _ => sx::cover("refused"),
    }
}
const DATA: &[u8] = b"a,b\n1,2\n";

fn ascii(name: &str, n: usize) -> Vec<u8> {
    let v = sx::bytes(name, n);
    for b in &v {
        sx::assume(*b < 0x80);
    }
    v
}
fn fields(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for k in 0..n {
        let id = sx::u16v("id", k);
        sx::assume(id != 1);
        p16(&mut v, id);
        let len = sx::choose("field", k, 3) * 2;
        p16(&mut v, len as u16);
        for j in 0..len {
            v.push(sx::byte("extra", k * 8 + j));
        }
    }
    v
}
/// names, comments and extra fields of any contents
fn layout() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    z.name = ascii("name", sx::choose("name_len", 0, 3));
    z.utf8 = sx::flag("utf8", 0);
    z.local_extra = sx::bytes("local", sx::choose("local", 0, 2) * 5);
    z.extra = fields(sx::choose("fields", 0, 4));
    z.entry_comment = sx::bytes("note", sx::choose("note", 0, 2) * 3);
    z.comment = sx::bytes("comment", sx::choose("comment_len", 0, 2) * 3);
    z.descriptor = sx::flag("descriptor", 0);
    z.idle = sx::u32v("idle", 0);
    let name = String::from_utf8(z.name.clone()).unwrap_or_default();
    let (v, _) = z.bytes();
    let step = 1 + sx::choose("slow", 0, 2) * 99;
    expect(unpack(BufReader::new(Slow(Cursor::new(v), step)), 5), &name, DATA);
}
/// many empty extra fields
fn many_fields() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    let n = [1, 2, 5, 386, 387, 400][sx::choose("fields", 0, 6)];
    for k in 0..n {
        let id = if k == 0 || k == n - 1 { sx::u16v("id", k) } else { 7 };
        sx::assume(id != 1);
        p16(&mut z.extra, id);
        p16(&mut z.extra, 0);
    }
    z.moved = sx::choose("moved", 0, 8);
    z.z64 = sx::choose("z64", 0, 3);
    let (v, _) = z.bytes();
    expect(open(v), "n", DATA);
}
/// archive comments of any contents, the end record's signature included
fn comments(n: usize, step: usize) {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    z.comment = sx::bytes("comment", sx::choose("comment_len", 0, n + 1));
    z.z64 = sx::choose("z64", 0, 3);
    let (v, _) = z.bytes();
    let _ = step;
    expect(open(v), "n", DATA);
}
/// a comment that holds a whole end record, except that its length does not fit
fn false_end() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    z.z64 = sx::choose("z64", 0, 3);
    let before = sx::choose("before", 0, 3);
    let after = sx::choose("after", 0, 3);
    z.comment = vec![b'x'; before];
    p32(&mut z.comment, 0x06054b50);
    for k in 0..16 {
        z.comment.push(sx::byte("false", k));
    }
    let len = sx::u16v("false_len", 0);
    sx::assume(len != after as u16);
    p16(&mut z.comment, len);
    for k in 0..after {
        z.comment.push(sx::byte("after", k));
    }
    let (v, _) = z.bytes();
    expect(open(v), "n", DATA);
}
/// long comments
fn long_comment() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    let n = [300, 4096, 65534, 65535][sx::choose("comment_len", 0, 4)];
    z.comment = vec![b'c'; n];
    let k = sx::choose("where", 0, 3);
    z.comment[[0, n / 2, n - 1][k]] = sx::byte("comment", 0);
    let (v, _) = z.bytes();
    expect(open(v), "n", DATA);
}
/// one part of any length
fn lengths(long: bool) {
    sx::allow(sx::OPAQUE);
    let n = if long { [32767, 32768, 60000, 65535][sx::choose("length", 0, 4)] } else { [1, 127, 128, 255, 256, 1000, 4095, 4096, 8192, 8193][sx::choose("length", 0, 10)] };
    let mut data = b"a,b\n1,2\n".to_vec();
    data[4] = sx::byte("data", 0);
    let deflate = sx::flag("deflate", 0);
    let part = sx::choose("part", 0, 6);
    if part == 0 {
        let d = data[4];
        data = vec![b'x'; n];
        data[n / 2] = b'y';
        // for the checksum's sake
        sx::assume(d == 0);
    }
    let mut z = if deflate { block(&data) } else { plain(&data) };
    let mut fill = vec![b'f'; n];
    fill[n - 1] = sx::byte("last", 0);
    match part {
        0 => {}
        1 => { sx::assume(fill[n - 1] < 0x80); z.name = fill; }
        2 => z.local_extra = fill,
        3 => {
            let id = sx::u16v("id", 0);
            sx::assume(id != 1);
            let n = n.max(4).min(65535 - 40);
            p16(&mut z.extra, id);
            p16(&mut z.extra, n as u16 - 4);
            fill.truncate(n - 4);
            z.extra.extend_from_slice(&fill);
        }
        4 => z.entry_comment = fill,
        _ => {
            z.lead = vec![0x50, 0x4b, 3, 4];
            z.lead.extend_from_slice(&fill);
        }
    }
    z.moved = [0, 4, 7][sx::choose("moved", 0, 3)];
    z.z64 = [0, 2][sx::choose("z64", 0, 2)];
    let name = match String::from_utf8(z.name.clone()) { Ok(n) => n, Err(_) => return };
    let (v, _) = z.bytes();
    expect(unpack(BufReader::new(Slow(Cursor::new(v), 8192)), 8192), &name, &data);
}
/// sizes, offset, counts and disks moved to 64-bit records
fn zip64() {
    sx::allow(sx::OPAQUE);
    let mut z = if sx::flag("deflate", 0) { block(DATA) } else { plain(DATA) };
    if sx::flag("lead", 0) {
        z.lead = b"PK\x03\x04ahead".to_vec();
    }
    z.moved = sx::choose("moved", 0, 8);
    z.z64 = sx::choose("z64", 0, 3);
    if z.z64 == 2 {
        z.refer = [63, 1, 2, 4, 8, 16, 32][sx::choose("refer", 0, 7)];
    }
    if sx::flag("before", 0) {
        z.extra = fields(1);
    }
    z.comment = sx::bytes("comment", sx::choose("comment_len", 0, 3));
    z.idle = sx::u32v("idle", 0);
    let (mut v, at) = z.bytes();
    if sx::flag("after", 0) {
        // another field after the 64-bit one: rebuild by hand
        let mut w = v[..at.end64].to_vec();
        let more: Vec<u8> = vec![0x55, sx::byte("more", 0), 2, 0, 9, 9];
        let len = u16::from_le_bytes([w[at.central + 30], w[at.central + 31]]) + 6;
        w[at.central + 30] = len as u8;
        w[at.central + 31] = (len >> 8) as u8;
        w.extend_from_slice(&more);
        let mut rest = v[at.end64..].to_vec();
        if z.z64 > 0 {
            let off = (at.end64 + 6) as u64;
            let l = at.locator - at.end64;
            rest[l + 8..l + 16].copy_from_slice(&off.to_le_bytes());
        }
        w.extend_from_slice(&rest);
        v = w;
    }
    expect(open(v), "n", DATA);
}
fn set16(v: &mut [u8], at: usize, x: u16) {
    v[at..at + 2].copy_from_slice(&x.to_le_bytes());
}
fn set32(v: &mut [u8], at: usize, x: u32) {
    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
}
fn set64(v: &mut [u8], at: usize, x: u64) {
    v[at..at + 8].copy_from_slice(&x.to_le_bytes());
}
/// every field that decides whether the archive is taken, any value
fn decisive() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    z.z64 = sx::choose("z64", 0, 3);
    z.comment = vec![b'c'; sx::choose("comment_len", 0, 2)];
    let (mut v, at) = z.bytes();
    let (c, e, e64, l) = (at.central, at.end, at.end64, at.locator);
    let moved16 = z.z64 > 0;
    let ok = match sx::choose("field", 0, 17) {
        0 => { let x = sx::u32v("x", 0); set32(&mut v, 0, x); x == 0x04034b50 }
        1 => { let x = sx::u32v("x", 0); set32(&mut v, c, x); x == 0x02014b50 }
        2 => { let x = sx::u32v("x", 0); set32(&mut v, e, x); x == 0x06054b50 }
        3 => { let x = sx::u16v("y", 0); set16(&mut v, e + 4, x); sx::or(x == 0, sx::and(moved16, x == 0xffff)) }
        4 => { let x = sx::u16v("y", 0); set16(&mut v, e + 6, x); sx::or(x == 0, sx::and(moved16, x == 0xffff)) }
        5 => { let x = sx::u16v("y", 0); set16(&mut v, e + 8, x); sx::or(x == 1, sx::and(moved16, x == 0xffff)) }
        6 => { let x = sx::u16v("y", 0); set16(&mut v, e + 10, x); sx::or(x == 1, sx::and(moved16, x == 0xffff)) }
        7 => { let x = sx::u16v("y", 0); set16(&mut v, c + 8, x); x & 1 == 0 }
        8 => {
            // a method other than stored: the stored bytes are no deflate or bzip2 stream
            let x = sx::u16v("y", 0);
            sx::assume(sx::and(x != 8, x != 12));
            set16(&mut v, c + 10, x);
            x == 0
        }
        9 => { let x = sx::u16v("y", 0); set16(&mut v, c + 34, x); sx::or(x == 0, x == 0xffff) }
        // with z64 == 1 the 32-bit record does not refer to the 64-bit ones, which do not matter then
        10 if z.z64 > 0 => { let x = sx::u32v("x", 0); set32(&mut v, e64, x); sx::or(z.z64 == 1, x == 0x06064b50) }
        11 if z.z64 > 0 => { let x = sx::u32v("x", 0); set32(&mut v, e64 + 16, x); sx::or(z.z64 == 1, x == 0) }
        12 if z.z64 > 0 => { let x = sx::u32v("x", 0); set32(&mut v, e64 + 20, x); sx::or(z.z64 == 1, x == 0) }
        13 if z.z64 > 0 => { let x = sx::u64v("z", 0); set64(&mut v, e64 + 24, x); sx::or(z.z64 == 1, x == 1) }
        14 if z.z64 > 0 => { let x = sx::u64v("z", 0); set64(&mut v, e64 + 32, x); sx::or(z.z64 == 1, x == 1) }
        15 if z.z64 > 0 => { let x = sx::u32v("x", 0); set32(&mut v, l + 4, x); sx::or(z.z64 == 1, x == 0) }
        16 if z.z64 > 0 => { let x = sx::u32v("x", 0); set32(&mut v, l + 16, x); sx::or(z.z64 == 1, x == 1) }
        _ => { sx::assume(false); true }
    };
    let got = open(v);
    if ok {
        expect(got, "n", DATA);
    } else {
        refused(got);
    }
}
/// fields that do not matter here: sizes, times, attributes and the local header's copies
fn idle_fields() {
    sx::allow(sx::OPAQUE);
    let z = plain(DATA);
    let (mut v, at) = z.bytes();
    let c = at.central;
    for (k, p) in [4, 6, 10, 12].iter().enumerate() {
        set16(&mut v, *p, sx::u16v("idle16", k));
    }
    for (k, p) in [c + 4, c + 6, c + 12, c + 14, c + 36].iter().enumerate() {
        set16(&mut v, *p, sx::u16v("idle16", 10 + k));
    }
    set32(&mut v, c + 38, sx::u32v("idle32", 0));
    // general purpose flags other than encryption
    let f = sx::u16v("flags", 0);
    sx::assume(f & 1 == 0);
    set16(&mut v, c + 8, f);
    expect(open(v), "n", DATA);
}
/// any one byte replaced by any other
fn one_byte(method: usize) {
    sx::allow(sx::OPAQUE);
    let mut z = if method == 0 { plain(b"ab") } else { deflated() };
    let data = if method == 0 { b"ab".to_vec() } else { PLAIN.to_vec() };
    z.z64 = sx::choose("z64", 0, 2) * 2;
    z.moved = if z.z64 > 0 { 7 } else { 0 };
    z.comment = b"c".to_vec();
    let (mut v, _) = z.bytes();
    let p = sx::choose("at", 0, v.len());
    v[p] = sx::byte("b", 0);
    match open(v) {
        Got::Read(_, d) => {
            sx::check(sx::eq_bytes(&d, &data), "a damaged archive gave other data without an error");
            sx::cover("read");
        }
        Got::Broken(..) => sx::cover("failed while reading"),
        _ => sx::cover("refused"),
    }
}
/// cut off anywhere
fn cut() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(&[sx::byte("data", 0), b'b', sx::byte("data", 1)]);
    z.z64 = sx::choose("z64", 0, 2) * 2;
    z.comment = sx::bytes("comment", sx::choose("comment_len", 0, 2) * 3);
    z.name = ascii("name", 2);
    let (v, _) = z.bytes();
    let n = sx::choose("cut", 0, v.len());
    refused(open(v[..n].to_vec()));
}
/// an archive of several files or none
fn several() {
    sx::allow(sx::OPAQUE);
    let n = sx::choose("files", 0, 4);
    sx::assume(n != 1);
    let z = plain(&[sx::byte("data", 0)]);
    let (one, at) = z.bytes();
    let mut v = Vec::new();
    for _ in 0..n {
        v.extend_from_slice(&one[..at.central]);
    }
    if n == 0 {
        v.extend_from_slice(&[0x50, 0x4b, 3, 4]);
    }
    let central = v.len();
    for k in 0..n {
        let mut c = one[at.central..at.end].to_vec();
        set32(&mut c, 42, (k * at.central) as u32);
        v.extend_from_slice(&c);
    }
    let end = v.len();
    v.extend_from_slice(&one[at.end..]);
    set16(&mut v, end + 8, n as u16);
    set16(&mut v, end + 10, n as u16);
    set32(&mut v, end + 12, (end - central) as u32);
    set32(&mut v, end + 16, central as u32);
    refused(open(v));
}
/// nothing but the first signature is known
fn anything(n: usize) {
    sx::allow(sx::OPAQUE);
    let mut v = vec![0x50, 0x4b, 3, 4];
    v.extend_from_slice(&sx::bytes("b", n));
    refused(open(v));
}
/// an end record of any contents after a local header
fn any_end() {
    sx::allow(sx::OPAQUE);
    let mut v = vec![0x50, 0x4b, 3, 4, 0, 0, 0, 0, 0, 0];
    let end = v.len();
    p32(&mut v, 0x06054b50);
    v.extend_from_slice(&sx::bytes("b", 18));
    sx::assume(sx::and(v[end + 20] == 0, v[end + 21] == 0));
    refused(open(v));
}
/// names not of ASCII characters only
fn odd_names() {
    sx::allow(sx::OPAQUE);
    let mut z = plain(DATA);
    z.utf8 = sx::flag("utf8", 0);
    z.name = b"nn".to_vec();
    let b = sx::byte("name", 0);
    let want;
    if z.utf8 {
        z.name = vec![0xc3, b, b'.'];
        sx::assume(b >= 0x80 && b < 0xc0);
        want = vec![0xc3, b, b'.'];
    } else {
        z.name = vec![b, b'.'];
        sx::assume(b >= 0x80);
        want = vec![0xef, 0xbf, 0xbd, b'.'];
    }
    let (v, _) = z.bytes();
    match open(v) {
        Got::Read(n, d) => {
            sx::check(sx::eq_bytes(n.as_bytes(), &want), "the file has another name");
            sx::check(sx::eq_bytes(&d, DATA), "the file has other contents");
        }
        _ => sx::fail("a well-formed archive was refused"),
    }
}

/// a deflated file: "abcabcabcabc\n" packed with the fixed codes
pub const PLAIN: &[u8] = b"abcabcabcabc\n";
const PACKED: &[u8] = &[0x4b, 0x4c, 0x4a, 0x4e, 0x84, 0x21, 0x2e, 0x00];
pub fn deflated() -> Zip {
    let mut z = plain(PLAIN);
    z.method = 8;
    z.packed = PACKED.to_vec();
    z
}
/// packed as a block of bytes as they are
pub fn block(data: &[u8]) -> Zip {
    let mut z = plain(data);
    z.method = 8;
    z.packed = vec![1];
    p16(&mut z.packed, data.len() as u16);
    p16(&mut z.packed, !(data.len() as u16));
    z.packed.extend_from_slice(data);
    z
}

/// the checksum decides, whatever its value and however the data is read
fn checksum(method: usize) {
    sx::allow(sx::OPAQUE);
    let lens = [0, 1, 3, 17, 64, 70];
    let n = lens[sx::choose("len", 0, lens.len())];
    let data: Vec<u8> = (0..n).map(|k| b'a' + (k % 7) as u8).collect();
    let mut z = match method { 0 => plain(&data), 1 => block(&data), _ => deflated() };
    let data = if method == 2 { PLAIN.to_vec() } else { data };
    let stored = sx::u32v("crc", 0);
    let good = stored == z.crc;
    z.crc = stored;
    let (v, _) = z.bytes();
    let step = [1, 2, 7, 100][sx::choose("step", 0, 4)];
    judge(unpack(Slow(Cursor::new(v), 1 + sx::choose("slow", 0, 2) * 50), step), &data, good);
}
fn judge(got: Got, data: &[u8], good: bool) {
    match got {
        Got::Read(_, d) => {
            sx::check(good, "data that does not match its checksum was taken as good");
            sx::check(sx::eq_bytes(&d, data), "the file has other contents");
            sx::cover("read");
        }
        Got::Broken(_, d) => {
            sx::check(!good, "data that matches its checksum was refused");
            sx::check(sx::eq_bytes(&d, data), "bytes were lost before the checksum failed");
            sx::cover("mismatch");
        }
        _ => sx::fail("a well-formed archive was refused"),
    }
}
/// one byte of the data changed
fn changed(method: usize, n: usize) {
    sx::allow(sx::OPAQUE);
    let mut data: Vec<u8> = (0..n).map(|k| b'a' + (k % 7) as u8).collect();
    let crc = crc32(&data);
    let p = sx::choose("at", 0, n);
    let b = sx::byte("b", 0);
    let good = data[p] == b;
    data[p] = b;
    let mut z = if method == 0 { plain(b"") } else { block(&data) };
    if method == 0 {
        z.packed = data.clone();
        z.size = n as u64;
    }
    z.crc = crc;
    let (v, _) = z.bytes();
    let step = [1, 3, 100][sx::choose("step", 0, 3)];
    judge(unpack(Cursor::new(v), step), &data, good);
}
/// long reads
fn checksum_long(method: usize) {
    sx::allow(sx::OPAQUE);
    let n = [4096, 4097, 8192, 8193, 20000, 65535][sx::choose("len", 0, 6)];
    let mut data: Vec<u8> = (0..n).map(|k| b'a' + (k % 7) as u8).collect();
    let mut z = if method == 0 { plain(&data) } else { block(&data) };
    let step = [100, 4096, 8192, 70000][sx::choose("step", 0, 4)];
    let good;
    if sx::flag("changed", 0) {
        sx::assume(n < 10_000);
        let p = [0, 4095, 4096, 8191, 8192, n - 1][sx::choose("at", 0, 6)];
        sx::assume(p < n);
        let b = sx::byte("b", 0);
        sx::assume(b < 2);
        // only two values: the rest is for shorter data
        good = false;
        data[p] = b;
        let crc = z.crc;
        z = if method == 0 { plain(b"") } else { block(&data) };
        if method == 0 {
            z.packed = data.clone();
            z.size = n as u64;
        }
        z.crc = crc;
    } else {
        let stored = sx::u32v("crc", 0);
        good = stored == z.crc;
        z.crc = stored;
    }
    let (v, _) = z.bytes();
    judge(unpack(BufReader::with_capacity([8192, 100_000][sx::choose("buffer", 0, 2)], Cursor::new(v)), step), &data, good);
}
/// reads of any sizes, empty ones included, and reading on after the end
fn requests() {
    sx::allow(sx::OPAQUE);
    let data = b"abcdef".to_vec();
    let mut z = if sx::flag("deflate", 0) { block(&data) } else { plain(&data) };
    let bad = sx::flag("bad", 0);
    let x = sx::u32v("crc", 0);
    sx::assume((x == z.crc) != bad);
    z.crc = x;
    let (v, _) = z.bytes();
    let (mut r, _) = match new_reader_for_single_file_zip_archive(Cursor::new(v)) {
        Ok(x) => x,
        Err(_) => { sx::fail("a well-formed archive was refused"); return; }
    };
    let mut out = Vec::new();
    let mut ended = false;
    for k in 0..7 {
        let n = if k < 4 { [0, 1, 4, 9][sx::choose("ask", k, 4)] } else { 9 };
        let mut buf = vec![0u8; n];
        match r.read(&mut buf) {
            Ok(0) if n > 0 => {
                sx::check(!bad, "data that does not match its checksum was taken as good");
                sx::check(out.len() == data.len(), "bytes were lost");
                ended = true;
            }
            Ok(m) => {
                sx::check(!ended || m == 0, "more data after the end");
                sx::check(m <= n, "more bytes than asked for");
                out.extend_from_slice(&buf[..m]);
            }
            Err(_) => {
                sx::check(bad, "data that matches its checksum was refused");
                sx::check(out.len() == data.len(), "bytes were lost before the checksum failed");
                ended = true;
            }
        }
    }
    sx::check(ended, "the end was not reached");
    sx::check(sx::eq_bytes(&out, &data), "the file has other contents");
}

harness! {
    h_zip_layout { layout(); }
    h_zip_many_fields { many_fields(); }
    h_zip_comments { comments(6, 0); }
    h_zip_comments_9 { comments(9, 0); }
    h_zip_false_end { false_end(); }
    h_zip_long_comment { long_comment(); }
    h_zip_lengths { lengths(false); }
    h_zip_lengths_long { lengths(true); }
    h_crc_long { checksum_long(0); }
    h_crc_long_block { checksum_long(1); }
    h_zip_64 { zip64(); }
    h_zip_decisive { decisive(); }
    h_zip_idle { idle_fields(); }
    h_zip_one_byte { one_byte(0); }
    h_zip_one_byte_deflated { one_byte(1); }
    h_zip_cut { cut(); }
    h_zip_several { several(); }
    h_zip_anything { anything(6); }
    h_zip_any_end { any_end(); }
    h_zip_anything_26 { anything(26); }
    h_zip_anything_40 { anything(40); }
    h_zip_names { odd_names(); }
    h_crc_stored { checksum(0); }
    h_crc_block { checksum(1); }
    h_crc_deflated { checksum(2); }
    h_crc_changed { changed(0, 5); }
    h_crc_changed_block { changed(1, 5); }
    h_crc_changed_long { changed(0, 70); }
    h_crc_requests { requests(); }
}
