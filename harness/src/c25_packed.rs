//! Compressed streams (C25).
use crate::c19_zip::crc32;
use crate::kit::Shim;
use crate::{harness, sx};
use chopper::decompress::decompress::{decompress, is_compressed_using_format, is_compressed_using_previewer};
use chopper::util::reader::ChopperBufPreviewer;
use std::io::Read;

const P1: u32 = 0x9E3779B1;
const P2: u32 = 0x85EBCA77;
const P3: u32 = 0xC2B2AE3D;
const P4: u32 = 0x27D4EB2F;
const P5: u32 = 0x165667B1;
pub fn xxh32(data: &[u8], seed: u32) -> u32 {
    let le = |b: &[u8]| b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
    let mut d = data;
    let mut h;
    if d.len() >= 16 {
        let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
        while d.len() >= 16 {
            for k in 0..4 {
                v[k] = v[k].wrapping_add(le(&d[4 * k..]).wrapping_mul(P2)).rotate_left(13).wrapping_mul(P1);
            }
            d = &d[16..];
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
    } else {
        h = seed.wrapping_add(P5);
    }
    h = h.wrapping_add(data.len() as u32);
    while d.len() >= 4 {
        h = h.wrapping_add(le(d).wrapping_mul(P3)).rotate_left(17).wrapping_mul(P4);
        d = &d[4..];
    }
    for &b in d {
        h = h.wrapping_add((b as u32).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
    }
    h ^= h >> 15;
    h = h.wrapping_mul(P2);
    h ^= h >> 13;
    h = h.wrapping_mul(P3);
    h ^ (h >> 16)
}
const Q1: u64 = 0x9E3779B185EBCA87;
const Q2: u64 = 0xC2B2AE3D27D4EB4F;
const Q3: u64 = 0x165667B19E3779F9;
const Q4: u64 = 0x85EBCA77C2B2AE63;
const Q5: u64 = 0x27D4EB2F165667C5;
/// for less than 32 bytes
pub fn xxh64(data: &[u8]) -> u64 {
    let le = |b: &[u8], n: usize| (0..n).fold(0u64, |x, k| x | (b[k] as u64) << (8 * k));
    let mut h = Q5.wrapping_add(data.len() as u64);
    let mut d = data;
    while d.len() >= 8 {
        h = (h ^ le(d, 8).wrapping_mul(Q2).rotate_left(31).wrapping_mul(Q1)).rotate_left(27).wrapping_mul(Q1).wrapping_add(Q4);
        d = &d[8..];
    }
    if d.len() >= 4 {
        h = (h ^ le(d, 4).wrapping_mul(Q1)).rotate_left(23).wrapping_mul(Q2).wrapping_add(Q3);
        d = &d[4..];
    }
    for &b in d {
        h = (h ^ (b as u64).wrapping_mul(Q5)).rotate_left(11).wrapping_mul(Q1);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(Q2);
    h ^= h >> 29;
    h = h.wrapping_mul(Q3);
    h ^ (h >> 32)
}
fn put(v: &mut Vec<u8>, x: u64, n: usize) {
    for k in 0..n {
        v.push((x >> (8 * k)) as u8);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Gz,
    Lz4,
    Lz4Block,
    Lzf,
    Zst,
}
pub const KINDS: [Kind; 5] = [Kind::Gz, Kind::Lz4, Kind::Lz4Block, Kind::Lzf, Kind::Zst];
pub fn suffix(k: Kind) -> &'static str {
    match k {
        Kind::Gz => ".gz",
        Kind::Lz4 | Kind::Lz4Block => ".lz4",
        Kind::Lzf => ".lzf",
        Kind::Zst => ".zst",
    }
}
/// how a stream is made; not everything means something to every format
#[derive(Clone, Copy)]
pub struct How {
    /// data per block
    pub block: usize,
    /// checksums the format does not insist on
    pub sums: bool,
    pub block_sums: bool,
    /// sizes and names the format does not insist on
    pub notes: bool,
}
/// one whole stream (member, frame) in stored blocks
pub fn stored(kind: Kind, data: &[u8], how: How) -> Vec<u8> {
    let mut v = Vec::new();
    let parts: Vec<&[u8]> = if data.is_empty() { vec![] } else { data.chunks(how.block).collect() };
    match kind {
        Kind::Gz => {
            // extra field, name and comment, header checksum
            let flags = if how.notes { 4 | 8 | 16 } else { 0 } | if how.block_sums { 2 } else { 0 };
            v.extend_from_slice(&[0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 3]);
            if how.notes {
                v.extend_from_slice(b"\x03\0abcnote\0remark\0");
            }
            if how.block_sums {
                let c = crc32(&v);
                put(&mut v, c as u64, 2);
            }
            for p in &parts {
                v.push(0);
                put(&mut v, p.len() as u64, 2);
                put(&mut v, !(p.len() as u64), 2);
                v.extend_from_slice(p);
            }
            v.extend_from_slice(&[1, 0, 0, 0xff, 0xff]);
            put(&mut v, crc32(data) as u64, 4);
            put(&mut v, data.len() as u64, 4);
        }
        Kind::Lz4 => {
            put(&mut v, 0x184D2204, 4);
            v.push(0x60 | if how.block_sums { 0x10 } else { 0 } | if how.notes { 8 } else { 0 } | if how.sums { 4 } else { 0 });
            v.push(0x40);
            if how.notes {
                put(&mut v, data.len() as u64, 8);
            }
            let h = xxh32(&v[4..], 0);
            v.push((h >> 8) as u8);
            for p in &parts {
                put(&mut v, p.len() as u64 | 0x8000_0000, 4);
                v.extend_from_slice(p);
                if how.block_sums {
                    put(&mut v, xxh32(p, 0) as u64, 4);
                }
            }
            put(&mut v, 0, 4);
            if how.sums {
                put(&mut v, xxh32(data, 0) as u64, 4);
            }
        }
        Kind::Lz4Block => {
            for p in &parts {
                jblock(&mut v, 0x10, p, p);
            }
            v.extend_from_slice(b"LZ4Block");
            v.push(0x16);
            v.extend_from_slice(&[0; 12]);
        }
        Kind::Lzf => {
            for p in &parts {
                v.extend_from_slice(&[b'Z', b'V', 0, (p.len() >> 8) as u8, p.len() as u8]);
                v.extend_from_slice(p);
            }
        }
        Kind::Zst => {
            put(&mut v, 0xFD2FB528, 4);
            let sum = if how.sums { 4 } else { 0 };
            if how.notes {
                // single segment, content size of one byte
                v.push(0x20 | sum);
                v.push(data.len() as u8);
            } else {
                v.push(sum);
                // windows of 1 KiB or of 128
                v.push(if how.block > 1024 { 7 << 3 } else { 0 });
            }
            for p in &parts {
                put(&mut v, (p.len() as u64) << 3, 3);
                v.extend_from_slice(p);
            }
            put(&mut v, 1, 3);
            if how.sums {
                put(&mut v, xxh64(data), 4);
            }
        }
    }
    v
}
fn jblock(v: &mut Vec<u8>, method: u8, data: &[u8], packed: &[u8]) {
    v.extend_from_slice(b"LZ4Block");
    v.push(method | 6);
    put(v, packed.len() as u64, 4);
    put(v, data.len() as u64, 4);
    put(v, (xxh32(data, 0x9747b28c) & 0x0fff_ffff) as u64, 4);
    v.extend_from_slice(packed);
}

/// everything that can be read, and whether the end was reached without an error
pub fn unpack(stream: Vec<u8>, by_name: Option<&str>, step: usize, request: usize) -> (Vec<u8>, bool) {
    let mut out = Vec::new();
    let p = match ChopperBufPreviewer::new(Box::new(Shim::step(stream, step)) as Box<dyn Read>) {
        Ok(p) => p,
        Err(_) => return (out, false),
    };
    let f = match by_name {
        Some(n) => is_compressed_using_format(n).map(|f| f.0),
        None => is_compressed_using_previewer(&p),
    };
    let f = match f {
        Some(f) => f,
        None => {
            sx::fail("a compressed stream was not recognised");
            return (out, false);
        }
    };
    let mut r = match decompress(f, p) {
        Ok(r) => r,
        Err(_) => return (out, false),
    };
    let mut buf = vec![0xeeu8; request];
    for k in 0..20000 {
        match r.read(&mut buf) {
            Ok(0) => {
                // still the end
                sx::check(matches!(r.read(&mut buf), Ok(0)), "data after the end");
                return (out, true);
            }
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => return (out, false),
        }
        if k == 0 {
            match r.read(&mut []) {
                Ok(n) => sx::check(n == 0, "bytes for an empty request"),
                Err(_) => return (out, false),
            }
        }
    }
    sx::fail("a stream that does not end");
    (out, false)
}
fn expect(got: (Vec<u8>, bool), data: &[u8]) {
    sx::check(got.1, "a well-formed stream was refused");
    sx::check(got.0.len() == data.len() && sx::eq_bytes(&got.0, data), "a stream unpacks to something else");
    sx::cover("read");
}
/// any text; under checksums, which are hard on the solver, any one byte of it
fn payload(n: usize, sums: bool) -> Vec<u8> {
    if !sums {
        let v = sx::bytes("data", n);
        for (k, &b) in v.iter().enumerate() {
            // what the contents are makes no difference to unpacking, only to the preview
            sx::assume(k == 0 || sx::and(b >= b' ', b < 0x7f));
        }
        return v;
    }
    let mut v: Vec<u8> = (0..n).map(|k| b'a' + k as u8).collect();
    if n > 0 {
        let at = sx::choose("any", 0, n);
        v[at] = sx::byte("data", 0);
    }
    v
}
fn request() -> usize {
    [1, 3, 8192][sx::choose("request", 0, 3)]
}
fn by_name(kind: Kind) -> Option<&'static str> {
    if sx::flag("name", 0) {
        Some(suffix(kind))
    } else {
        None
    }
}
/// any data, in any number of blocks and streams, is read back
fn whole(kinds: &[Kind], n: usize) {
    let kind = kinds[sx::choose("kind", 0, kinds.len())];
    let sums = sx::flag("sums", 0);
    let data = payload(n, sums || kind == Kind::Gz || kind == Kind::Lz4Block);
    let how = How { block: 1 + sx::choose("block", 0, n.min(3)), sums, block_sums: sums && sx::flag("block sums", 0), notes: sx::flag("notes", 0) };
    let first = sx::choose("first", 0, n + 2);
    let mut v = Vec::new();
    // one stream, or two, each of which may be empty
    if first == n + 1 || kind == Kind::Lz4Block {
        v = stored(kind, &data, how);
    } else {
        v.extend(stored(kind, &data[..first], how));
        v.extend(stored(kind, &data[first..], how));
    }
    if v.is_empty() {
        return;
    }
    let step = [0, 1, 7][sx::choose("step", 0, 3)];
    expect(unpack(v, by_name(kind), step, request()), &data);
}
/// data that needs copying from before, with any literals
fn copied(kind: Kind) {
    let mut all = b"xyz12345".to_vec();
    if kind == Kind::Lz4Block {
        let k = sx::choose("any", 0, 8);
        all[k] = sx::byte("b", 0);
    } else {
        for k in 0..8 {
            all[k] = sx::byte("b", k);
            sx::assume(k == 0 || sx::and(all[k] >= b' ', all[k] < 0x7f));
        }
    }
    let (a, b, c) = (all[0], all[1], all[2]);
    let lits = all[3..].to_vec();
    // three literals, a match of 4 + m bytes at distance d, five literals
    let d = 1 + sx::choose("distance", 0, 3);
    let m = [0, 1, 4, 14, 15, 16, 270][sx::choose("more", 0, 7)];
    let mut data = vec![a, b, c];
    for _ in 0..m + 4 {
        data.push(data[data.len() - d]);
    }
    data.extend_from_slice(&lits);
    let mut lz4 = vec![0x30 | m.min(15) as u8, a, b, c, d as u8, 0];
    if m >= 15 {
        let mut left = m - 15;
        while left >= 255 {
            lz4.push(255);
            left -= 255;
        }
        lz4.push(left as u8);
    }
    lz4.push(0x50);
    lz4.extend_from_slice(&lits);
    let mut v = Vec::new();
    match kind {
        Kind::Lz4 => {
            put(&mut v, 0x184D2204, 4);
            v.push(0x60);
            v.push(0x40);
            let h = xxh32(&v[4..], 0);
            v.push((h >> 8) as u8);
            put(&mut v, lz4.len() as u64, 4);
            v.extend_from_slice(&lz4);
            put(&mut v, 0, 4);
        }
        Kind::Lz4Block => {
            jblock(&mut v, 0x20, &data, &lz4);
            v.extend_from_slice(b"LZ4Block");
            v.push(0x16);
            v.extend_from_slice(&[0; 12]);
        }
        _ => {
            // a run of three, a match of 4 + m bytes, a run of five
            let len = m + 4;
            if len > 264 {
                return;
            }
            let mut p = vec![2, a, b, c];
            if len - 2 < 7 {
                p.push(((len - 2) << 5) as u8);
            } else {
                p.push(7 << 5);
                p.push((len - 2 - 7) as u8);
            }
            p.push((d - 1) as u8);
            p.push(4);
            p.extend_from_slice(&lits);
            v.extend_from_slice(&[b'Z', b'V', 1, (p.len() >> 8) as u8, p.len() as u8, (data.len() >> 8) as u8, data.len() as u8]);
            v.extend_from_slice(&p);
        }
    }
    expect(unpack(v, None, 0, request()), &data);
}
/// chunks without data among others
fn empty_chunks() {
    let mut v = Vec::new();
    let mut data = Vec::new();
    let n = 1 + sx::choose("chunks", 0, 4);
    for k in 0..n {
        if sx::flag("empty", k) {
            v.extend_from_slice(b"ZV\0\0\0");
        } else {
            let b = sx::byte("b", k);
            sx::assume(sx::and(b >= b' ', b < 0x7f));
            v.extend_from_slice(&[b'Z', b'V', 0, 0, 1, b]);
            data.push(b);
        }
    }
    expect(unpack(v, by_name(Kind::Lzf), [0, 1][sx::choose("step", 0, 2)], request()), &data);
}
/// gz with fixed codes; zst with a run
fn coded(kind: Kind) {
    let mut v = Vec::new();
    let data: Vec<u8>;
    match kind {
        Kind::Gz => {
            let z = crate::c19_zip::deflated();
            data = crate::c19_zip::PLAIN.to_vec();
            v.extend_from_slice(&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3]);
            v.extend_from_slice(&z.packed);
            put(&mut v, crc32(&data) as u64, 4);
            put(&mut v, data.len() as u64, 4);
        }
        _ => {
            let b = sx::byte("b", 0);
            let n = [1, 2, 5, 200, 1000][sx::choose("run", 0, 5)];
            data = vec![b; n];
            put(&mut v, 0xFD2FB528, 4);
            v.extend_from_slice(&[0, 0]);
            put(&mut v, 1 | 1 << 1 | (n as u64) << 3, 3);
            v.push(b);
        }
    }
    let two = sx::flag("twice", 0);
    let mut all = data.clone();
    if two {
        v.extend(v.clone());
        all.extend(data);
    }
    expect(unpack(v, None, [0, 1][sx::choose("step", 0, 2)], request()), &all);
}
/// how checked streams are made: with every checksum there is
const CHECKED: How = How { block: 4, sums: true, block_sums: false, notes: true };
/// cut anywhere: an error, except between streams
fn cut(kind: Kind, sums: bool) {
    sx::allow(sx::OPAQUE);
    let data = payload(6, sums);
    let how = How { sums, notes: sx::flag("notes", 0), block_sums: sums, ..CHECKED };
    let two = kind != Kind::Lz4Block && sx::flag("two", 0);
    let mut v;
    // where a cut cannot be seen, and what is there until then
    let mut ends = vec![(0, 0)];
    if two {
        v = stored(kind, &data[..4], how);
        ends.push((v.len(), 4));
        v.extend(stored(kind, &data[4..], how));
    } else {
        v = stored(kind, &data, how);
    }
    if kind == Kind::Lzf {
        ends.push((9, 4));
    }
    let at = sx::choose("cut", 0, v.len());
    v.truncate(at);
    let name = if at < 10 { Some(suffix(kind)) } else { None };
    let (out, ok) = unpack(v, name, 0, request());
    let seen = ends.iter().find(|e| e.0 == at);
    match seen {
        Some(&(_, n)) => {
            if at > 0 {
                sx::check(ok, "a whole stream was refused");
            }
            sx::check(!ok || (out.len() == n && sx::eq_bytes(&out, &data[..n])), "a stream unpacks to something else");
            sx::cover("whole");
        }
        None => {
            sx::check(!ok, "a cut stream was taken as complete");
            sx::check(out.len() <= data.len() && sx::eq_bytes(&out, &data[..out.len()]), "a cut stream begins with something else");
            sx::cover("refused");
        }
    }
}
/// one byte changed: the original bytes or an error
fn changed(kind: Kind, how: How, two: bool) {
    sx::allow(sx::OPAQUE);
    // broken streams may stop the program
    sx::allow(sx::PANIC);
    sx::allow(sx::HUGE);
    let data = b"3,xy\n7";
    let mut v = stored(kind, data, how);
    let mut all = data.to_vec();
    if two {
        v.extend(stored(kind, data, how));
        all.extend_from_slice(data);
    }
    let at = sx::choose("at", 0, v.len());
    let old = v[at];
    v[at] = sx::byte("to", 0);
    sx::assume(v[at] != old);
    let (out, ok) = unpack(v, Some(suffix(kind)), 0, [1000, 8192][sx::choose("request", 0, 2)]);
    if ok {
        sx::check(out.len() == all.len() && sx::eq_bytes(&out, &all), "a changed stream was taken as complete");
        sx::cover("unharmed");
    } else {
        sx::cover("refused");
    }
}
/// a stored checksum other than that of the data is noticed
fn sum(kind: Kind) {
    sx::allow(sx::OPAQUE);
    let data = b"3,xy\n7,z";
    let data = &data[..[0, 1, 4, 8][sx::choose("len", 0, 4)]];
    let mut v = stored(kind, data, CHECKED);
    let at = match kind {
        Kind::Gz => v.len() - 8,
        Kind::Lz4Block => 17,
        _ => v.len() - 4,
    };
    if kind == Kind::Lz4Block && data.len() == 0 {
        return;
    }
    let mut same = true;
    for k in 0..4 {
        let b = sx::byte("sum", k);
        same = sx::and(same, b == v[at + k]);
        v[at + k] = b;
    }
    let (out, ok) = unpack(v, None, 0, request());
    sx::check(ok == same, "a wrong checksum was accepted, or a right one refused");
    if ok {
        sx::check(out == data, "a stream unpacks to something else");
        sx::cover("read");
    } else {
        sx::cover("mismatch");
    }
}
/// anything after a magic
fn anything(kind: Kind, n: usize) {
    sx::allow(sx::OPAQUE);
    sx::allow(sx::PANIC);
    sx::allow(sx::HUGE);
    let mut v = stored(kind, b"", CHECKED);
    v.truncate(match kind {
        Kind::Gz => 3,
        Kind::Lz4 => 4,
        Kind::Lz4Block => 8,
        Kind::Lzf => 2,
        Kind::Zst => 4,
    });
    if kind == Kind::Lzf {
        v.extend_from_slice(b"ZV");
    }
    v.extend(sx::bytes("b", n));
    let _ = unpack(v, Some(suffix(kind)), 0, 8192);
    sx::cover("no crash");
}

/// long contents in many or large blocks, one byte of them or of the checksum any, whole or cut
fn big(kind: Kind) {
    sx::allow(sx::OPAQUE);
    let n = [255, 4096, 8192, 8193, 65535, 65536, 65537, 140_000][sx::choose("size", 0, 8)];
    let block = [100, 1024, 8192, 65535][sx::choose("block", 0, 4)];
    if n / block > 700 { return; }
    let request = [100, 8192, 100_000][sx::choose("request", 0, 3)];
    let step = [0, 4096][sx::choose("step", 0, 2)];
    let summed = match kind { Kind::Gz | Kind::Lz4Block => true, _ => false };
    let mut data: Vec<u8> = (0..n).map(|k| b' ' + ((k * 7 + k / 95) % 90) as u8).collect();
    let at = [0, n / 2, n - 1][sx::choose("at", 0, 3)];
    let what = sx::choose("what", 0, 3);
    if what != 0 && at != 0 { return; }
    if !summed && what == 0 {
        data[at] = sx::byte("data", 0);
        sx::assume(sx::and(data[at] >= b' ', data[at] < 0x7f));
    }
    let how = How { block, sums: what == 1 && kind == Kind::Lz4, block_sums: false, notes: false };
    let mut v = stored(kind, &data, how);
    let mut good = true;
    if what == 0 && summed || what == 1 {
        // a byte of a checksum
        let i = match kind {
            Kind::Gz => v.len() - 8,
            Kind::Lz4Block => 17,
            Kind::Lz4 => v.len() - 4,
            _ => { return; }
        } + if what == 0 { 3 } else { 1 };
        let b = sx::byte("sum", 0);
        // the top four bits there are unused
        good = if kind == Kind::Lz4Block && what == 0 { b & 0x0f == v[i] & 0x0f } else { b == v[i] };
        if kind == Kind::Lz4Block && what == 0 { sx::assume(b < 16); }
        v[i] = b;
    }
    if what == 2 {
        // cut near the ends of blocks
        let mut cuts = vec![v.len() / 2, v.len() - 1, v.len() - 4, v.len().min(8192 + 3), v.len().min(65536 + 1)];
        cuts.push(v.len() / 3 * 2 + 1);
        let c = cuts[sx::choose("cut", 0, cuts.len())];
        if c >= v.len() { return; }
        if kind == Kind::Lzf {
            // nothing tells the end of the stream from that of a chunk
            let mut k = 0;
            while k < c { k += 5 + ((v[k + 3] as usize) << 8 | v[k + 4] as usize); }
            if k == c { return; }
        }
        v.truncate(c);
        let (out, ok) = unpack(v, None, step, request);
        sx::check(!ok, "a cut stream was taken as complete");
        sx::check(out.len() <= n && sx::eq_bytes(&out, &data[..out.len()]), "a cut stream begins with something else");
        sx::cover("refused");
        return;
    }
    let (out, ok) = unpack(v, None, step, request);
    sx::check(ok == good, "a wrong checksum was accepted, or a right one refused");
    if ok {
        sx::check(out.len() == n && sx::eq_bytes(&out, &data), "a stream unpacks to something else");
        sx::cover("read");
    }
}
harness! {
    h_big_gz { big(Kind::Gz); }
    h_big_lz4 { big(Kind::Lz4); }
    h_big_lz4_block { big(Kind::Lz4Block); }
    h_big_lzf { big(Kind::Lzf); }
    h_big_zst { big(Kind::Zst); }
    h_packed_gz { whole(&[Kind::Gz], 4); }
    h_packed_lz4 { whole(&[Kind::Lz4], 4); }
    h_packed_lz4_block { whole(&[Kind::Lz4Block], 5); }
    h_packed_lzf { whole(&[Kind::Lzf], 5); }
    h_packed_zst { whole(&[Kind::Zst], 4); }
    h_copied_lz4 { copied(Kind::Lz4); }
    h_copied_lz4_block { copied(Kind::Lz4Block); }
    h_copied_lzf { copied(Kind::Lzf); }
    h_packed_lzf_empty { empty_chunks(); }
    h_coded_gz { coded(Kind::Gz); }
    h_coded_zst { coded(Kind::Zst); }
    h_cut_gz { cut(Kind::Gz, true); }
    h_cut_lz4 { cut(Kind::Lz4, true); }
    h_cut_lz4_plain { cut(Kind::Lz4, false); }
    h_cut_lz4_block { cut(Kind::Lz4Block, true); }
    h_cut_lzf { cut(Kind::Lzf, true); }
    h_cut_zst { cut(Kind::Zst, true); }
    h_cut_zst_plain { cut(Kind::Zst, false); }
    h_sum_gz { sum(Kind::Gz); }
    h_sum_lz4 { sum(Kind::Lz4); }
    h_sum_lz4_block { sum(Kind::Lz4Block); }
    h_sum_zst { sum(Kind::Zst); }
    h_changed_gz { changed(Kind::Gz, CHECKED, false); }
    h_changed_gz_two { changed(Kind::Gz, How { notes: false, ..CHECKED }, true); }
    h_changed_lz4 { changed(Kind::Lz4, CHECKED, false); }
    h_changed_lz4_two { changed(Kind::Lz4, How { notes: false, ..CHECKED }, true); }
    h_changed_lz4_block { changed(Kind::Lz4Block, CHECKED, false); }
    h_changed_zst { changed(Kind::Zst, CHECKED, false); }
    h_changed_zst_two { changed(Kind::Zst, How { notes: false, ..CHECKED }, true); }
}
