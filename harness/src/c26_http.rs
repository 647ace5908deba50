//! Inputs given as a URL (C26), with the real HTTP client over a connection whose other side is in the harness's hands.
use crate::c10_csv::nanos;
use crate::sx;
use chopper::cli::util::YesNoAuto;
use chopper::input::input_factory::InputFactory;
use chopper::transport::streaming::http::HttpTransport;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use std::io::Read;
use std::path::Path;

fn b(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
/// an answer with this body in one of the ways to send it; where the body is cut, if so; true if that can be seen
fn answer(status: &str, body: &[u8], kind: usize, cut: Option<usize>) -> (Vec<u8>, bool) {
    let mut v = b(if kind == 3 || kind == 5 { "HTTP/1.0 " } else { "HTTP/1.1 " });
    v.extend(b(status));
    v.extend(b"\r\n");
    if kind == 0 || kind == 4 || kind == 5 { v.extend(format!("Content-Length: {}\r\n", body.len()).into_bytes()); }
    if kind == 1 { v.extend(b"Transfer-Encoding: chunked\r\n"); }
    if kind == 2 || kind == 4 { v.extend(b"Connection: close\r\n"); }
    v.extend(b"\r\n");
    let mut rest = vec![];
    if kind == 1 {
        // chunks of two
        for c in body.chunks(2) {
            rest.extend(format!("{:x}\r\n", c.len()).into_bytes());
            rest.extend(c);
            rest.extend(b"\r\n");
        }
        rest.extend(b"0\r\n\r\n");
    } else { rest.extend(body); }
    if let Some(c) = cut { rest.truncate(c.min(rest.len() - 1)); }
    v.extend(rest);
    (v, kind != 2 && kind != 3)
}
fn url(port: u64, path: &str) -> String { format!("http://127.0.0.1:{}{}", port, path) }
fn asked_for(path: &str) -> bool {
    let want = format!("GET {} HTTP/1.1\r\n", path).into_bytes();
    let got = sx::asked();
    got.len() >= want.len() && got[..want.len()] == want[..]
}
fn body(max: usize) {
    let kind = sx::choose("kind", 0, 6);
    let n = sx::choose("len", 0, max + 1);
    let data = sx::bytes("b", n);
    let all = if kind == 1 { if n == 0 { 5 } else { n + 5 * ((n + 1) / 2) + 5 } } else { n };
    let cut = if all > 0 && sx::flag("cut", 0) { Some(sx::choose("at", 0, all)) } else { None };
    // the empty line after the last chunk says nothing
    if kind == 1 { if let Some(c) = cut { if c > all - 3 { return; } } }
    let status = ["200 OK", "203 Fine", "299 Odd"][sx::choose("status", 0, 3)];
    let (bytes, seen) = answer(status, &data, kind, cut);
    let port = sx::serve(&bytes, sx::choose("step", 0, 2) * 7);
    let path = ["/a/b.csv", "/b?c=d.csv&e"][sx::choose("path", 0, 2)];
    let r = HttpTransport.open(Path::new(&url(port, path)));
    sx::check(asked_for(path), "something else was asked for");
    let mut r = match r { Ok(r) => r, Err(_) => { sx::fail("a good answer was refused"); return; } };
    let mut got = vec![];
    let mut buf = vec![0; 1 + sx::choose("buf", 0, 2) * 8];
    let mut bad = false;
    loop {
        match r.read(&mut buf) { Ok(0) => break, Ok(k) => got.extend(&buf[..k]), Err(_) => { bad = true; break; } }
        if got.len() > max { break; }
    }
    sx::observe("bad", bad as u64);
    sx::observe_bytes("got", &got);
    match cut {
        None => {
            sx::check(!bad, "reading a body failed");
            sx::check(sx::eq_bytes(&got, &data), "the body is not what was sent");
            sx::cover("read");
        }
        Some(_) if seen => { sx::check(bad, "a body cut short was taken for all of it"); sx::cover("cut"); }
        _ => {}
    }
}
fn errors() {
    let list = [("301 Moved", "301"), ("304 Not Modified", "304"), ("400 Bad", "400"), ("404 Not Found", "404"), ("418 Teapot", "418"), ("500 Oops", "500"), ("503 Busy", "503"), ("599 Odd", "599")];
    let (status, number) = list[sx::choose("status", 0, list.len())];
    let kind = sx::choose("kind", 0, 6);
    let n = sx::choose("len", 0, 3);
    let data = sx::bytes("b", n);
    let cut = if n > 0 && sx::flag("cut", 0) { Some(n - 1) } else { None };
    let (bytes, _) = answer(status, &data, kind, cut);
    let port = sx::serve(&bytes, 0);
    match HttpTransport.open(Path::new(&url(port, "/x"))) {
        Ok(_) => sx::fail("an error was taken for an input"),
        Err(e) => {
            let t = format!("{}", e);
            sx::check(t.contains(number), "the error does not name the status");
            sx::cover(if cut.is_some() { "error cut" } else { "error" });
        }
    }
}
fn taken() {
    let (start, is) = [("http://", true), ("https://", true), ("ftp://", false), ("file://", false), ("xhttp://", false), ("/http://", false), ("httpss://", false), ("http", false), ("", false), ("./http://", false),
        ("http:a", false), ("https:.", false), ("http:a://", false), ("a/https://", false), ("http.", false)][sx::choose("start", 0, 15)];
    let n = sx::choose("len", 0, 3);
    let mut t = b(start);
    for i in 0..n { let c = sx::byte("c", i); sx::assume(sx::and(c > 0x20, c < 0x7f)); sx::assume(c != b':'); t.push(c); }
    let s = unsafe { String::from_utf8_unchecked(t) };
    sx::check(HttpTransport.can_open(Path::new(&s)) == is, "the wrong paths are taken for URLs");
    sx::cover(if is { "a URL" } else { "no URL" });
}
/// nobody answers, or nonsense
fn nothing() {
    let k = sx::choose("case", 0, 4);
    let port = match k { 0 => 1, 1 => sx::serve(b"", 0), 2 => sx::serve(b"HTTP/1.1 200", 0), _ => sx::serve(b"garbage\r\n\r\n", 0) };
    sx::check(HttpTransport.open(Path::new(&url(port, "/x"))).is_err(), "no answer was taken for an input");
}
/// the whole way from URL to rows
fn rows() {
    let kind = sx::choose("kind", 0, 6);
    let c = sx::byte("c", 0);
    sx::assume(sx::and(c >= b'a', c <= b'z'));
    let text = [b"1,x".to_vec(), vec![c], b"\n2,y\n".to_vec()].concat();
    let cut = if sx::flag("cut", 0) { Some(sx::choose("at", 0, text.len())) } else { None };
    let (bytes, seen) = answer("200 OK", &text, kind, cut);
    let port = sx::serve(&bytes, [0, 1, 11][sx::choose("step", 0, 3)]);
    let path = ["/a.csv", "/a", "/a.csv?x", "/a.dc"][sx::choose("path", 0, 4)];
    let mut f = match InputFactory::new(nanos(Some(","), YesNoAuto::No), None, None) { Ok(f) => f, Err(_) => return };
    let mut s = match f.create_source_from_path(&url(port, path)) {
        Ok(s) => s,
        Err(_) => { sx::check(path == "/a.dc" || cut.is_some(), "a good answer was refused"); return; }
    };
    let mut n = 0;
    loop {
        match s.next_row() {
            Ok(Some(r)) => {
                n += 1;
                sx::check(r.timestamp == n, "a row of another time was read");
                if n > 2 { break; }
            }
            Ok(None) => break,
            Err(_) => { sx::check(cut.is_some(), "reading a good answer failed"); sx::cover("failed"); return; }
        }
    }
    if cut.is_none() { sx::check(n == 2, "not all rows were read"); sx::cover("rows"); }
    else if seen { sx::fail("a body cut short was taken for all of it"); }
}
/// bodies of sizes around those of the buffers on the way
fn long() {
    let kind = sx::choose("kind", 0, 6);
    let n = [255, 256, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 16385, 65535, 65537][sx::choose("size", 0, 13)];
    let mut data: Vec<u8> = (0..n).map(|i: usize| (i % 251) as u8).collect();
    let at = [0, n / 2, n - 1][sx::choose("at", 0, 3)];
    data[at] = sx::byte("b", 0);
    let cut = if kind == 0 || kind == 4 || kind == 5 { if sx::flag("cut", 0) { Some(n - 1) } else { None } } else { None };
    let (bytes, _) = if kind == 1 {
        let mut v = b("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
        for c in data.chunks(5000) {
            v.extend(format!("{:X}\r\n", c.len()).into_bytes());
            v.extend(c);
            v.extend(b"\r\n");
        }
        v.extend(b"0\r\n\r\n");
        (v, true)
    } else { answer("200 OK", &data, kind, cut) };
    let port = sx::serve(&bytes, [0, 5000][sx::choose("step", 0, 2)]);
    let mut r = match HttpTransport.open(Path::new(&url(port, "/a"))) { Ok(r) => r, Err(_) => { sx::fail("a good answer was refused"); return; } };
    let mut got = vec![];
    let ok = r.read_to_end(&mut got).is_ok();
    sx::check(ok == cut.is_none(), if ok { "a body cut short was taken for all of it" } else { "reading a body failed" });
    if ok { sx::check(sx::eq_bytes(&got, &data), "the body is not what was sent"); sx::cover("long"); }
}
crate::harness! {
    h_http_long { long() }
    h_http_body { body(5) }
    h_http_errors { errors() }
    h_http_taken { taken() }
    h_http_nothing { nothing() }
    h_http_rows { rows() }
}
