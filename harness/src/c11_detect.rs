//! CSV shape detection: delimiter, header, types (C11).
use crate::c10_csv::{compare, nanos, open, reference};
use crate::c06_filter::bytes_order;
use crate::sx;
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::util::csv_util::{guess_common_type, guess_delimiter, guess_has_header, guess_type, parse_into_delimiter};

const KINDS: [FieldType; 10] = [FieldType::Boolean, FieldType::Byte, FieldType::ByteBuf, FieldType::Char, FieldType::Double, FieldType::Float, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String];

fn delimiter(bytes: usize) {
    let n = sx::choose("len", 0, bytes + 1);
    let v = sx::bytes("b", n);
    let s = match String::from_utf8(v) { Ok(s) => s, Err(_) => return };
    let cands: &[u8] = [&b",\t "[..], &b" \t,"[..], &b";"[..], &b"|a,;"[..]][sx::choose("candidates", 0, 4)];
    let got = guess_delimiter(&s, cands);
    // counts without branching: characters, not bytes
    let count = |c: u8| {
        let mut k = 0;
        for ch in s.chars() { k += sx::ite(ch as u32 == c as u32, 1, 0); }
        k
    };
    let mut best = cands[0] as u64;
    let mut most = count(cands[0]);
    for c in &cands[1..] {
        let k = count(*c);
        best = sx::ite(k > most, *c as u64, best);
        most = sx::ite(k > most, k, most);
    }
    sx::observe("delimiter", got as u64);
    sx::check(got as u64 == best, "the delimiter is not the most frequent candidate");
    if s.len() > s.chars().count() { sx::cover("non-ASCII"); }
}
fn given(bytes: usize) {
    sx::allow(sx::OPAQUE);
    let n = sx::choose("len", 0, bytes + 1);
    let v = sx::bytes("b", n);
    let s = match String::from_utf8(v) { Ok(s) => s, Err(_) => return };
    let b = s.as_bytes();
    let tab = b.len() == 2 && b[0] == b'\\' && b[1] == b't';
    match parse_into_delimiter(&s) {
        Ok(c) => {
            if tab { sx::check(c == 9, "the escape for tab is not read as tab"); sx::cover("tab"); }
            else { sx::check(b.len() == 1 && b[0] < 0x80 && c == b[0], "something else than one ASCII character was accepted"); sx::cover("accepted"); }
        }
        Err(_) => {
            sx::check(!tab && !(b.len() == 1 && b[0] < 0x80), "a single ASCII character was refused");
            sx::cover("refused");
        }
    }
}
/// 0 text, 1 number, 2 integer: the grammar, written down independently
fn kind(s: &[u8]) -> u8 {
    let digit = |c: u8| c >= b'0' && c <= b'9';
    let mut i = 0;
    if i < s.len() && (s[i] == b'+' || s[i] == b'-') { i += 1; }
    let body = &s[i..];
    if body.is_empty() { return 0; }
    let mut all = true;
    for c in body { if !digit(*c) { all = false; break; } }
    if all {
        // fits 64 bits?
        let neg = i == 1 && s[0] == b'-';
        let mut d = body;
        while d.len() > 1 && d[0] == b'0' { d = &d[1..]; }
        if d.len() != 19 { return if d.len() < 19 { 2 } else { 1 }; }
        let limit: &[u8] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
        return if bytes_order(d, limit) <= 0 { 2 } else { 1 };
    }
    let lower = |c: u8| if c >= b'A' && c <= b'Z' { c + 32 } else { c };
    let is = |w: &[u8]| body.len() == w.len() && body.iter().zip(w).all(|(a, b)| lower(*a) == *b);
    if is(b"inf") || is(b"nan") || is(b"infinity") { return 1; }
    let mut j = 0;
    let mut digits = 0;
    while j < body.len() && digit(body[j]) { j += 1; digits += 1; }
    if j < body.len() && body[j] == b'.' {
        j += 1;
        while j < body.len() && digit(body[j]) { j += 1; digits += 1; }
    }
    if digits == 0 { return 0; }
    if j < body.len() && (body[j] == b'e' || body[j] == b'E') {
        j += 1;
        if j < body.len() && (body[j] == b'+' || body[j] == b'-') { j += 1; }
        if j == body.len() { return 0; }
        while j < body.len() { if !digit(body[j]) { return 0; } j += 1; }
    }
    if j == body.len() { 1 } else { 0 }
}
fn code(t: FieldType) -> u8 {
    match t { FieldType::Long => 2, FieldType::Double => 1, FieldType::String => 0, _ => 9 }
}
fn ascii(tag: &str, n: usize) -> String {
    let v = sx::bytes(tag, n);
    for b in &v { sx::assume(*b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
fn field_kind(max: usize) {
    let n = sx::choose("len", 0, max + 1);
    let s = ascii("c", n);
    let k = kind(s.as_bytes());
    sx::observe("kind", k as u64);
    sx::check(code(guess_type(&s)) == k, "a text's kind is wrong");
    match k { 0 => sx::cover("text"), 1 => sx::cover("number"), _ => sx::cover("integer") }
}
/// numbers around the limits of 64 bits, and long ones
fn field_kind_long() {
    let base = ["9223372036854775807", "9223372036854775808", "1844674407370955161", "00000000000000000000000000", "99999999999999999999", "1e400", "0.00000000000000000000000000000000000000000000001", "infinity", "nan", "1_000", "0x10", "1e"][sx::choose("base", 0, 12)];
    let mut v = base.as_bytes().to_vec();
    let sign = sx::choose("sign", 0, 3);
    if sign > 0 { v.insert(0, if sign == 1 { b'-' } else { b'+' }); }
    // any one character replaced by any digit or letter
    let at = sx::choose("at", 0, v.len() + 1);
    if at < v.len() {
        let b = sx::byte("c", 0);
        sx::assume(sx::or(sx::and(b >= b'0', b <= b'9'), sx::or(b == b'.', sx::or(b == b'e', sx::or(b == b'N', b == b'-')))));
        v[at] = b;
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    sx::check(code(guess_type(&s)) == kind(s.as_bytes()), "a text's kind is wrong");
}
fn trim(s: &[u8]) -> &[u8] {
    let ws = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    let mut s = s;
    while !s.is_empty() && ws(s[0]) { s = &s[1..]; }
    while !s.is_empty() && ws(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
fn kinds_of(line: &[u8], delim: u8) -> Vec<u8> {
    let mut r = vec![];
    let mut a = 0;
    for i in 0..line.len() + 1 {
        if i == line.len() || line[i] == delim { r.push(kind(trim(&line[a..i]))); a = i + 1; }
    }
    r
}
fn letters(tag: &str, n: usize, alphabet: &[u8]) -> Vec<u8> {
    (0..n).map(|i| {
        let b = sx::byte(tag, i);
        let mut ok = false;
        for a in alphabet { ok = sx::or(ok, b == *a); }
        sx::assume(ok);
        b
    }).collect()
}
fn header(max: usize, alphabet: &[u8]) {
    let a = letters("a", sx::choose("len_a", 0, max + 1), alphabet);
    let b = letters("b", sx::choose("len_b", 0, max + 1), alphabet);
    let have = sx::choose("have", 0, 4);
    let sa = unsafe { String::from_utf8_unchecked(a.clone()) };
    let sb = unsafe { String::from_utf8_unchecked(b.clone()) };
    let (l1, l2) = (if have & 1 != 0 { Some(&sa) } else { None }, if have & 2 != 0 { Some(&sb) } else { None });
    let got = guess_has_header(l1, l2, b',');
    if have != 3 {
        sx::check(!got, "a header was assumed without two lines");
        return;
    }
    sx::check(got == (kinds_of(&a, b',') != kinds_of(&b, b',')), "a header was assumed although the kinds agree, or not although they differ");
    if got { sx::cover("header"); } else { sx::cover("no header"); }
}
fn common(max: usize) {
    let n = sx::choose("len", 0, max + 1);
    let ks: Vec<FieldType> = (0..n).map(|i| KINDS[sx::choose("kind", i, 10)]).collect();
    let got = guess_common_type(&ks);
    let text = n == 0 || ks.iter().any(|k| matches!(k, FieldType::Boolean | FieldType::ByteBuf | FieldType::String));
    let float = ks.iter().any(|k| matches!(k, FieldType::Double | FieldType::Float));
    let want = if text { FieldType::String } else if float { FieldType::Double } else { FieldType::Long };
    sx::check(got == want, "the common kind is not the narrowest covering all");
}
/// the CSV source with everything detected
fn source(max: usize) {
    sx::allow(sx::OPAQUE);
    // first fields are timestamps (or a name), so that lines can become rows
    let first = ["1", "t"][sx::choose("first", 0, 2)];
    let mut t = first.as_bytes().to_vec();
    let a = letters("a", sx::choose("len_a", 0, max + 1), b", 1x");
    t.extend(&a);
    let l1 = t.clone();
    t.push(b'\n');
    let mut l2 = b"2".to_vec();
    l2.extend(letters("b", sx::choose("len_b", 0, max + 1), b", 1x"));
    t.extend(&l2);
    t.push(b'\n');
    let two = sx::flag("two", 0);
    if !two { t.truncate(l1.len() + 1); }
    let c = |d: u8| { let mut k = 0; for b in &l1 { if *b == d { k += 1; } } k };
    let delim = if c(b',') >= c(b' ') { b',' } else { b' ' };
    let head = two && kinds_of(&l1, delim) != kinds_of(&l2, delim);
    let want = reference(&t, delim);
    let r = open(t, 0, &nanos(None, YesNoAuto::Auto));
    compare(r, want, head);
    if head { sx::cover("header"); }
    if delim == b' ' { sx::cover("space"); }
}
/// many columns, of which one may differ
fn wide(through_source: bool) {
    sx::allow(sx::OPAQUE);
    let n = [2, 8, 9, 16, 17, 32, 33, 64, 65][sx::choose("columns", 0, 9)];
    let at = 1 + sx::choose("at", 0, n - 1);
    let more = sx::choose("more", 0, 3);
    let base = ["1", "2.5", "x"][sx::choose("base", 0, 3)].as_bytes();
    let line = |tag: &str, more: bool| {
        let mut v = b"1".to_vec();
        for k in 1..n {
            v.push(b',');
            if k == at { v.extend(letters(tag, 1, b"1x.")); } else { v.extend_from_slice(base); }
        }
        if more { v.push(b','); }
        v
    };
    let a = line("a", more == 1);
    let b = line("b", more == 2);
    let head = kinds_of(&a, b',') != kinds_of(&b, b',');
    if through_source {
        let mut t = a.clone();
        t.push(b'\n');
        t.extend(&b);
        t.push(b'\n');
        let want = reference(&t, b',');
        compare(open(t, 0, &nanos(None, YesNoAuto::Auto)), want, head);
    } else {
        let (a, b) = unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) };
        sx::check(guess_has_header(Some(&a), Some(&b), b',') == head, "a header was assumed although the kinds agree, or not although they differ");
    }
    if head { sx::cover("header"); } else { sx::cover("no header"); }
}
/// many delimiters
fn delimiter_long() {
    let counts = [0usize, 1, 2, 127, 128, 255, 256, 257, 65535, 65536];
    let cands: &[u8] = [&b",\t "[..], &b";,"[..]][sx::choose("candidates", 0, 2)];
    let mut v = Vec::new();
    let mut most = 0;
    let mut best = cands[0];
    let (a, b) = (counts[sx::choose("count", 0, 10)], counts[sx::choose("count", 1, 10)]);
    let c = sx::byte("c", 0);
    sx::assume(c < 0x80);
    for (k, n) in [a, b].iter().enumerate() {
        for _ in 0..*n { v.push(cands[k]); }
        v.push(b'x');
    }
    v.push(c);
    for (k, &d) in cands.iter().enumerate() {
        let n = [a, b, 0][k] + if c == d { 1 } else { 0 };
        if n > most { most = n; best = d; }
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    sx::check(guess_delimiter(&s, cands) == best, "the delimiter is not the most frequent candidate");
}
/// one kind among many of another
fn common_long() {
    let n = [5usize, 8, 9, 16, 17, 40][sx::choose("len", 0, 6)];
    let mut ks = vec![KINDS[sx::choose("kind", 0, 10)]; n];
    ks[sx::choose("at", 0, n)] = KINDS[sx::choose("kind", 1, 10)];
    let got = guess_common_type(&ks);
    let text = ks.iter().any(|k| matches!(k, FieldType::Boolean | FieldType::ByteBuf | FieldType::String));
    let float = ks.iter().any(|k| matches!(k, FieldType::Double | FieldType::Float));
    sx::check(got == if text { FieldType::String } else if float { FieldType::Double } else { FieldType::Long }, "the common kind is not the narrowest covering all");
}
/// delimiter and header options given: no detection
fn configured() {
    let d = [b',', b';', b'\t', b'|'][sx::choose("delim", 0, 4)];
    let ds = if d == b'\t' && sx::flag("escape", 0) { "\\t".to_string() } else { (d as char).to_string() };
    let head = sx::choose("header", 0, 2) == 1;
    let rows = letters("c", 2, b"1x");
    let t = vec![b'1', d, rows[0], b',', b' ', b'x', b'\n', b'2', d, rows[1], b'\n'];
    let want = reference(&t, d);
    compare(open(t, 0, &nanos(Some(&ds), if head { YesNoAuto::Yes } else { YesNoAuto::No })), want, head);
}

harness! {
    h_delimiter { delimiter(4); }
    h_delimiter_deep { delimiter(7); }
    h_delimiter_given { given(4); }
    h_kind { field_kind(4); }
    h_kind_deep { field_kind(6); }
    h_kind_long { field_kind_long(); }
    h_header { header(3, b",1x. "); }
    h_header_deep { header(4, b",1x. "); }
    h_common { common(4); }
    h_source { source(3); }
    h_header_wide { wide(false); }
    h_source_wide { wide(true); }
    h_delimiter_long { delimiter_long(); }
    h_common_long { common_long(); }
    h_configured { configured(); }
}
