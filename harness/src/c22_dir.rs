//! Directories as inputs (C22) and comparing files (C24).
use crate::{harness, sx};
use chopper::error::CliResult;
use chopper::input::files_in_dir_provider::FilesInDirPathProvider;
use chopper::input::input_factory::InputFactory;
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::transport::dir::dir_transport::DirTransport;
use chopper::transport::dir::file::DirFileTransport;
use chopper::util::file::are_contents_same;
use chopper::chopper::types::FieldValue;
use std::path::{Path, PathBuf};

/// a directory listing made up by the harness
#[derive(Clone)]
struct Listing {
    names: Vec<Vec<u8>>,
    dirs: Vec<bool>,
    root_is_dir: bool,
    list_fails: bool,
}
fn path(name: &[u8]) -> PathBuf {
    Path::new("r").join(String::from_utf8(name.to_vec()).unwrap_or_default())
}
impl DirTransport for Listing {
    fn can_handle(&self, _: &Path) -> bool {
        true
    }
    fn is_dir(&self, p: &Path) -> bool {
        if p == Path::new("r") {
            return self.root_is_dir;
        }
        for k in 0..self.names.len() {
            if self.dirs[k] && p == path(&self.names[k]) {
                return true;
            }
        }
        false
    }
    fn read_dir(&self, _: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
        if self.list_fails {
            return Err(chopper::error::Error::from("cannot list"));
        }
        let v: Vec<PathBuf> = self.names.iter().map(|n| path(n)).collect();
        Ok(Box::new(v.into_iter()))
    }
    fn box_clone(&self) -> Box<dyn DirTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "listing"
    }
}
fn less(a: &[u8], b: &[u8]) -> bool {
    for k in 0..a.len().min(b.len()) {
        if a[k] != b[k] {
            return a[k] < b[k];
        }
    }
    a.len() < b.len()
}
/// up to `n` entries with any different names of 1..=len characters
fn listing(n: usize, len: usize, dirs: bool) {
    let mut l = Listing { names: vec![], dirs: vec![], root_is_dir: true, list_fails: false };
    let n = sx::choose("entries", 0, n + 1);
    for k in 0..n {
        let m = 1 + sx::choose("len", k, len);
        let name: Vec<u8> = (0..m).map(|j| sx::byte("name", k * 4 + j)).collect();
        for &b in &name {
            sx::assume(sx::and(b > b' ', b < 0x7f));
            sx::assume(b != b'/');
        }
        // a leading dot is like any other character, except where it makes "." or ".."
        sx::assume(name[0] != b'.' || m > 2 || (m == 2 && name[1] != b'.'));
        for o in &l.names {
            sx::assume(o.len() != name.len() || !sx::eq_bytes(o, &name));
        }
        l.names.push(name);
        l.dirs.push(dirs && sx::flag("dir", k));
    }
    let t: Box<dyn DirTransport> = Box::new(l.clone());
    let mut p = match FilesInDirPathProvider::new(&t, Path::new("r")) {
        Ok(p) => p,
        Err(_) => { sx::fail("a directory was refused"); return; }
    };
    let mut seen: Vec<usize> = Vec::new();
    while let Some(got) = p.get_next_path() {
        let mut at = None;
        for k in 0..n {
            if got == path(&l.names[k]) {
                at = Some(k);
            }
        }
        match at {
            None => { sx::fail("a path that is not in the directory"); return; }
            Some(k) => {
                sx::check(!l.dirs[k], "a subdirectory was given as a file");
                sx::check(!seen.contains(&k), "a file was given twice");
                if let Some(&last) = seen.last() {
                    sx::check(less(&l.names[last], &l.names[k]), "files are not in the order of their names");
                }
                seen.push(k);
            }
        }
    }
    let files = l.dirs.iter().filter(|d| !**d).count();
    sx::check(seen.len() == files, "a file of the directory was left out");
    sx::check(p.get_next_path().is_none(), "more files after the end");
    if files > 1 {
        sx::cover("ordered");
    }
}
fn not_a_dir() {
    let l = Listing { names: vec![b"a".to_vec()], dirs: vec![false], root_is_dir: sx::flag("dir", 0), list_fails: sx::flag("fails", 0) };
    let ok = l.root_is_dir && !l.list_fails;
    let t: Box<dyn DirTransport> = Box::new(l);
    sx::check(FilesInDirPathProvider::new(&t, Path::new("r")).is_ok() == ok, "something that is not a directory or cannot be listed was taken");
}

/// many entries listed in some order, one of any name
fn long_listing() {
    let n = [5, 9, 17, 33, 70, 301][sx::choose("entries", 0, 6)];
    let style = if n > 100 { 1 } else { sx::choose("style", 0, 4) };
    let order = sx::choose("order", 0, 4);
    let at = if n > 100 { n / 2 } else { [0, n / 2, n - 1][sx::choose("at", 0, 3)] };
    let mut l = Listing { names: vec![], dirs: vec![], root_is_dir: true, list_fails: false };
    for k in 0..n {
        l.names.push(match style {
            0 => format!("{:03}.csv", k),
            1 => format!("{}.csv", k),
            2 => format!("{}{}", "x".repeat(200), (b'a' + (k % 26) as u8) as char).into_bytes().into_iter().map(char::from).collect::<String>() + &"y".repeat(k / 26),
            _ => "z".repeat(k + 1),
        }.into_bytes());
        l.dirs.push(k % 7 == 3);
    }
    // one character of one name
    let m = l.names[at].len();
    let p = [0, m / 2, m - 1][sx::choose("place", 0, 3)];
    let b = sx::byte("b", 0);
    sx::assume(sx::and(sx::and(b > b' ', b < 0x7f), sx::and(b != b'/', b != b'.')));
    l.names[at][p] = b;
    for k in 0..n {
        if k != at { sx::assume(l.names[k].len() != m || !sx::eq_bytes(&l.names[k], &l.names[at])); }
    }
    match order {
        0 => {}
        1 => { l.names.reverse(); l.dirs.reverse(); }
        2 => { l.names.rotate_left(n / 3); l.dirs.rotate_left(n / 3); }
        _ => { for i in (0..n / 2).step_by(2) { l.names.swap(i, n - 1 - i); l.dirs.swap(i, n - 1 - i); } }
    }
    let mut want: Vec<usize> = (0..n).filter(|k| !l.dirs[*k]).collect();
    // insertion sort by name
    for i in 1..want.len() {
        let mut j = i;
        while j > 0 && less(&l.names[want[j]], &l.names[want[j - 1]]) { want.swap(j, j - 1); j -= 1; }
    }
    let t: Box<dyn DirTransport> = Box::new(l.clone());
    let mut p = match FilesInDirPathProvider::new(&t, Path::new("r")) {
        Ok(p) => p,
        Err(_) => { sx::fail("a directory was refused"); return; }
    };
    for &k in &want {
        match p.get_next_path() {
            Some(got) => sx::check(got == path(&l.names[k]), "files are not given in the order of their names"),
            None => { sx::fail("a file of the directory was left out"); return; }
        }
    }
    sx::check(p.get_next_path().is_none(), "more files than the directory has");
    sx::cover("ordered");
}
const NAMES: [&str; 6] = ["1.csv", "10.csv", "2.csv", "B.csv", "a.csv", "b.csv"];
/// real files: a directory of up to three CSV files and a subdirectory, read as one input
fn on_disk(count: usize) {
    sx::allow(sx::OPAQUE);
    let _ = std::fs::create_dir("d");
    let mut used: Vec<usize> = Vec::new();
    let mut digits: Vec<u8> = Vec::new();
    // written in any order, so that the system may list them in any
    for f in 0..count {
        let k = sx::choose("file", f, NAMES.len());
        for &u in &used {
            sx::assume(u != k);
        }
        used.push(k);
        let d = sx::byte("digit", f);
        sx::assume(d >= b'0' && d <= b'9');
        digits.push(d);
        let text = vec![b't', b',', b'v', b'\n', d, b',', b'a' + f as u8, b'\n'];
        if std::fs::write(Path::new("d").join(NAMES[k]), &text).is_err() {
            sx::fail("cannot write the scratch file");
        }
    }
    let sub = sx::flag("sub", 0);
    if sub {
        let _ = std::fs::create_dir("d/a");
        let _ = std::fs::write("d/a/0.csv", b"t,v\n7,zz\n");
    }
    let c = crate::c10_csv::nanos(Some(","), chopper::cli::util::YesNoAuto::Yes);
    let mut fac = match InputFactory::new(c, None, None) {
        Ok(f) => f,
        Err(_) => { sx::fail("no input factory"); return; }
    };
    let mut s = match fac.create_source_from_path(if sx::flag("slash", 0) { "d/" } else { "./d" }) {
        Ok(s) => s,
        Err(_) => { sx::fail("a directory of csv files was refused"); return; }
    };
    let mut order: Vec<usize> = (0..count).collect();
    for i in 0..count {
        for j in i + 1..count {
            if used[order[j]] < used[order[i]] {
                order.swap(i, j);
            }
        }
    }
    for &f in &order {
        match s.next_row() {
            Ok(Some(r)) => {
                sx::check(r.timestamp == (digits[f] - b'0') as u64, "a row of another file or a changed timestamp");
                match r.field_values.last() {
                    Some(FieldValue::String(v)) => sx::check(sx::eq_bytes(v.as_bytes(), &[b'a' + f as u8]), "files are not read in the order of their names"),
                    _ => sx::fail("a value is missing"),
                }
            }
            _ => { sx::fail("a file of the directory was left out"); return; }
        }
    }
    sx::check(matches!(s.next_row(), Ok(None)), "more rows than the files hold");
    for &k in &used {
        let _ = std::fs::remove_file(Path::new("d").join(NAMES[k]));
    }
    let _ = std::fs::remove_file("d/a/0.csv");
    let _ = std::fs::remove_dir("d/a");
    let _ = std::fs::remove_dir("d");
    sx::cover("read");
}
/// the file system's own view of what is a directory
fn kinds() {
    let _ = std::fs::create_dir("d");
    let _ = std::fs::write("f", b"x");
    let t = DirFileTransport;
    sx::check(t.is_dir(Path::new("d")) && t.can_handle(Path::new("d")), "a directory is not taken as one");
    sx::check(!t.is_dir(Path::new("f")) && !t.can_handle(Path::new("f")), "a file is taken as a directory");
    sx::check(!t.is_dir(Path::new("none")) && !t.can_handle(Path::new("none")), "nothing is taken as a directory");
    sx::check(t.read_dir(Path::new("f")).is_err() && t.read_dir(Path::new("none")).is_err(), "something that is no directory was listed");
    let b: Box<dyn DirTransport> = Box::new(t);
    sx::check(FilesInDirPathProvider::new(&b, Path::new("f")).is_err() && FilesInDirPathProvider::new(&b, Path::new("none")).is_err(), "something that is no directory was taken");
    let _ = std::fs::remove_dir("d");
    let _ = std::fs::remove_file("f");
}

/// big files differing in one place, or in length
fn same_big() {
    sx::allow(sx::OPAQUE);
    let lens = [4096, 12288, 24575, 24576, 24577, 65535, 65536, 65537, 131072, 200000];
    let a = lens[sx::choose("len", 0, lens.len())];
    let b = match sx::choose("other", 0, 6) { 0 => a, 1 => a - 1, 2 => a + 1, 3 => a - 4096, 4 => a - 1024.min(a), _ => a + 8192 };
    let p = [0, 4095, 8191, 8192, a / 2, a - 8193.min(a), a - 4096, a - 2, a - 1][sx::choose("place", 0, 9)];
    let mut x: Vec<u8> = (0..a).map(|k| (k % 251) as u8).collect();
    let mut y: Vec<u8> = (0..b).map(|k| (k % 251) as u8).collect();
    let mut equal = a == b;
    if p < a && p < b {
        x[p] = sx::byte("a", 0);
        y[p] = sx::byte("b", 0);
        equal = sx::and(equal, x[p] == y[p]);
    }
    if std::fs::write("x", &x).is_err() || std::fs::write("y", &y).is_err() {
        sx::fail("cannot write the scratch files");
        return;
    }
    match are_contents_same("x", "y") {
        Ok(r) => {
            sx::check(r == equal, "files compare wrongly");
            sx::cover(if r { "same" } else { "different" });
        }
        Err(_) => sx::fail("comparing two files failed"),
    }
    let _ = std::fs::remove_file("x");
    let _ = std::fs::remove_file("y");
}
/// two files of given lengths that may differ in a few places
fn same(lens: &[usize], places: &[usize]) {
    sx::allow(sx::OPAQUE);
    let a = lens[sx::choose("len", 0, lens.len())];
    let b = lens[sx::choose("len", 1, lens.len())];
    let mut x: Vec<u8> = (0..a).map(|k| (k % 251) as u8).collect();
    let mut y: Vec<u8> = (0..b).map(|k| (k % 251) as u8).collect();
    let mut equal = a == b;
    for (k, &p) in places.iter().enumerate() {
        if p < a {
            x[p] = sx::byte("a", k);
        }
        if p < b {
            y[p] = sx::byte("b", k);
        }
        if p < a && p < b {
            equal = sx::and(equal, x[p] == y[p]);
        }
    }
    if a > 0 && b > 0 && a == b {
        // the last byte
        x[a - 1] = sx::byte("a", 99);
        y[b - 1] = sx::byte("b", 99);
        equal = true;
        for &p in places.iter().chain(std::iter::once(&(a - 1))) {
            if p < a {
                equal = sx::and(equal, x[p] == y[p]);
            }
        }
    }
    if std::fs::write("x", &x).is_err() || std::fs::write("y", &y).is_err() {
        sx::fail("cannot write the scratch files");
        return;
    }
    match are_contents_same("x", "y") {
        Ok(r) => {
            sx::check(r == equal, "files compare wrongly");
            sx::cover(if r { "same" } else { "different" });
        }
        Err(_) => sx::fail("comparing two files failed"),
    }
    let _ = std::fs::remove_file("x");
    let _ = std::fs::remove_file("y");
}
/// a few reads give less than asked for, or fail
fn same_reads() {
    sx::allow(sx::OPAQUE);
    let lens = [0, 1, 5, 8192, 9000, 20000];
    let a = lens[sx::choose("len", 0, lens.len())];
    let b = match sx::choose("other", 0, 4) { 0 => a, 1 => a + 1, 2 => a / 2, _ => a + 8192 };
    let p = [0, 4, 8191, 8192, 19999][sx::choose("place", 0, 5)];
    let mut x: Vec<u8> = (0..a).map(|k| (k % 251) as u8).collect();
    let mut y: Vec<u8> = (0..b).map(|k| (k % 251) as u8).collect();
    let mut equal = a == b;
    if p < a && p < b {
        x[p] = sx::byte("a", 0);
        y[p] = sx::byte("b", 0);
        equal = sx::and(equal, x[p] == y[p]);
    }
    if std::fs::write("x", &x).is_err() || std::fs::write("y", &y).is_err() {
        sx::fail("cannot write the scratch files");
        return;
    }
    let errno = [0, 0, 0, 5, 4][sx::choose("error", 0, 5)];
    let piece = [1, 100, 8000][sx::choose("piece", 0, if errno == 0 { 3 } else { 1 })];
    sx::fault(false, sx::choose("at", 0, 6) as u64, [1, 3][sx::choose("times", 0, 2)], errno, if errno == 0 { piece } else { 0 });
    let r = are_contents_same("x", "y");
    let met = sx::fault_end();
    let _ = std::fs::remove_file("x");
    let _ = std::fs::remove_file("y");
    match r {
        Ok(r) => {
            sx::check(met == 0 || errno != 5, "a file that cannot be read was compared");
            sx::check(r == equal, "files compare wrongly");
            sx::cover(if r { "same" } else { "different" });
        }
        Err(_) => {
            sx::check(met > 0 && errno != 0, "comparing two files failed");
            sx::cover("failed");
        }
    }
}
fn missing() {
    let _ = std::fs::write("x", b"abc");
    sx::check(are_contents_same("x", "none").is_err(), "a missing second file is no error");
    sx::check(are_contents_same("none", "x").is_err(), "a missing first file is no error");
    sx::check(are_contents_same("none", "none").is_err(), "two missing files are no error");
    let _ = std::fs::write("e", b"");
    sx::check(are_contents_same("e", "none").is_err(), "a missing second file is no error");
    sx::check(are_contents_same("none", "e").is_err(), "a missing first file is no error");
    let _ = std::fs::remove_file("x");
    let _ = std::fs::remove_file("e");
}

harness! {
    h_same_reads { same_reads(); }
    h_dir_list_long { long_listing(); }
    h_same_big { same_big(); }
    h_dir_list_3 { listing(3, 2, true); }
    h_dir_list_names { listing(2, 3, false); }
    h_dir_list_4 { listing(4, 1, false); }
    h_dir_not { not_a_dir(); }
    h_dir_disk_2 { on_disk(2); }
    h_dir_disk_3 { on_disk(3); }
    h_dir_kinds { kinds(); }
    h_same_small { same(&[0, 1, 2, 3], &[0, 1]); }
    h_same_buffer { same(&[0, 1, 8191, 8192, 8193], &[0, 8190, 8191]); }
    h_same_buffers { same(&[8192, 16383, 16384, 16385, 24576], &[8191, 8192, 16383]); }
    h_same_missing { missing(); }
}
