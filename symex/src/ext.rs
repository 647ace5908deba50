//! Environment model: allocator, panics, libc with an in-memory file system, harness intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Node {
    File(usize),
    Dir,
    Null,
    Full,
    Symlink(String),
}

#[derive(Clone)]
pub enum Fd {
    /// at: which of the positions, shared by duplicates
    File { id: usize, at: usize, append: bool, r: bool, w: bool },
    Dir { path: String },
    Null,
    Full,
    Std(u32),
    /// a connection: how much of the answer was read
    Sock { pos: usize, up: bool },
}

#[derive(Clone)]
pub struct Vfs {
    pub nodes: BTreeMap<String, Node>,
    /// creation order, used for directory listing
    pub order: Vec<String>,
    pub files: Vec<Rc<Data>>,
    pub fds: Vec<Option<Fd>>,
    pub offs: Vec<usize>,
    pub dirs: Vec<(String, Vec<String>, usize)>,
    pub stdout: Data,
    /// environment variables: name, address of the value
    pub env: Vec<(Vec<u8>, u64)>,
    /// what the peer of every connection answers, and what it was sent
    pub server: Option<(Rc<Data>, usize)>,
    pub sent: Data,
    /// a device that misbehaves
    pub fault: Option<Fault>,
}

/// reads or writes of files of which some fail, the others moving only so much at a time (0: any);
/// without errno those do not fail but move so much, the others all
#[derive(Clone)]
pub struct Fault {
    /// 0 read, 1 write, 2 list a directory
    pub op: u64,
    pub at: u64,
    pub times: u64,
    pub errno: u64,
    pub piece: u64,
    pub seen: u64,
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".to_string(), Node::Dir);
        nodes.insert("/w".to_string(), Node::Dir);
        nodes.insert("/dev".to_string(), Node::Dir);
        nodes.insert("/tmp".to_string(), Node::Dir);
        nodes.insert("/dev/null".to_string(), Node::Null);
        nodes.insert("/dev/full".to_string(), Node::Full);
        Vfs { nodes, order: vec![], files: vec![], fds: vec![Some(Fd::Null), Some(Fd::Std(1)), Some(Fd::Std(2))], offs: vec![], dirs: vec![], stdout: Data::default(), env: vec![], server: None, sent: Data::default(), fault: None }
    }
    pub fn new_off(&mut self) -> usize {
        self.offs.push(0);
        self.offs.len() - 1
    }
    pub fn new_fd(&mut self, fd: Fd) -> usize {
        let i = match self.fds.iter().position(|x| x.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(fd);
        i
    }
    pub fn norm(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                x => out.push(x),
            }
        }
        format!("/{}", out.join("/"))
    }
    pub fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].to_string(),
        }
    }
    fn list(&self, dir: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for p in &self.order {
            if self.nodes.contains_key(p) && Vfs::parent(p) == dir {
                v.push(p[p.rfind('/').unwrap() + 1..].to_string());
            }
        }
        v
    }
}

/// bit of sx_allow: one path per place a computed address may be
pub const FORK: u64 = 512;
/// bit of sx_allow: texts shown do not matter in this harness
const OPAQUE: u64 = 256;
/// every text matters, whatever the harness said
pub static TEXTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const EPERM: u64 = 1;
const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOSPC: u64 = 28;
const ENOTTY: u64 = 25;
const ENOSYS: u64 = 38;
const ENOTEMPTY: u64 = 39;
const ENOTCONN: u64 = 107;
const ECONNREFUSED: u64 = 111;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum H {
    Unresolved = 0,
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Exit,
    AbortH,
    Huge,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Memchr,
    Memrchr,
    Print,
    Hash,
    Libc,
    Sx,
    NumFmt,
}

fn resolve(name: &str, has_body: bool) -> H {
    if name.starts_with("sx_") {
        return H::Sx;
    }
    match name {
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "memcmp" | "bcmp" => return H::Memcmp,
        "strlen" => return H::Strlen,
        "abort" => return H::AbortH,
        _ => {}
    }
    if name.contains("7___rustc") {
        if name.contains("12___rust_alloc") {
            return H::Alloc;
        }
        if name.contains("19___rust_alloc_zeroed") {
            return H::AllocZ;
        }
        if name.contains("14___rust_dealloc") {
            return H::Dealloc;
        }
        if name.contains("14___rust_realloc") {
            return H::Realloc;
        }
        if name.contains("no_alloc_shim") {
            return H::Nop;
        }
    }
    if name.contains("4core9panicking") || name.contains("3std9panicking11begin_panic") || name.contains("3std2rt11begin_panic") || name.contains("3std9panicking20rust_panic_with_hook") {
        // functions defined in the panicking modules, not functions mentioning types from there
        if !name.starts_with("_RINv") && !name.starts_with("_RNv") {
            return H::None;
        }
        return H::Panic;
    }
    if name.contains("3std7process4exit") {
        return H::Exit;
    }
    if name.contains("3std7process5abort") || name.contains("14abort_internal") {
        return H::AbortH;
    }
    if name.contains("18handle_alloc_error") {
        return H::Huge;
    }
    if name.contains("6random11RandomState") && name.contains("11BuildHasher8hash_one") {
        return H::Hash;
    }
    if name.contains("4core5slice6memchr14memchr_aligned") {
        return H::Memchr;
    }
    if name.contains("4core5slice6memchr7memrchr") {
        return H::Memrchr;
    }
    if name.ends_with("5stdio6__print") || name.ends_with("5stdio7__eprint") {
        return H::Print;
    }
    if name.contains("3fmt3num3imp") && name.contains("7Display3fmt") {
        return H::NumFmt;
    }
    if has_body {
        H::None
    } else {
        H::Libc
    }
}

impl Exec {
    pub fn call(&mut self, st: &mut State, f: FuncId, a: Vec<V>, d: u32, ret: TyId) -> R<()> {
        let mut h = self.p.funcs[f as usize].hook;
        if h == 0 {
            let fd = &self.p.funcs[f as usize];
            let name = String::from_utf8_lossy(fd.name).into_owned();
            h = resolve(&name, !fd.text.is_empty()) as u32;
            self.p.funcs[f as usize].hook = h;
        }
        if h == H::None as u32 {
            return self.enter(st, f, a, d);
        }
        let h: H = unsafe { std::mem::transmute(h) };
        let v = match h {
            H::Alloc | H::AllocZ => {
                let size = self.alloc_size(st, &a[0])?;
                let al = self.conc(st, &a[1], 64)?;
                V::C(st.mem.alloc_heap(size, al))
            }
            H::Dealloc => {
                let p = self.conc(st, &a[0], 64)?;
                if !st.mem.free(p) {
                    return end(Kind::Mem, format!("bad free of {:#x} in {}", p, self.tr(st)));
                }
                V::C(0)
            }
            H::Realloc => {
                let p = self.conc(st, &a[0], 64)?;
                let old = self.conc(st, &a[1], 64)?;
                let al = self.conc(st, &a[2], 64)?;
                let new = self.alloc_size(st, &a[3])?;
                let x = self.read_mem(st, p, old.min(new))?;
                let q = st.mem.alloc_heap(new, al);
                self.write_mem(st, q, &x)?;
                if !st.mem.free(p) {
                    return end(Kind::Mem, format!("bad realloc of {:#x} in {}", p, self.tr(st)));
                }
                V::C(q)
            }
            H::Nop | H::Print | H::Hash => V::C(0),
            H::Panic => {
                let name = String::from_utf8_lossy(self.p.funcs[f as usize].name).into_owned();
                let loc = self.panic_loc(st, &a);
                if self.trace {
                    eprintln!("panic {} at {} in {}", name, loc, self.tr(st));
                }
                return end(Kind::Panic, loc);
            }
            H::Exit => {
                let c = self.conc(st, &a[0], 32)?;
                return end(if c & 0xff == 0 { Kind::Exit0 } else { Kind::Exit }, format!("exit {}", c));
            }
            H::AbortH => return end(Kind::Abort, "abort"),
            H::Huge => return end(Kind::Huge, "allocation failure"),
            H::Memcpy => {
                self.copy(st, &a[0], &a[1], &a[2])?;
                a[0].clone()
            }
            H::Memset => {
                let v = match &a[1] {
                    V::E(e) => norm(ar().extract(*e, 0, 8), 8),
                    v => v.clone(),
                };
                self.fill(st, &a[0], &v, &a[2])?;
                a[0].clone()
            }
            H::Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    V::C(0)
                } else {
                    let p = self.conc(st, &a[0], 64)?;
                    let q = self.conc(st, &a[1], 64)?;
                    let x = self.read_mem(st, p, n)?;
                    let y = self.read_mem(st, q, n)?;
                    self.memcmp(&x, &y)
                }
            }
            H::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut i = 0;
                loop {
                    let (dd, o) = self.rdata(st, p + i, 1)?;
                    let e = dd.byte(o);
                    let z = ar().c(0, 8);
                    let q = ar().eq(e, z);
                    if self.branch(st, q)? {
                        break;
                    }
                    i += 1;
                }
                V::C(i)
            }
            H::Memchr | H::Memrchr => {
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let x = self.read_mem(st, p, n)?;
                let c = ex(&a[0], 8);
                let mut r = None;
                for j in 0..n {
                    let i = if h == H::Memchr { j } else { n - 1 - j };
                    let e = x.byte(i as usize);
                    let q = ar().eq(e, c);
                    if self.branch(st, q)? {
                        r = Some(i);
                        break;
                    }
                }
                V::A(vec![V::C(r.is_some() as u64), V::C(r.unwrap_or(0))].into())
            }
            H::Libc => {
                let name = String::from_utf8_lossy(self.p.funcs[f as usize].name).into_owned();
                let r = self.libc(st, &name, &a)?;
                match (&r, name.as_str()) {
                    // functions that return an int
                    (
                        V::C(k),
                        "open64" | "open" | "openat64" | "openat" | "close" | "fstat64" | "stat64" | "lstat64" | "fstatat64" | "statx" | "mkdir" | "symlink" | "unlink" | "rmdir" | "unlinkat"
                        | "rename" | "ioctl" | "fcntl" | "ftruncate64" | "fsync" | "fdatasync" | "poll" | "chdir" | "fchmod" | "chmod",
                    ) => V::C(*k & 0xffff_ffff),
                    _ => r,
                }
            }
            H::Sx => {
                let name = String::from_utf8_lossy(self.p.funcs[f as usize].name).into_owned();
                self.sx(st, &name, &a)?
            }
            H::NumFmt => {
                // where the harness said texts do not matter, a symbolic number is shown as 0
                let mut a = a;
                if st.allow & OPAQUE != 0 && !TEXTS.load(std::sync::atomic::Ordering::Relaxed) {
                    let name = String::from_utf8_lossy(self.p.funcs[f as usize].name).into_owned();
                    let i = name.find("3num3imp").unwrap() + 8;
                    let w = match name.as_bytes()[i] {
                        b'h' | b'a' => 1,
                        b't' | b's' => 2,
                        b'm' | b'l' => 4,
                        _ => 8,
                    };
                    let p = self.conc(st, &a[0], 64)?;
                    let x = self.read_mem(st, p, w)?;
                    if (0..w as usize).any(|i| ar().cst(x.byte(i)).is_none()) {
                        let q = st.mem.alloc_heap(8, 8);
                        self.fill(st, &V::C(q), &V::C(0), &V::C(8))?;
                        a[0] = V::C(q);
                    }
                }
                return self.enter(st, f, a, d);
            }
            H::Unresolved | H::None => unreachable!(),
        };
        let _ = ret;
        self.set(st, d, v);
        Ok(())
    }

    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<u64> {
        if let V::E(e) = v {
            let k = ar().c(self.mem_limit as u128, 64);
            let big = ar().ult(k, *e);
            if self.branch(st, big)? {
                return end(Kind::Huge, format!("input-sized allocation beyond {} bytes in {}", self.mem_limit, self.tr(st)));
            }
        }
        let k = self.conc(st, v, 64)?;
        if k > self.mem_limit * 64 {
            return end(Kind::Huge, format!("allocation of {} bytes in {}", k, self.tr(st)));
        }
        Ok(k)
    }

    fn panic_loc(&mut self, st: &mut State, a: &[V]) -> String {
        for v in a.iter().rev() {
            if let V::C(p) = v {
                if let Ok((d, o)) = self.rdata(st, *p, 24) {
                    let g = |i: usize, n: usize| -> u64 {
                        let mut x = 0u64;
                        for k in (0..n).rev() {
                            x = x << 8 | d.b[o + i + k] as u64;
                        }
                        x
                    };
                    let (fp, fl, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                    if fl > 0 && fl < 300 && line > 0 && line < 100000 && col < 1000 {
                        // newer std stores the file name NUL terminated with the length including it
                        if let Ok(x) = self.read_mem(st, fp, fl) {
                            let s: Vec<u8> = x.b.iter().copied().take_while(|c| *c != 0).collect();
                            let s = String::from_utf8_lossy(&s).into_owned();
                            if s.contains(".rs") {
                                let mut msg = String::new();
                                if a.len() >= 3 {
                                    if let (V::C(p), V::C(l)) = (&a[0], &a[1]) {
                                        if *l < 200 && *l > 3 {
                                            if let Ok(x) = self.read_mem(st, *p, *l) {
                                                if let Ok(t) = std::str::from_utf8(&x.b) {
                                                    msg = format!(" {}", t);
                                                }
                                            }
                                        }
                                    }
                                }
                                return format!("{}:{}:{}{}", s, line, col, msg.replace(['\n', '\t'], " "));
                            }
                        }
                    }
                }
            }
        }
        "unknown location".into()
    }

    fn memcmp(&mut self, x: &Data, y: &Data) -> V {
        let n = x.b.len();
        let m = ar();
        let z = m.c(0, 32);
        let mut r = z;
        let neg = m.c(u128::MAX, 32);
        let pos = m.c(1, 32);
        for i in (0..n).rev() {
            let (p, q) = (x.byte(i), y.byte(i));
            let m = ar();
            let eq = m.eq(p, q);
            if m.cst(eq) == Some(1) {
                continue;
            }
            let lt = m.ult(p, q);
            let d = m.ite(lt, neg, pos);
            r = m.ite(eq, r, d);
        }
        norm(r, 32)
    }

    fn err(&mut self, st: &mut State, e: u64) -> R<V> {
        self.errno_addr(st);
        let a = st.errno;
        self.write_u(st, a, e, 4)?;
        Ok(V::C(u64::MAX))
    }
    fn errno_addr(&mut self, st: &mut State) -> u64 {
        if st.errno == 0 {
            st.errno = st.mem.alloc_heap(16, 16);
        }
        st.errno
    }
    fn path(&mut self, st: &mut State, v: &V) -> R<String> {
        let p = self.conc(st, v, 64)?;
        let b = self.cstr(st, p)?;
        let s = String::from_utf8_lossy(&b).into_owned();
        Ok(s)
    }
    fn stat_of(&self, st: &State, n: &Node) -> (u64, u64, u64) {
        match n {
            Node::File(i) => (0o100644u64, st.vfs.files[*i].b.len() as u64, 100 + *i as u64),
            Node::Dir => (0o040755, 4096, 2),
            Node::Null => (0o020666, 0, 3),
            Node::Full => (0o020666, 0, 4),
            Node::Symlink(_) => (0o120777, 1, 5),
        }
    }
    fn stat(&mut self, st: &mut State, buf: u64, n: &Node) -> R<()> {
        let (mode, size, ino) = self.stat_of(st, n);
        let z = Data::zeroed(144);
        self.write_mem(st, buf, &z)?;
        self.write_u(st, buf, 1, 8)?;
        self.write_u(st, buf + 8, ino, 8)?;
        self.write_u(st, buf + 16, 1, 8)?;
        self.write_u(st, buf + 24, mode, 4)?;
        self.write_u(st, buf + 48, size, 8)?;
        self.write_u(st, buf + 56, 4096, 8)?;
        Ok(())
    }
    fn lookup_path(&self, st: &State, p: &str, follow: bool) -> Option<(String, Node)> {
        if p.is_empty() {
            return None;
        }
        let mut q = st.vfs.norm(p);
        for _ in 0..8 {
            match st.vfs.nodes.get(&q) {
                None => return None,
                Some(Node::Symlink(t)) if follow => {
                    let t = if t.starts_with('/') { t.clone() } else { format!("{}/{}", Vfs::parent(&q), t) };
                    q = st.vfs.norm(&t);
                }
                Some(n) => return Some((q.clone(), n.clone())),
            }
        }
        None
    }

    fn libc(&mut self, st: &mut State, name: &str, a: &[V]) -> R<V> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &a[$i], 64)?
            };
        }
        macro_rules! c32 {
            ($i:expr) => {
                self.conc(st, &a[$i], 32)?
            };
        }
        if self.trace {
            eprintln!("libc {}", name);
        }
        match name {
            "__errno_location" => return Ok(V::C(self.errno_addr(st))),
            "open64" | "open" | "openat64" | "openat" => {
                let o = if name.starts_with("openat") { 1 } else { 0 };
                let p = self.path(st, &a[o])?;
                let fl = c32!(o + 1);
                let acc = fl & 3;
                let q = st.vfs.norm(&p);
                let found = self.lookup_path(st, &p, true);
                let node = match found {
                    Some((_, n)) => {
                        if fl & 0o100 != 0 && fl & 0o200 != 0 {
                            return self.err(st, EEXIST);
                        }
                        n
                    }
                    None => {
                        if fl & 0o100 == 0 || p.is_empty() {
                            return self.err(st, ENOENT);
                        }
                        match st.vfs.nodes.get(&Vfs::parent(&q)) {
                            Some(Node::Dir) => {}
                            Some(_) => return self.err(st, ENOTDIR),
                            None => return self.err(st, ENOENT),
                        }
                        let v = Rc::make_mut(&mut st.vfs);
                        let id = v.files.len();
                        v.files.push(Rc::new(Data::default()));
                        v.nodes.insert(q.clone(), Node::File(id));
                        v.order.push(q.clone());
                        Node::File(id)
                    }
                };
                let fd = match node {
                    Node::File(id) => {
                        if fl & 0o200000 != 0 {
                            return self.err(st, ENOTDIR);
                        }
                        if fl & 0o1000 != 0 && acc != 0 {
                            let v = Rc::make_mut(&mut st.vfs);
                            v.files[id] = Rc::new(Data::default());
                        }
                        Fd::File { id, at: Rc::make_mut(&mut st.vfs).new_off(), append: fl & 0o2000 != 0, r: acc != 1, w: acc != 0 }
                    }
                    Node::Dir => {
                        if acc != 0 {
                            return self.err(st, EISDIR);
                        }
                        Fd::Dir { path: q }
                    }
                    Node::Null => Fd::Null,
                    Node::Full => Fd::Full,
                    Node::Symlink(_) => return self.err(st, ENOENT),
                };
                let i = Rc::make_mut(&mut st.vfs).new_fd(fd);
                return Ok(V::C(i as u64));
            }
            // libbz2 is C and not part of the IR: only that it refuses data without its magic
            "BZ2_bzDecompressInit" | "BZ2_bzDecompressEnd" => return Ok(V::C(0)),
            "BZ2_bzDecompress" => {
                let stream = c!(0);
                let head = self.read_mem(st, stream, 12)?;
                let get = |o: usize, n: usize| (0..n).try_fold(0u64, |x, i| ar().cst(head.byte(o + i)).map(|b| x | (b as u64) << (8 * i)));
                if let (Some(next), Some(avail)) = (get(0, 8), get(8, 4)) {
                    if avail == 0 {
                        return Ok(V::C(0));
                    }
                    let first = self.read_mem(st, next, 1)?;
                    if let Some(b) = ar().cst(first.byte(0)) {
                        if b as u8 != b'B' {
                            return Ok(V::C(-5i32 as u32 as u64));
                        }
                    }
                }
            }
            "close" => {
                let fd = c32!(0) as usize;
                let v = Rc::make_mut(&mut st.vfs);
                if fd < v.fds.len() && v.fds[fd].is_some() {
                    v.fds[fd] = None;
                    return Ok(V::C(0));
                }
                return self.err(st, EBADF);
            }
            "read" | "pread64" => {
                let fd = c32!(0) as usize;
                let buf = c!(1);
                let n = c!(2) as usize;
                let off = if name == "pread64" { Some(c!(3) as usize) } else { None };
                let f = st.vfs.fds.get(fd).cloned().flatten();
                let n = match if matches!(f, Some(Fd::File { .. })) { self.fault(st, 0, n as u64) } else { Ok(n as u64) } {
                    Ok(n) => n as usize,
                    Err(e) => return self.err(st, e),
                };
                match f {
                    Some(Fd::File { id, at, r, .. }) if r => {
                        let pos = st.vfs.offs[at];
                        let data = st.vfs.files[id].clone();
                        let p = off.unwrap_or(pos).min(data.b.len());
                        let k = n.min(data.b.len() - p);
                        let x = data.sub(p, k);
                        self.write_mem(st, buf, &x)?;
                        if off.is_none() {
                            let v = Rc::make_mut(&mut st.vfs);
                            v.offs[at] = p + k;
                        }
                        return Ok(V::C(k as u64));
                    }
                    Some(Fd::Null) => return Ok(V::C(0)),
                    Some(Fd::Full) => {
                        let x = Data::zeroed(n);
                        self.write_mem(st, buf, &x)?;
                        return Ok(V::C(n as u64));
                    }
                    Some(Fd::Dir { .. }) => return self.err(st, EISDIR),
                    Some(Fd::Sock { .. }) => return self.receive(st, fd, buf, n, false),
                    _ => return self.err(st, EBADF),
                }
            }
            "write" => {
                let fd = c32!(0) as usize;
                let buf = c!(1);
                let n = c!(2);
                let x = self.read_mem(st, buf, n)?;
                return self.vwrite(st, fd, x);
            }
            "writev" => {
                let fd = c32!(0) as usize;
                let iov = c!(1);
                let cnt = c32!(2);
                let mut all = Data::default();
                for i in 0..cnt {
                    let p = self.read_u(st, iov + i * 16, 8)?;
                    let l = self.read_u(st, iov + i * 16 + 8, 8)?;
                    let x = self.read_mem(st, p, l)?;
                    let o = all.b.len();
                    all.b.resize(o + x.b.len(), 0);
                    all.put(o, &x);
                }
                return self.vwrite(st, fd, all);
            }
            "lseek64" | "lseek" => {
                let fd = c32!(0) as usize;
                let off = c!(1) as i64;
                let wh = c32!(2);
                let f = st.vfs.fds.get(fd).cloned().flatten();
                match f {
                    Some(Fd::File { id, at, .. }) => {
                        let pos = st.vfs.offs[at];
                        let len = st.vfs.files[id].b.len() as i64;
                        let np = match wh {
                            0 => off,
                            1 => pos as i64 + off,
                            2 => len + off,
                            _ => return self.err(st, EINVAL),
                        };
                        if np < 0 {
                            return self.err(st, EINVAL);
                        }
                        let v = Rc::make_mut(&mut st.vfs);
                        v.offs[at] = np as usize;
                        return Ok(V::C(np as u64));
                    }
                    Some(Fd::Null) | Some(Fd::Full) => return Ok(V::C(0)),
                    _ => return self.err(st, 29),
                }
            }
            "fstat64" => {
                let fd = c32!(0) as usize;
                let buf = c!(1);
                let n = match st.vfs.fds.get(fd).cloned().flatten() {
                    Some(Fd::File { id, .. }) => Node::File(id),
                    Some(Fd::Dir { .. }) => Node::Dir,
                    Some(Fd::Full) => Node::Full,
                    Some(_) => Node::Null,
                    None => return self.err(st, EBADF),
                };
                self.stat(st, buf, &n)?;
                return Ok(V::C(0));
            }
            "stat64" | "lstat64" => {
                let p = self.path(st, &a[0])?;
                let buf = c!(1);
                match self.lookup_path(st, &p, name == "stat64") {
                    None => return self.err(st, ENOENT),
                    Some((_, n)) => {
                        self.stat(st, buf, &n)?;
                        return Ok(V::C(0));
                    }
                }
            }
            "fstatat64" => {
                let p = self.path(st, &a[1])?;
                let buf = c!(2);
                match self.lookup_path(st, &p, true) {
                    None => return self.err(st, ENOENT),
                    Some((_, n)) => {
                        self.stat(st, buf, &n)?;
                        return Ok(V::C(0));
                    }
                }
            }
            "statx" => {
                let buf = c!(4);
                if c!(1) == 0 || buf == 0 {
                    return self.err(st, 14);
                }
                let p = self.path(st, &a[1])?;
                let fd = c32!(0) as u32 as i32;
                let fl = c32!(2);
                let n = if p.is_empty() && fl & 0x1000 != 0 {
                    match st.vfs.fds.get(fd.max(0) as usize).cloned().flatten() {
                        Some(Fd::File { id, .. }) => Node::File(id),
                        Some(Fd::Dir { .. }) => Node::Dir,
                        Some(Fd::Full) => Node::Full,
                        Some(_) => Node::Null,
                        None => return self.err(st, EBADF),
                    }
                } else {
                    match self.lookup_path(st, &p, fl & 0x100 == 0) {
                        None => return self.err(st, ENOENT),
                        Some((_, n)) => n,
                    }
                };
                let (mode, size, ino) = self.stat_of(st, &n);
                let z = Data::zeroed(256);
                self.write_mem(st, buf, &z)?;
                self.write_u(st, buf, 0xfff, 4)?;
                self.write_u(st, buf + 4, 4096, 4)?;
                self.write_u(st, buf + 16, 1, 4)?;
                self.write_u(st, buf + 28, mode, 2)?;
                self.write_u(st, buf + 32, ino, 8)?;
                self.write_u(st, buf + 40, size, 8)?;
                return Ok(V::C(0));
            }
            "mkdir" => {
                let p = self.path(st, &a[0])?;
                let q = st.vfs.norm(&p);
                if st.vfs.nodes.contains_key(&q) {
                    return self.err(st, EEXIST);
                }
                if !matches!(st.vfs.nodes.get(&Vfs::parent(&q)), Some(Node::Dir)) {
                    return self.err(st, ENOENT);
                }
                let v = Rc::make_mut(&mut st.vfs);
                v.nodes.insert(q.clone(), Node::Dir);
                v.order.push(q);
                return Ok(V::C(0));
            }
            "symlink" => {
                let t = self.path(st, &a[0])?;
                let p = self.path(st, &a[1])?;
                let q = st.vfs.norm(&p);
                if st.vfs.nodes.contains_key(&q) {
                    return self.err(st, EEXIST);
                }
                let v = Rc::make_mut(&mut st.vfs);
                v.nodes.insert(q.clone(), Node::Symlink(t));
                v.order.push(q);
                return Ok(V::C(0));
            }
            "unlink" | "rmdir" | "unlinkat" => {
                let p = self.path(st, &a[if name == "unlinkat" { 1 } else { 0 }])?;
                let q = st.vfs.norm(&p);
                match st.vfs.nodes.get(&q) {
                    None => return self.err(st, ENOENT),
                    Some(Node::Dir) => {
                        if name == "unlink" {
                            return self.err(st, EISDIR);
                        }
                        if !st.vfs.list(&q).is_empty() {
                            return self.err(st, ENOTEMPTY);
                        }
                    }
                    _ => {}
                }
                let v = Rc::make_mut(&mut st.vfs);
                v.nodes.remove(&q);
                v.order.retain(|x| *x != q);
                return Ok(V::C(0));
            }
            "rename" | "link" | "linkat" => {
                let o = if name == "linkat" { 1 } else { 0 };
                let p = self.path(st, &a[o])?;
                let r = self.path(st, &a[if name == "linkat" { 3 } else { 1 }])?;
                let (p, r) = (st.vfs.norm(&p), st.vfs.norm(&r));
                let Some(n) = st.vfs.nodes.get(&p).cloned() else { return self.err(st, ENOENT) };
                if matches!(n, Node::Dir) || matches!(st.vfs.nodes.get(&r), Some(Node::Dir)) {
                    return end(Kind::Unsupported, "renaming a directory");
                }
                if !matches!(st.vfs.nodes.get(&Vfs::parent(&r)), Some(Node::Dir)) {
                    return self.err(st, ENOENT);
                }
                if p == r {
                    return Ok(V::C(0));
                }
                if name != "rename" && st.vfs.nodes.contains_key(&r) {
                    return self.err(st, EEXIST);
                }
                let v = Rc::make_mut(&mut st.vfs);
                if name == "rename" {
                    v.nodes.remove(&p);
                    v.order.retain(|x| *x != p);
                }
                if v.nodes.insert(r.clone(), n).is_none() {
                    v.order.push(r);
                }
                return Ok(V::C(0));
            }
            "opendir" => {
                let p = self.path(st, &a[0])?;
                match self.lookup_path(st, &p, true) {
                    Some((q, Node::Dir)) => {
                        let mut l = vec![".".to_string(), "..".to_string()];
                        l.extend(st.vfs.list(&q));
                        let h = st.mem.alloc_heap(16, 16);
                        let v = Rc::make_mut(&mut st.vfs);
                        let id = v.dirs.len();
                        v.dirs.push((q, l, 0));
                        self.write_u(st, h, id as u64, 8)?;
                        return Ok(V::C(h));
                    }
                    Some(_) => {
                        self.err(st, ENOTDIR)?;
                        return Ok(V::C(0));
                    }
                    None => {
                        self.err(st, ENOENT)?;
                        return Ok(V::C(0));
                    }
                }
            }
            "readdir64" => {
                let h = c!(0);
                let id = self.read_u(st, h, 8)? as usize;
                let (dir, l, i) = st.vfs.dirs[id].clone();
                if let Err(e) = self.fault(st, 2, 0) {
                    self.err(st, e)?;
                    return Ok(V::C(0));
                }
                if i >= l.len() {
                    return Ok(V::C(0));
                }
                Rc::make_mut(&mut st.vfs).dirs[id].2 += 1;
                let full = format!("{}/{}", if dir == "/" { "" } else { &dir }, l[i]);
                let ty = match st.vfs.nodes.get(&full) {
                    Some(Node::Dir) | None => 4,
                    Some(Node::File(_)) => 8,
                    Some(Node::Symlink(_)) => 10,
                    Some(_) => 2,
                };
                let e = st.mem.alloc_heap(280, 16);
                self.write_u(st, e, 1000 + i as u64, 8)?;
                self.write_u(st, e + 8, i as u64 + 1, 8)?;
                self.write_u(st, e + 16, 280, 2)?;
                self.write_u(st, e + 18, ty, 1)?;
                let mut nm = l[i].clone().into_bytes();
                nm.push(0);
                self.write_mem(st, e + 19, &Data { b: nm, s: None })?;
                return Ok(V::C(e));
            }
            "closedir" => return Ok(V::C(0)),
            "dirfd" => return Ok(V::C(77)),
            "getcwd" => {
                let b = c!(0);
                self.write_mem(st, b, &Data { b: b"/w\0".to_vec(), s: None })?;
                return Ok(V::C(b));
            }
            "realpath" => {
                let p = self.path(st, &a[0])?;
                match self.lookup_path(st, &p, true) {
                    None => {
                        self.err(st, ENOENT)?;
                        return Ok(V::C(0));
                    }
                    Some((q, _)) => {
                        let mut b = q.into_bytes();
                        b.push(0);
                        let m = st.mem.alloc_heap(b.len() as u64, 16);
                        self.write_mem(st, m, &Data { b, s: None })?;
                        return Ok(V::C(m));
                    }
                }
            }
            "free" => {
                let p = c!(0);
                if p != 0 && !st.mem.free(p) {
                    return end(Kind::Mem, format!("bad free in {}", self.tr(st)));
                }
                return Ok(V::C(0));
            }
            "malloc" => {
                let n = self.alloc_size(st, &a[0])?;
                return Ok(V::C(st.mem.alloc_heap(n, 16)));
            }
            "calloc" => {
                let n = c!(0) * c!(1);
                return Ok(V::C(st.mem.alloc_heap(n, 16)));
            }
            "posix_memalign" => {
                let out = c!(0);
                let al = c!(1);
                let n = self.alloc_size(st, &a[2])?;
                let p = st.mem.alloc_heap(n, al);
                self.write_u(st, out, p, 8)?;
                return Ok(V::C(0));
            }
            "isatty" => return Ok(V::C(0)),
            "ioctl" => {
                let k = c!(1);
                return if k == 0x5421 { Ok(V::C(0)) } else { self.err(st, ENOTTY) };
            }
            "socket" => {
                let v = Rc::make_mut(&mut st.vfs);
                let i = v.new_fd(Fd::Sock { pos: 0, up: false });
                return Ok(V::C(i as u64));
            }
            "setsockopt" | "shutdown" => return Ok(V::C(0)),
            "getsockopt" => {
                let (p, l) = (c!(3), c!(4));
                let n = self.read_u(st, l, 4)?;
                let z = Data::zeroed(n as usize);
                self.write_mem(st, p, &z)?;
                return Ok(V::C(0));
            }
            "connect" => {
                let fd = c32!(0) as usize;
                let (p, n) = (c!(1), c!(2));
                let port = if n >= 4 { self.read_u(st, p + 2, 2)? } else { 0 };
                let port = ((port & 255) << 8) | port >> 8;
                if st.vfs.server.is_none() || port != 8080 {
                    return self.err(st, ECONNREFUSED);
                }
                Rc::make_mut(&mut st.vfs).fds[fd] = Some(Fd::Sock { pos: 0, up: true });
                return Ok(V::C(0));
            }
            "send" | "sendto" => {
                let fd = c32!(0) as usize;
                let (p, n) = (c!(1), c!(2));
                let x = self.read_mem(st, p, n)?;
                return self.vwrite(st, fd, x);
            }
            "recv" | "recvfrom" => {
                let fd = c32!(0) as usize;
                let (p, n, flags) = (c!(1), c!(2) as usize, c32!(3));
                return self.receive(st, fd, p, n, flags & 2 != 0);
            }
            "fcntl" => {
                if matches!(c32!(1), 0 | 1030) {
                    let fd = c32!(0) as usize;
                    return match st.vfs.fds.get(fd).cloned().flatten() {
                        None => self.err(st, EBADF),
                        Some(Fd::Sock { .. }) => end(Kind::Unsupported, "a duplicated connection"),
                        Some(x) => Ok(V::C(Rc::make_mut(&mut st.vfs).new_fd(x) as u64)),
                    };
                }
                return Ok(V::C(0));
            }
            "dlsym" => return Ok(V::C(0)),
            "getenv" => {
                let p = c!(0);
                let n = self.cstr(st, p)?;
                return Ok(V::C(st.vfs.env.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(0)));
            }
            "setenv" | "unsetenv" => {
                let p = c!(0);
                let n = self.cstr(st, p)?;
                let at = if name == "setenv" {
                    let q = c!(1);
                    let v = self.cstr(st, q)?;
                    let at = st.mem.alloc_heap(v.len() as u64 + 1, 16);
                    let mut d = Data::zeroed(v.len() + 1);
                    for (i, b) in v.iter().enumerate() {
                        d.put(i, &Data { b: vec![*b], ..Data::default() });
                    }
                    self.write_mem(st, at, &d)?;
                    Some(at)
                } else {
                    None
                };
                let v = Rc::make_mut(&mut st.vfs);
                v.env.retain(|x| x.0 != n);
                if let Some(at) = at {
                    v.env.push((n, at));
                }
                return Ok(V::C(0));
            }
            "sysconf" => {
                let k = c32!(0);
                return Ok(V::C(match k {
                    30 => 4096,
                    84 => 8,
                    _ => u64::MAX,
                }));
            }
            "getpid" | "getppid" | "gettid" => return Ok(V::C(4242)),
            "getuid" => return Ok(V::C(1000)),
            "syscall" => {
                let n = c!(0);
                if n == 318 {
                    let b = c!(1);
                    let l = c!(2);
                    let z = Data::zeroed(l as usize);
                    self.write_mem(st, b, &z)?;
                    return Ok(V::C(l));
                }
                return self.err(st, ENOSYS);
            }
            "getrandom" => {
                let b = c!(0);
                let l = c!(1);
                let z = Data::zeroed(l as usize);
                self.write_mem(st, b, &z)?;
                return Ok(V::C(l));
            }
            "getauxval" | "clock_nanosleep" | "nanosleep" | "usleep" => return Ok(V::C(0)),
            "pow" | "log10" | "log2" | "log" | "ln" | "exp" | "exp2" | "cbrt" | "fmod" | "sin" | "cos" | "tan" if a.iter().all(|x| matches!(x, V::C(_))) => {
                let g = |i: usize| match a.get(i) {
                    Some(V::C(x)) => f64::from_bits(*x),
                    _ => 0.0,
                };
                let (x, y) = (g(0), g(1));
                return Ok(V::C(match name {
                    "pow" => x.powf(y),
                    "log10" => x.log10(),
                    "log2" => x.log2(),
                    "exp" => x.exp(),
                    "exp2" => x.exp2(),
                    "cbrt" => x.cbrt(),
                    "fmod" => x % y,
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "tan" => x.tan(),
                    _ => x.ln(),
                }
                .to_bits()));
            }
            "copy_file_range" | "sendfile64" | "sendfile" | "splice" => return self.err(st, 38),
            "readv" | "preadv" | "preadv64" => {
                let (fd, iov, cnt) = (a[0].clone(), c!(1), c32!(2));
                let mut n = 0;
                for i in 0..cnt {
                    let p = self.read_u(st, iov + i * 16, 8)?;
                    let l = self.read_u(st, iov + i * 16 + 8, 8)?;
                    if l == 0 {
                        continue;
                    }
                    let r = if name == "readv" {
                        self.libc(st, "read", &[fd.clone(), V::C(p), V::C(l)])?
                    } else {
                        let off = c!(3);
                        self.libc(st, "pread64", &[fd.clone(), V::C(p), V::C(l), V::C(off + n)])?
                    };
                    let V::C(k) = r else { return end(Kind::Unsupported, "readv") };
                    if k as i64 == -1 {
                        return Ok(if n > 0 { V::C(n) } else { r });
                    }
                    n += k;
                    if k < l {
                        break;
                    }
                }
                return Ok(V::C(n));
            }
            "sched_getaffinity" => return self.err(st, EPERM),
            "sigaction" | "sigaltstack" | "signal" | "pthread_self" | "sched_yield" | "fsync" | "fdatasync" | "pthread_setname_np" | "fchmod" | "chmod" | "__cxa_thread_atexit_impl" => return Ok(V::C(0)),
            "poll" => {
                let (p, n) = (c!(0), c!(1));
                let mut ready = 0;
                for i in 0..n {
                    let fd = self.read_u(st, p + i * 8, 4)? as usize;
                    if let Some(Some(Fd::Sock { .. })) = st.vfs.fds.get(fd) {
                        let events = self.read_u(st, p + i * 8 + 4, 2)?;
                        self.write_u(st, p + i * 8 + 6, events, 2)?;
                        ready += 1;
                    }
                }
                return Ok(V::C(ready));
            }
            "clock_gettime" => {
                let p = c!(1);
                self.write_u(st, p, 1_700_000_000, 8)?;
                self.write_u(st, p + 8, 0, 8)?;
                return Ok(V::C(0));
            }
            "pthread_key_create" => {
                let p = c!(0);
                let ks = Rc::make_mut(&mut st.pthread_keys);
                ks.push(V::C(0));
                let k = ks.len() as u64 - 1;
                self.write_u(st, p, k, 4)?;
                return Ok(V::C(0));
            }
            "pthread_setspecific" => {
                let k = c32!(0) as usize;
                let ks = Rc::make_mut(&mut st.pthread_keys);
                if k < ks.len() {
                    ks[k] = a[1].clone();
                }
                return Ok(V::C(0));
            }
            "pthread_getspecific" => {
                let k = c32!(0) as usize;
                return Ok(st.pthread_keys.get(k).cloned().unwrap_or(V::C(0)));
            }
            "pthread_key_delete" => return Ok(V::C(0)),
            "__xpg_strerror_r" => {
                let b = c!(1);
                self.write_mem(st, b, &Data { b: b"err\0".to_vec(), s: None })?;
                return Ok(V::C(0));
            }
            "ftruncate64" => {
                let fd = c32!(0) as usize;
                let n = c!(1) as usize;
                if let Some(Fd::File { id, .. }) = st.vfs.fds.get(fd).cloned().flatten() {
                    let v = Rc::make_mut(&mut st.vfs);
                    let f = Rc::make_mut(&mut v.files[id]);
                    if n < f.b.len() {
                        *f = f.sub(0, n);
                    } else {
                        f.b.resize(n, 0);
                    }
                    return Ok(V::C(0));
                }
                return self.err(st, EBADF);
            }
            "_exit" | "exit" => {
                let c = c32!(0);
                return end(if c & 0xff == 0 { Kind::Exit0 } else { Kind::Exit }, format!("exit {}", c));
            }
            _ => {}
        }
        end(Kind::Unsupported, format!("external function {} called from {}", name, self.tr(st)))
    }

    fn receive(&mut self, st: &mut State, fd: usize, buf: u64, n: usize, peek: bool) -> R<V> {
        match (st.vfs.fds.get(fd).cloned().flatten(), st.vfs.server.clone()) {
            (Some(Fd::Sock { pos, up: true }), Some((data, step))) => {
                let mut k = n.min(data.b.len() - pos);
                if step > 0 {
                    k = k.min(step);
                }
                let x = data.sub(pos, k);
                self.write_mem(st, buf, &x)?;
                if !peek {
                    Rc::make_mut(&mut st.vfs).fds[fd] = Some(Fd::Sock { pos: pos + k, up: true });
                }
                Ok(V::C(k as u64))
            }
            _ => self.err(st, ENOTCONN),
        }
    }
    /// what a misbehaving device makes of one call: how much of it is done, or an error
    fn fault(&mut self, st: &mut State, op: u64, n: u64) -> Result<u64, u64> {
        if !matches!(&st.vfs.fault, Some(x) if x.op == op) {
            return Ok(n);
        }
        let x = Rc::make_mut(&mut st.vfs).fault.as_mut().unwrap();
        let i = x.seen;
        x.seen += 1;
        let now = i >= x.at && i - x.at < x.times;
        if now && x.errno != 0 {
            Err(x.errno)
        } else if x.piece > 0 && (now || x.errno != 0) {
            Ok(n.min(x.piece))
        } else {
            Ok(n)
        }
    }
    fn vwrite(&mut self, st: &mut State, fd: usize, x: Data) -> R<V> {
        let f = st.vfs.fds.get(fd).cloned().flatten();
        let n = match if matches!(f, Some(Fd::File { .. })) { self.fault(st, 1, x.b.len() as u64) } else { Ok(x.b.len() as u64) } {
            Ok(n) => n as usize,
            Err(e) => return self.err(st, e),
        };
        let x = if n < x.b.len() { x.sub(0, n) } else { x };
        match f {
            Some(Fd::File { id, at, append, w, .. }) if w => {
                let v = Rc::make_mut(&mut st.vfs);
                let pos = v.offs[at];
                let d = Rc::make_mut(&mut v.files[id]);
                let p = if append { d.b.len() } else { pos };
                if d.b.len() < p + n {
                    d.b.resize(p + n, 0);
                }
                d.put(p, &x);
                v.offs[at] = p + n;
                Ok(V::C(n as u64))
            }
            Some(Fd::Null) => Ok(V::C(n as u64)),
            Some(Fd::Sock { up, .. }) => {
                if !up {
                    return self.err(st, ENOTCONN);
                }
                let v = Rc::make_mut(&mut st.vfs);
                let p = v.sent.b.len();
                v.sent.b.resize(p + n, 0);
                v.sent.put(p, &x);
                Ok(V::C(n as u64))
            }
            Some(Fd::Std(k)) => {
                if k == 1 {
                    let v = Rc::make_mut(&mut st.vfs);
                    let p = v.stdout.b.len();
                    v.stdout.b.resize(p + n, 0);
                    v.stdout.put(p, &x);
                }
                Ok(V::C(n as u64))
            }
            Some(Fd::Full) => {
                if n == 0 {
                    Ok(V::C(0))
                } else {
                    self.err(st, ENOSPC)
                }
            }
            _ => self.err(st, EBADF),
        }
    }

    fn name_arg(&mut self, st: &mut State, a: &[V]) -> R<String> {
        let p = self.conc(st, &a[0], 64)?;
        let n = self.conc(st, &a[1], 64)?;
        let b = self.read_conc(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn sx(&mut self, st: &mut State, name: &str, a: &[V]) -> R<V> {
        match name {
            // sx_sym(name, len, idx, width) -> u64
            "sx_sym" => {
                let n = self.name_arg(st, a)?;
                let i = self.conc(st, &a[2], 64)?;
                let w = self.conc(st, &a[3], 64)? as u32;
                let full = format!("{}_{}", n, i);
                let v = ar().var(&full, w);
                if !st.inputs.iter().any(|x| x.0 == full) {
                    Rc::make_mut(&mut st.inputs).push((full, v));
                }
                let e = ar().zext(v, 64);
                Ok(norm(e, 64))
            }
            // sx_choose(name, len, idx, n) -> value < n, decided here
            "sx_choose" => {
                let nm = self.name_arg(st, a)?;
                let i = self.conc(st, &a[2], 64)?;
                let n = self.conc(st, &a[3], 64)?;
                if n == 0 || n > 256 {
                    return end(Kind::Unsupported, "sx_choose range");
                }
                let full = format!("{}_{}", nm, i);
                let v = ar().var(&full, 8);
                if !st.inputs.iter().any(|x| x.0 == full) {
                    Rc::make_mut(&mut st.inputs).push((full, v));
                }
                if n < 256 {
                    let k = ar().c(n as u128, 8);
                    let c = ar().ult(v, k);
                    match self.s.sat(&st.pc, c)? {
                        None => return end(Kind::Assume, "empty choice"),
                        Some(m) => self.s.add(&mut st.pc, c, m),
                    }
                }
                let k = self.conc(st, &norm(v, 8), 8)?;
                Ok(V::C(k))
            }
            "sx_assume" => {
                let e = self.truth(&a[0]);
                match self.s.sat(&st.pc, e)? {
                    None => end(Kind::Assume, ""),
                    Some(m) => {
                        self.s.add(&mut st.pc, e, m);
                        Ok(V::C(0))
                    }
                }
            }
            // sx_assert(cond, msg, len)
            "sx_assert" => {
                self.r.obligations += 1;
                let e = self.truth(&a[0]);
                if let Some(k) = ar().cst(e) {
                    if k != 0 {
                        return Ok(V::C(0));
                    }
                    let m = self.name_arg(st, &a[1..])?;
                    return end(Kind::Fail, m);
                }
                let n = ar().not(e);
                self.r.obl_z3 += 1;
                match self.s.confirm(&st.pc, Some(n))? {
                    None => Ok(V::C(0)),
                    Some(m) => {
                        let msg = self.name_arg(st, &a[1..])?;
                        let mut o = st.clone();
                        self.s.add(&mut o.pc, n, m);
                        self.violation(&o, "fail", &msg);
                        *self.r.ends.entry("fail".into()).or_insert(0) += 1;
                        match self.s.sat(&st.pc, e)? {
                            None => end(Kind::Assume, ""),
                            Some(m) => {
                                self.s.add(&mut st.pc, e, m);
                                Ok(V::C(0))
                            }
                        }
                    }
                }
            }
            "sx_fail" => {
                self.r.obligations += 1;
                let m = self.name_arg(st, a)?;
                end(Kind::Fail, m)
            }
            "sx_cover" => {
                let m = self.name_arg(st, a)?;
                if !st.covers.contains(&m) {
                    Rc::make_mut(&mut st.covers).push(m);
                }
                Ok(V::C(0))
            }
            "sx_observe" => {
                let m = self.name_arg(st, a)?;
                Rc::make_mut(&mut st.obs).push(Obs::Val(m, a[2].clone()));
                Ok(V::C(0))
            }
            // sx_observe_bytes(label, len, ptr, n)
            "sx_observe_bytes" => {
                let m = self.name_arg(st, a)?;
                let p = self.conc(st, &a[2], 64)?;
                let n = self.conc(st, &a[3], 64)?;
                let d = self.read_mem(st, p, n)?;
                let v: Vec<V> = (0..n as usize).map(|i| norm(d.byte(i), 8)).collect();
                Rc::make_mut(&mut st.obs).push(Obs::Bytes(m, v));
                Ok(V::C(0))
            }
            "sx_allow" => {
                st.allow = self.conc(st, &a[0], 64)?;
                Ok(V::C(0))
            }
            // sx_conc(value, width): fork on the values
            "sx_conc" => {
                let k = self.conc(st, &a[0], 64)?;
                Ok(V::C(k))
            }
            "sx_symbolic" => Ok(V::C(1)),
            // sx_args(argc, argv): the program's arguments, as std keeps them
            "sx_args" => {
                for (i, what) in ["3imp4ARGC", "3imp4ARGV"].iter().enumerate() {
                    let v = self.conc(st, &a[i], 64)?;
                    let g = (0..self.p.globs.len()).find(|g| !self.p.globs[*g].external && String::from_utf8_lossy(self.p.globs[*g].name).contains(what));
                    match g {
                        Some(g) => {
                            let at = self.p.glob_addr(g as GlobId);
                            self.write_u(st, at, v, 8)?;
                        }
                        None => return end(Kind::Unsupported, "no place for program arguments in this std"),
                    }
                }
                Ok(V::C(0))
            }
            // sx_serve(answer, length, most bytes at a time) -> port of a peer giving this answer to every connection
            "sx_serve" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let step = self.conc(st, &a[2], 64)? as usize;
                let d = self.read_mem(st, p, n)?;
                Rc::make_mut(&mut st.vfs).server = Some((Rc::new(d), step));
                Ok(V::C(8080))
            }
            // sx_asked(buffer, size) -> how much the peer was sent
            "sx_asked" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)? as usize;
                let k = n.min(st.vfs.sent.b.len());
                let x = st.vfs.sent.sub(0, k);
                self.write_mem(st, p, &x)?;
                Ok(V::C(k as u64))
            }
            // sx_fault(reads, writes or listings, first call to fail, how many, errno, most bytes at a time)
            "sx_fault" => {
                let mut v = [0u64; 5];
                for (i, v) in v.iter_mut().enumerate() {
                    *v = self.conc(st, &a[i], 64)?;
                }
                Rc::make_mut(&mut st.vfs).fault = Some(Fault { op: v[0], at: v[1], times: v[2], errno: v[3], piece: v[4], seen: 0 });
                Ok(V::C(0))
            }
            // sx_fault_end() -> how many calls failed
            "sx_fault_end" => {
                let n = match Rc::make_mut(&mut st.vfs).fault.take() {
                    Some(x) => x.seen.saturating_sub(x.at).min(x.times),
                    None => 0,
                };
                Ok(V::C(n))
            }
            // sx_stdio(in path, length, out path, length): both 0 for none; without paths, back to normal
            "sx_stdio" => {
                for (i, fd) in [(0usize, 0usize), (2, 1)] {
                    let f = if self.conc(st, &a[i + 1], 64)? == 0 {
                        if fd == 0 { Fd::Null } else { Fd::Std(1) }
                    } else {
                        let q = self.name_arg(st, &a[i..])?;
                        let q = st.vfs.norm(&q);
                        let at = Rc::make_mut(&mut st.vfs).new_off();
                        match st.vfs.nodes.get(&q) {
                            Some(Node::File(id)) => Fd::File { id: *id, at, append: fd == 1, r: fd == 0, w: fd == 1 },
                            Some(Node::Full) => Fd::Full,
                            _ => return end(Kind::Unsupported, "standard stream from something else than a file"),
                        }
                    };
                    Rc::make_mut(&mut st.vfs).fds[fd] = Some(f);
                }
                Ok(V::C(0))
            }
            // branch-free boolean connectives for oracles
            "sx_and" | "sx_or" => {
                let x = self.truth(&a[0]);
                let y = self.truth(&a[1]);
                let r = if name == "sx_and" { ar().and(x, y) } else { ar().or(x, y) };
                let r = ar().zext(r, 64);
                Ok(norm(r, 64))
            }
            "sx_ite" => {
                let c = self.truth(&a[0]);
                let (x, y) = (ex(&a[1], 64), ex(&a[2], 64));
                let r = ar().ite(c, x, y);
                Ok(norm(r, 64))
            }
            "sx_trace" => {
                if self.trace {
                    let m = self.name_arg(st, a)?;
                    let k = match &a[2] {
                        V::C(k) => format!("{}", k),
                        V::E(e) => ar().show(*e, 6),
                        _ => "?".into(),
                    };
                    eprintln!("trace {} = {}", m, k);
                }
                Ok(V::C(0))
            }
            // sx_put(ptr, n, name, len): fill memory with symbolic bytes name_0..n
            "sx_put" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let nm = self.name_arg(st, &a[2..])?;
                for i in 0..n {
                    let full = format!("{}_{}", nm, i);
                    let v = ar().var(&full, 8);
                    if !st.inputs.iter().any(|x| x.0 == full) {
                        Rc::make_mut(&mut st.inputs).push((full, v));
                    }
                    let (d, o) = self.wdata(st, p + i, 1)?;
                    d.set_byte(o, v);
                }
                Ok(V::C(0))
            }
            // bytes equal as one condition: sx_bytes_eq(p, q, n) -> 0/1
            "sx_bytes_eq" => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(V::C(1));
                }
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let x = self.read_mem(st, p, n)?;
                let y = self.read_mem(st, q, n)?;
                let mut r = ar().c(1, 1);
                for i in 0..n as usize {
                    let e = ar().eq(x.byte(i), y.byte(i));
                    r = ar().and(r, e);
                }
                let r = ar().zext(r, 64);
                Ok(norm(r, 64))
            }
            _ => end(Kind::Unsupported, format!("intrinsic {}", name)),
        }
    }

    fn truth(&mut self, v: &V) -> Ex {
        match v {
            V::C(k) => ar().c((*k != 0) as u128, 1),
            V::E(e) => {
                let w = ar().w(*e);
                if w == 1 {
                    *e
                } else {
                    let z = ar().c(0, w);
                    ar().ne(*e, z)
                }
            }
            _ => panic!(),
        }
    }
}
