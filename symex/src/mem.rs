//! Object memory with concrete base addresses; bytes are concrete or symbolic.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const STACK_BASE: u64 = 0x0040_0000_0000;
pub const HEAP_BASE: u64 = 0x0060_0000_0000;
pub const END: u64 = 0x0080_0000_0000;

#[derive(Clone, Default)]
pub struct Data {
    pub b: Vec<u8>,
    pub s: Option<Box<HashMap<u32, Ex>>>,
}

impl Data {
    pub fn zeroed(n: usize) -> Data {
        Data { b: vec![0; n], s: None }
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.s {
            None => false,
            Some(m) => {
                if n > m.len() {
                    m.keys().any(|k| (*k as usize) >= off && (*k as usize) < off + n)
                } else {
                    (off..off + n).any(|i| m.contains_key(&(i as u32)))
                }
            }
        }
    }
    pub fn byte(&self, off: usize) -> Ex {
        if let Some(m) = &self.s {
            if let Some(e) = m.get(&(off as u32)) {
                return *e;
            }
        }
        ar().c(self.b[off] as u128, 8)
    }
    pub fn set_byte(&mut self, off: usize, e: Ex) {
        if let Some(k) = ar().cst(e) {
            self.b[off] = k as u8;
            if let Some(m) = &mut self.s {
                m.remove(&(off as u32));
                if m.is_empty() {
                    self.s = None;
                }
            }
        } else {
            self.s.get_or_insert_with(|| Box::new(HashMap::new())).insert(off as u32, e);
        }
    }
    pub fn set_conc(&mut self, off: usize, v: &[u8]) {
        self.b[off..off + v.len()].copy_from_slice(v);
        self.clear_sym(off, v.len());
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.s {
            if n > m.len() {
                m.retain(|k, _| !((*k as usize) >= off && (*k as usize) < off + n));
            } else {
                for i in off..off + n {
                    m.remove(&(i as u32));
                }
            }
            if m.is_empty() {
                self.s = None;
            }
        }
    }
    pub fn sub(&self, off: usize, n: usize) -> Data {
        let b = self.b[off..off + n].to_vec();
        let mut s = None;
        if let Some(m) = &self.s {
            let mut h = HashMap::new();
            if m.len() < n {
                for (k, v) in m.iter() {
                    let k = *k as usize;
                    if k >= off && k < off + n {
                        h.insert((k - off) as u32, *v);
                    }
                }
            } else {
                for i in 0..n {
                    if let Some(v) = m.get(&((off + i) as u32)) {
                        h.insert(i as u32, *v);
                    }
                }
            }
            if !h.is_empty() {
                s = Some(Box::new(h));
            }
        }
        Data { b, s }
    }
    pub fn put(&mut self, off: usize, d: &Data) {
        self.set_conc(off, &d.b);
        if let Some(m) = &d.s {
            let t = self.s.get_or_insert_with(|| Box::new(HashMap::new()));
            for (k, v) in m.iter() {
                t.insert(*k + off as u32, *v);
            }
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Rc<Data>,
}

#[derive(Clone)]
pub struct Mem {
    pub heap: Vec<Obj>,
    pub stack: Vec<Obj>,
    pub globs: Vec<Obj>,
    pub next_heap: u64,
    pub next_stack: u64,
    pub heap_bytes: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    Heap(usize),
    Stack(usize),
    Glob(usize),
}

fn find(v: &[Obj], a: u64) -> Option<usize> {
    let i = v.partition_point(|o| o.base <= a);
    if i == 0 {
        return None;
    }
    let o = &v[i - 1];
    if a <= o.base + o.size {
        Some(i - 1)
    } else {
        None
    }
}

impl Mem {
    pub fn new() -> Mem {
        Mem { heap: vec![], stack: vec![], globs: vec![], next_heap: HEAP_BASE, next_stack: STACK_BASE, heap_bytes: 0 }
    }
    pub fn alloc_heap(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let b = (self.next_heap + al - 1) / al * al;
        self.next_heap = b + size + 32;
        assert!(self.next_heap < END);
        self.heap_bytes += size;
        self.heap.push(Obj { base: b, size, data: Rc::new(Data::zeroed(size as usize)) });
        b
    }
    pub fn alloc_stack(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let b = (self.next_stack + al - 1) / al * al;
        self.next_stack = b + size + 32;
        assert!(self.next_stack < HEAP_BASE);
        self.stack.push(Obj { base: b, size, data: Rc::new(Data::zeroed(size as usize)) });
        b
    }
    /// true if `a` was the base of a live heap object
    pub fn free(&mut self, a: u64) -> bool {
        match find(&self.heap, a) {
            Some(i) if self.heap[i].base == a => {
                self.heap_bytes -= self.heap[i].size;
                self.heap.remove(i);
                true
            }
            _ => false,
        }
    }
    pub fn locate(&self, a: u64) -> Option<Loc> {
        if a >= HEAP_BASE {
            find(&self.heap, a).map(Loc::Heap)
        } else if a >= STACK_BASE {
            find(&self.stack, a).map(Loc::Stack)
        } else {
            find(&self.globs, a).map(Loc::Glob)
        }
    }
    pub fn obj(&self, l: Loc) -> &Obj {
        match l {
            Loc::Heap(i) => &self.heap[i],
            Loc::Stack(i) => &self.stack[i],
            Loc::Glob(i) => &self.globs[i],
        }
    }
    pub fn obj_mut(&mut self, l: Loc) -> &mut Obj {
        match l {
            Loc::Heap(i) => &mut self.heap[i],
            Loc::Stack(i) => &mut self.stack[i],
            Loc::Glob(i) => &mut self.globs[i],
        }
    }
    pub fn add_glob(&mut self, o: Obj) -> Loc {
        let i = self.globs.partition_point(|x| x.base < o.base);
        self.globs.insert(i, o);
        Loc::Glob(i)
    }
}
