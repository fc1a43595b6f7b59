//! Memory objects: concrete bytes with an optional symbolic overlay, copied on write.
use crate::expr::Eid;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 1 << 40;
pub const HEAP_SHIFT: u32 = 28;

#[derive(Clone)]
pub struct Data {
    pub b: Vec<u8>,
    /// empty, or one entry per byte (0 = concrete)
    pub s: Vec<Eid>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Rc<Data>,
    pub ro: bool,
    pub heap: bool,
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Table {
    chunks: Vec<Option<Rc<Vec<Option<Obj>>>>>,
    pub next: u32,
}

impl Table {
    pub fn new() -> Self {
        Table { chunks: vec![], next: 0 }
    }
    pub fn add(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            self.chunks.push(Some(Rc::new(Vec::with_capacity(CH))));
        }
        if self.chunks[c].is_none() {
            self.chunks[c] = Some(Rc::new(vec![None; id as usize % CH]));
        }
        let v = Rc::make_mut(self.chunks[c].as_mut().unwrap());
        while v.len() < id as usize % CH {
            v.push(None);
        }
        v.push(Some(o));
        id
    }
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?.as_ref()?.get(id as usize % CH)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?.as_mut()?;
        Rc::make_mut(c).get_mut(id as usize % CH)?.as_mut()
    }
    pub fn remove(&mut self, id: u32) -> bool {
        let k = id as usize / CH;
        let Some(Some(c)) = self.chunks.get_mut(k) else { return false };
        let v = Rc::make_mut(c);
        let Some(s) = v.get_mut(id as usize % CH) else { return false };
        let was = s.is_some();
        *s = None;
        if v.len() == CH && v.iter().all(|x| x.is_none()) {
            self.chunks[k] = None;
        }
        was
    }
}

impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj {
        Obj { size, data: Rc::new(Data { b: vec![0; size as usize], s: vec![] }), ro: false, heap }
    }
    pub fn data_mut(&mut self) -> &mut Data {
        Rc::make_mut(&mut self.data)
    }
}
