//! Copy-on-write object memory.  Address = object id << OBJ_SHIFT | offset.
use crate::expr::E;
use crate::ir::OBJ_SHIFT;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub data: Vec<u8>,
    /// per byte: 0 = concrete (see `data`), otherwise an 8-bit expression
    pub ov: Option<Box<[E]>>,
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u64,
    pub live: u64,
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        Mem { chunks: vec![], free: vec![], next: first, live: 0 }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let c = self.chunks.get((id as usize) / CH)?;
        c[(id as usize) % CH].as_ref()
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let c = (id as usize) / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[(id as usize) % CH] = Some(o);
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut((id as usize) / CH)?;
        if c[(id as usize) % CH].is_none() {
            return None;
        }
        let c = Rc::make_mut(c);
        c[(id as usize) % CH].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i as u64,
            None => {
                let i = self.next;
                self.next += 1;
                i
            }
        };
        self.live += size;
        self.put(id, Rc::new(Obj { kind, data: vec![0; size as usize], ov: None }));
        id << OBJ_SHIFT
    }
    pub fn release(&mut self, id: u64) {
        let c = (id as usize) / CH;
        let ch = Rc::make_mut(&mut self.chunks[c]);
        if let Some(o) = ch[(id as usize) % CH].take() {
            self.live -= o.data.len() as u64;
            self.free.push(id as u32);
        }
    }
}
