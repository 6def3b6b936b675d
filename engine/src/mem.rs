//! Object memory: every object lives at (id << 32); bytes are concrete or symbolic 8-bit terms.
use crate::term::T;
use std::rc::Rc;

pub const NOSYM: T = u32::MAX;
pub const GBASE: u64 = 0x0100_0000;
pub const FBASE: u64 = 0x0200_0000;
pub const SBASE: u64 = 0x0400_0000;
pub const HBASE: u64 = 0x0800_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<T>>,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
    #[inline]
    pub fn is_conc(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[o..o + n].iter().all(|x| *x == NOSYM),
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> (u8, T) {
        (self.data[o], self.sym.as_ref().map_or(NOSYM, |s| s[o]))
    }
    pub fn set_conc(&mut self, o: usize, b: &[u8]) {
        self.data[o..o + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in &mut s[o..o + b.len()] {
                *x = NOSYM;
            }
        }
    }
    pub fn set_sym(&mut self, o: usize, t: T) {
        if self.sym.is_none() {
            self.sym = Some(vec![NOSYM; self.data.len()]);
        }
        self.sym.as_mut().unwrap()[o] = t;
        self.data[o] = 0;
    }
}

#[derive(Clone)]
pub struct Mem {
    pub globals: Vec<Option<Rc<Obj>>>,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
}
impl Mem {
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= HBASE {
            self.heap.get((id - HBASE) as usize)?.as_ref()
        } else if id >= SBASE {
            self.stack.get((id - SBASE) as usize)?.as_ref()
        } else if id >= FBASE {
            None
        } else if id >= GBASE {
            self.globals.get((id - GBASE) as usize)?.as_ref()
        } else {
            None
        }
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Rc<Obj>> {
        if id >= HBASE {
            self.heap.get_mut((id - HBASE) as usize)?.as_mut()
        } else if id >= SBASE {
            self.stack.get_mut((id - SBASE) as usize)?.as_mut()
        } else if id >= FBASE {
            None
        } else if id >= GBASE {
            self.globals.get_mut((id - GBASE) as usize)?.as_mut()
        } else {
            None
        }
    }
    pub fn alloc_heap(&mut self, n: usize) -> u64 {
        let o = Rc::new(Obj::new(n));
        let id = match self.free.pop() {
            Some(i) => {
                self.heap[i as usize] = Some(o);
                i as u64
            }
            None => {
                self.heap.push(Some(o));
                (self.heap.len() - 1) as u64
            }
        };
        (HBASE + id) << 32
    }
    pub fn alloc_stack(&mut self, n: usize) -> u64 {
        self.stack.push(Some(Rc::new(Obj::new(n))));
        (SBASE + (self.stack.len() - 1) as u64) << 32
    }
}
