use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[u32]>>, // expression per byte, 0 = concrete
    pub ro: bool,
}
pub type Slot = Option<Rc<Obj>>;
const CH: usize = 64;
pub type Chunk = [Slot; CH];

/// Copy-on-write table of memory objects; an object's address is (id+1) << 32.
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
    pub free: Vec<u32>,
    pub nglobals: u32,
}

fn empty_chunk() -> Rc<Chunk> {
    Rc::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new(nglobals: u32) -> Mem {
        let mut m = Mem { chunks: vec![], next: nglobals, free: vec![], nglobals };
        while m.chunks.len() * CH < nglobals as usize {
            m.chunks.push(empty_chunk());
        }
        m
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, id: u32, o: Slot) {
        while self.chunks.len() * CH <= id as usize {
            self.chunks.push(empty_chunk());
        }
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = o;
    }
    pub fn alloc(&mut self, size: u64) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        self.set(id, Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false })));
        id
    }
    pub fn release(&mut self, id: u32) {
        self.set(id, None);
        self.free.push(id);
    }
}
pub fn addr(id: u32) -> u64 {
    (id as u64 + 1) << 32
}
