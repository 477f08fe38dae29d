//! Stand-in for `salsa`: inputs, interning, and tracked functions memoized with dependencies and durabilities.
//!
//! A memo remembers every input field it read, directly or through other tracked functions, and the least durability
//! among them. It is reused when no input of that durability (or higher) changed since it was last verified, or when none
//! of the input fields it read changed; otherwise the function runs again. A tracked function that calls itself panics.
pub use salsa_macros::{db, input, interned, tracked};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::AtomicU8;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Durability(u8);
impl Durability {
    pub const LOW: Durability = Durability(0);
    pub const MEDIUM: Durability = Durability(1);
    pub const HIGH: Durability = Durability(2);
    pub const MIN: Durability = Durability(0);
    pub const MAX: Durability = Durability(2);
}
pub struct Backtrace;
impl Backtrace { pub fn capture() -> Option<Backtrace> { None } }
impl fmt::Display for Backtrace { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
#[non_exhaustive]
pub enum Cancelled { Local, PendingWrite, PropagatedPanic }
impl Cancelled { pub fn catch<F: FnOnce() -> T, T>(f: F) -> Result<T, Cancelled> { Ok(f()) } }
impl fmt::Display for Cancelled { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("cancelled") } }
impl std::error::Error for Cancelled {}

pub trait Key { fn key(&self) -> u64; }
impl Key for bool { fn key(&self) -> u64 { *self as u64 } }
impl Key for u32 { fn key(&self) -> u64 { *self as u64 } }
impl Key for usize { fn key(&self) -> u64 { *self as u64 } }
impl Key for () { fn key(&self) -> u64 { 0 } }
/// One per tracked function or interned type; its address is its identity.
pub struct Slot(#[allow(dead_code)] AtomicU8);
impl Slot {
    pub const fn new() -> Slot { Slot(AtomicU8::new(0)) }
    fn id(&'static self) -> usize { self as *const Slot as usize }
}

pub trait Database {
    #[doc(hidden)]
    fn __rt(&self) -> &Runtime;
    fn synthetic_write(&mut self, d: Durability) { let rt = self.__rt(); rt.new_revision(); rt.report_write(d); }
    fn trigger_cancellation(&mut self) {}
    fn trigger_lru_eviction(&mut self) {}
    fn unwind_if_revision_cancelled(&self) {}
}
pub trait Setter: Sized {
    type FieldTy;
    fn with_durability(self, d: Durability) -> Self;
    fn to(self, v: Self::FieldTy) -> Self::FieldTy;
}
pub struct FieldSetter<'db, T> { rt: &'db Runtime, id: u32, field: usize, durability: Option<Durability>, p: PhantomData<T> }
impl<'db, T: 'static> FieldSetter<'db, T> {
    #[doc(hidden)]
    pub fn __new(rt: &'db Runtime, id: u32, field: usize) -> Self { FieldSetter { rt, id, field, durability: None, p: PhantomData } }
}
impl<T: 'static + Clone> Setter for FieldSetter<'_, T> {
    type FieldTy = T;
    fn with_durability(mut self, d: Durability) -> Self { self.durability = Some(d); self }
    fn to(self, v: T) -> T {
        let rt = self.rt;
        rt.new_revision();
        let mut ins = rt.inputs.borrow_mut();
        let f = &mut ins[self.id as usize][self.field];
        let (old_d, old) = (f.durability, f.value.take().unwrap());
        f.value = Some(Box::leak(Box::new(v)));
        f.changed_at = rt.revision.get();
        f.durability = self.durability.unwrap_or(old_d);
        if old_d != Durability::MIN { rt.report_write(old_d); }
        old.downcast_ref::<T>().unwrap().clone()
    }
}
struct Field { value: Option<&'static dyn Any>, changed_at: u64, durability: Durability }
struct Memo { value: *const (), deps: Vec<(u32, u32)>, durability: Durability, verified_at: u64 }
#[derive(Default)]
struct Frame { deps: Vec<(u32, u32)>, durability: Option<Durability> }
#[derive(PartialEq, Eq, Clone, Copy)]
struct MemoKey { slot: usize, n: usize, k: [u64; 4] }
#[derive(Default)]
struct Mix(u64);
impl Mix { fn add(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95) } }
impl Hasher for Mix {
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, v: u8) { self.add(v as u64) }
    fn write_u16(&mut self, v: u16) { self.add(v as u64) }
    fn write_u32(&mut self, v: u32) { self.add(v as u64) }
    fn write_u64(&mut self, v: u64) { self.add(v) }
    fn write_usize(&mut self, v: usize) { self.add(v as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 32) }
}
const BUCKETS: usize = 256;
struct Interned { slot: usize, rows: Vec<&'static dyn Any>, buckets: Vec<Vec<u32>> }
#[derive(Default)]
pub struct Runtime {
    revision: Cell<u64>,
    changed: [Cell<u64>; 3],
    inputs: RefCell<Vec<Vec<Field>>>,
    interned: RefCell<Vec<Interned>>,
    memos: RefCell<Vec<Vec<(MemoKey, Option<Memo>)>>>,
    active: RefCell<Vec<(MemoKey, Frame)>>,
}
impl Runtime {
    fn new_revision(&self) { let r = self.revision.get() + 1; self.revision.set(r); self.changed[0].set(r); }
    fn report_write(&self, d: Durability) { for i in 0..=d.0 as usize { self.changed[i].set(self.revision.get()); } }
    #[doc(hidden)]
    pub fn new_input(&self, n: usize) -> u32 {
        let mut ins = self.inputs.borrow_mut();
        ins.push((0..n).map(|_| Field { value: None, changed_at: self.revision.get(), durability: Durability::LOW }).collect());
        ins.len() as u32 - 1
    }
    #[doc(hidden)]
    pub fn init<T: 'static>(&self, id: u32, field: usize, d: Durability, v: T) {
        let f = &mut self.inputs.borrow_mut()[id as usize][field];
        f.value = Some(Box::leak(Box::new(v)));
        f.durability = d;
    }
    #[doc(hidden)]
    pub fn read<T: 'static>(&self, id: u32, field: usize) -> &T {
        let (v, d) = { let ins = self.inputs.borrow(); let f = &ins[id as usize][field]; (f.value.unwrap(), f.durability) };
        if let Some((_, f)) = self.active.borrow_mut().last_mut() { f.dep((id, field as u32), d); }
        v.downcast_ref::<T>().unwrap()
    }
    #[doc(hidden)]
    pub fn intern<T: 'static + Eq + Hash>(&self, slot: &'static Slot, v: T) -> u32 {
        let mut h = Mix::default();
        v.hash(&mut h);
        let b = h.finish() as usize % BUCKETS;
        let mut all = self.interned.borrow_mut();
        let t = match all.iter().position(|t| t.slot == slot.id()) {
            Some(i) => &mut all[i],
            None => { all.push(Interned { slot: slot.id(), rows: vec![], buckets: (0..BUCKETS).map(|_| vec![]).collect() }); all.last_mut().unwrap() }
        };
        for i in &t.buckets[b] { if unsafe { &*(t.rows[*i as usize] as *const dyn Any as *const T) } == &v { return *i; } }
        let i = t.rows.len() as u32;
        t.rows.push(Box::leak(Box::new(v)));
        t.buckets[b].push(i);
        i
    }
    #[doc(hidden)]
    pub fn interned<T: 'static>(&self, slot: &'static Slot, id: u32) -> &T {
        let all = self.interned.borrow();
        all.iter().find(|t| t.slot == slot.id()).expect("an interned value of this database").rows[id as usize].downcast_ref::<T>().unwrap()
    }
    #[doc(hidden)]
    pub fn fetch<R>(&self, slot: &'static Slot, name: &'static str, keys: &[u64], run: impl FnOnce() -> R) -> &R {
        let mut k = [0; 4];
        k[..keys.len()].copy_from_slice(keys);
        let key = MemoKey { slot: slot.id(), n: keys.len(), k };
        let mut h = Mix::default();
        h.add(key.slot as u64);
        for x in keys { h.add(*x) }
        let b = h.finish() as usize % BUCKETS;
        let now = self.revision.get();
        let mut hit = None;
        {
            let mut memos = self.memos.borrow_mut();
            if memos.is_empty() { memos.resize_with(BUCKETS, Vec::new); }
            if let Some(m) = memos[b].iter_mut().find(|m| m.0 == key).and_then(|m| m.1.as_mut()) {
                let valid = m.verified_at == now || self.changed[m.durability.0 as usize].get() <= m.verified_at || {
                    let ins = self.inputs.borrow();
                    m.deps.iter().all(|d| ins[d.0 as usize][d.1 as usize].changed_at <= m.verified_at)
                };
                if valid { m.verified_at = now; hit = Some(m.value as *const R); self.report(m); }
            }
        }
        if let Some(v) = hit { return unsafe { &*v }; }
        if self.active.borrow().iter().any(|a| a.0 == key) { panic!("dependency graph cycle at {name}"); }
        self.active.borrow_mut().push((key, Frame::default()));
        let v: *const R = Box::leak(Box::new(run()));
        let (_, f) = self.active.borrow_mut().pop().unwrap();
        let m = Memo { value: v as *const (), deps: f.deps, durability: f.durability.unwrap_or(Durability::MAX), verified_at: now };
        self.report(&m);
        let mut memos = self.memos.borrow_mut();
        match memos[b].iter_mut().find(|m| m.0 == key) { Some(e) => e.1 = Some(m), None => memos[b].push((key, Some(m))) }
        unsafe { &*v }
    }
    fn report(&self, m: &Memo) {
        if let Some((_, f)) = self.active.borrow_mut().last_mut() { for d in &m.deps { f.dep(*d, m.durability); } f.durability = Some(f.durability.map_or(m.durability, |x| x.min(m.durability))); }
    }
}
impl Frame {
    fn dep(&mut self, d: (u32, u32), dur: Durability) {
        if !self.deps.contains(&d) { self.deps.push(d); }
        self.durability = Some(self.durability.map_or(dur, |x| x.min(dur)));
    }
}
pub struct Storage<Db> { rt: Rc<Runtime>, p: PhantomData<Db> }
unsafe impl<Db> Send for Storage<Db> {}
unsafe impl<Db> Sync for Storage<Db> {}
impl<Db> std::panic::RefUnwindSafe for Storage<Db> {}
impl<Db> Default for Storage<Db> { fn default() -> Self { Storage { rt: Rc::new(Runtime::default()), p: PhantomData } } }
impl<Db> Clone for Storage<Db> { fn clone(&self) -> Self { Storage { rt: self.rt.clone(), p: PhantomData } } }
impl<Db> Storage<Db> { #[doc(hidden)] pub fn runtime(&self) -> &Runtime { &self.rt } }
