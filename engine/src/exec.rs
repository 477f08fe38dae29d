//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::Val;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Frame {
    pub f: &'static Func,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub ret: Option<u32>,
    pub allocas: Vec<u32>,
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { f: self.f, ip: self.ip, regs: self.regs.clone(), ret: self.ret, allocas: self.allocas.clone() }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Pc,
    pub inputs: Rc<Vec<u32>>,
    pub obs: Rc<Vec<Val>>,
    pub steps: u64,
    pub forks: u32,
    pub forced: Option<(E, bool)>,
    pub asserts: u32,
}

#[derive(Debug)]
pub enum End {
    Done,
    Assumed,
    Error(String, String), // kind, message
    Unsupported(String),
    Retry,
}
type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    No,
    Nop,
    Panic,
    Abort,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Llvm(Ll),
    SymVar,
    SymAssume,
    SymAssert,
    SymChoose,
    SymConc,
    SymObs,
    SymCover,
    SymIsSym,
    SymParam,
    RetZero,
    Write,
    Fill,
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ll {
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    Min(bool),
    Max(bool),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    First,
    Cmp(bool),
    PtrMask,
    Zero,
    AndReduce,
    OrReduce,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_errors: u64,
    pub deep: u16,
    pub deadline: Instant,
    pub outdir: String,
    pub procs: u64,
    pub trace: bool,
    pub params: HashMap<String, u64>,
    pub panic_ok: bool,
}

#[repr(C)]
pub struct Shared {
    pub live: std::sync::atomic::AtomicU64,
    pub stop: std::sync::atomic::AtomicU64,
    pub errors: std::sync::atomic::AtomicU64,
    pub unsup: std::sync::atomic::AtomicU64,
    pub timeout: std::sync::atomic::AtomicU64,
    pub paths: std::sync::atomic::AtomicU64,
    pub assumed: std::sync::atomic::AtomicU64,
    pub steps: std::sync::atomic::AtomicU64,
    pub forks: std::sync::atomic::AtomicU64,
    pub asserts: std::sync::atomic::AtomicU64,
    pub asserts_sym: std::sync::atomic::AtomicU64,
    pub z3: std::sync::atomic::AtomicU64,
    pub z3_ns: std::sync::atomic::AtomicU64,
    pub sat: std::sync::atomic::AtomicU64,
    pub unsat: std::sync::atomic::AtomicU64,
    pub unknown: std::sync::atomic::AtomicU64,
    pub domain: std::sync::atomic::AtomicU64,
    pub csp: std::sync::atomic::AtomicU64,
    pub xchk: std::sync::atomic::AtomicU64,
    pub cache: std::sync::atomic::AtomicU64,
    pub procs: std::sync::atomic::AtomicU64,
    pub maxsteps: std::sync::atomic::AtomicU64,
}
use std::sync::atomic::Ordering::SeqCst;

pub struct Exec {
    pub m: &'static Module,
    pub pool: Pool,
    pub solver: Solver,
    bi: Vec<Bi>,
    funcs: Vec<Option<&'static Func>>,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub sh: &'static Shared,
    pub called: HashSet<u32>,
    pub covers: BTreeMap<String, u64>,
    pub asserted: BTreeSet<String>,
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub nsamples: u64,
    pub errs: u64,
    pub unsup_msgs: BTreeSet<String>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    regpool: Vec<Vec<Val>>,
    start_steps: u64,
}

fn classify(name: &str, defined: bool) -> Bi {
    if let Some(s) = name.strip_prefix("__sym_") {
        return match s {
            "var" => Bi::SymVar,
            "assume" => Bi::SymAssume,
            "assert" => Bi::SymAssert,
            "choose" => Bi::SymChoose,
            "concretize" => Bi::SymConc,
            "observe" => Bi::SymObs,
            "cover" => Bi::SymCover,
            "param" => Bi::SymParam,
            "is_symbolic" => Bi::SymIsSym,
            _ => Bi::Unknown,
        };
    }
    if let Some(s) = name.strip_prefix("llvm.") {
        let st = |p: &str| s.starts_with(p);
        if st("memcpy.") || st("memmove.") || st("memcpy.inline") {
            return Bi::Memcpy;
        }
        if st("memset.") {
            return Bi::Memset;
        }
        if st("lifetime.") || st("assume") || st("dbg.") || st("invariant.") || st("prefetch") || st("donothing") || st("experimental.noalias")
            || st("sideeffect") || st("pseudoprobe") || st("fake.use")
        {
            return Bi::Nop;
        }
        if st("trap") || st("ubsantrap") || st("debugtrap") {
            return Bi::Abort;
        }
        let l = if st("uadd.with.overflow") {
            Ll::AddO(false)
        } else if st("sadd.with.overflow") {
            Ll::AddO(true)
        } else if st("usub.with.overflow") {
            Ll::SubO(false)
        } else if st("ssub.with.overflow") {
            Ll::SubO(true)
        } else if st("umul.with.overflow") {
            Ll::MulO(false)
        } else if st("smul.with.overflow") {
            Ll::MulO(true)
        } else if st("uadd.sat") {
            Ll::AddSat(false)
        } else if st("sadd.sat") {
            Ll::AddSat(true)
        } else if st("usub.sat") {
            Ll::SubSat(false)
        } else if st("ssub.sat") {
            Ll::SubSat(true)
        } else if st("umin") {
            Ll::Min(false)
        } else if st("smin") {
            Ll::Min(true)
        } else if st("umax") {
            Ll::Max(false)
        } else if st("smax") {
            Ll::Max(true)
        } else if st("abs") {
            Ll::Abs
        } else if st("ctpop") {
            Ll::Ctpop
        } else if st("ctlz") {
            Ll::Ctlz
        } else if st("cttz") {
            Ll::Cttz
        } else if st("bswap") {
            Ll::Bswap
        } else if st("bitreverse") {
            Ll::Bitrev
        } else if st("fshl") {
            Ll::Fshl
        } else if st("fshr") {
            Ll::Fshr
        } else if st("expect") || st("threadlocal.address") || st("launder.") || st("strip.") || st("ssa.copy") {
            Ll::First
        } else if st("ucmp") {
            Ll::Cmp(false)
        } else if st("scmp") {
            Ll::Cmp(true)
        } else if st("ptrmask") {
            Ll::PtrMask
        } else if st("is.constant") || st("objectsize") || st("allow.") {
            Ll::Zero
        } else if st("vector.reduce.and") {
            Ll::AndReduce
        } else if st("vector.reduce.or") {
            Ll::OrReduce
        } else {
            return Bi::Unknown;
        };
        return Bi::Llvm(l);
    }
    match name {
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "memcmp" => return Bi::Memcmp,
        "bcmp" => return Bi::Bcmp,
        "strlen" => return Bi::Strlen,
        "abort" | "exit" | "_exit" => return Bi::Abort,
        "write" | "writev" => return Bi::Write,
        "getrandom" | "getentropy" => return Bi::Fill,
        "getenv" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_self" | "syscall" | "pthread_key_create" | "pthread_setspecific"
        | "pthread_getspecific" | "pthread_key_delete" | "clock_gettime" | "__errno_location" | "gettid" | "isatty" | "open64" | "pthread_getattr_np" => return Bi::RetZero,
        "malloc" => return Bi::Alloc,
        _ => {}
    }
    if name.contains("___rust_alloc_zeroed") {
        return Bi::AllocZ;
    }
    if name.contains("___rust_alloc_error_handler") {
        return Bi::Panic;
    }
    if name.contains("___rust_alloc") {
        return Bi::Alloc;
    }
    if name.contains("___rust_dealloc") {
        return Bi::Dealloc;
    }
    if name.contains("___rust_realloc") {
        return Bi::Realloc;
    }
    if name.contains("___rust_no_alloc_shim") {
        return Bi::Nop;
    }
    if name.contains("9panicking") || name.contains("panic_cannot_unwind") || name.contains("16slice_error_fail") || name.contains("rust_begin_unwind")
        || name.contains("17capacity_overflow") || name.contains("18handle_alloc_error") || name.contains("12handle_error")
        || name.contains("13unwrap_failed") || name.contains("13expect_failed")
    {
        // functions that only report a panic (count/flag helpers in std::panicking are real code)
        if !(name.contains("panic_count") || name.contains("panicking9panicking") || name.contains("update_hook") || name.contains("default_hook")) {
            return Bi::Panic;
        }
    }
    if defined {
        Bi::No
    } else {
        Bi::Unknown
    }
}

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg, sh: &'static Shared, z3_timeout: u32) -> Exec {
        let bi = m.funcs.iter().map(|f| classify(f.name, f.range.is_some())).collect();
        let n = m.funcs.len();
        Exec {
            m,
            pool: Pool::new(),
            solver: Solver::new(z3_timeout),
            bi,
            funcs: vec![None; n],
            work: vec![],
            cfg,
            sh,
            called: HashSet::new(),
            covers: BTreeMap::new(),
            asserted: BTreeSet::new(),
            paths: 0,
            assumed: 0,
            steps: 0,
            forks: 0,
            asserts: 0,
            asserts_sym: 0,
            nsamples: 0,
            errs: 0,
            unsup_msgs: BTreeSet::new(),
            fork_sites: HashMap::new(),
            regpool: vec![],
            start_steps: 0,
        }
    }
    fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize] {
            return Some(f);
        }
        let rc: &'static Rc<Func> = Box::leak(Box::new(self.m.func(id)?));
        let f: &'static Func = rc;
        self.funcs[id as usize] = Some(f);
        Some(f)
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let f = match self.m.syms.get(entry) {
            Some(Sym::F(f)) => *f,
            _ => panic!("no entry {}", entry),
        };
        let func = self.func(f).expect("entry is not defined");
        self.called.insert(f);
        State {
            frames: vec![Frame { f: func, ip: 0, regs: vec![Val::I(0); func.nregs as usize], ret: None, allocas: vec![] }],
            mem: Mem::new(self.m.globals.len() as u32),
            pc: Pc::new(),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            forks: 0,
            forced: None,
            asserts: 0,
        }
    }

    // ---------------------------------------------------------------- values
    fn ex(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::I(x) => self.pool.cst(*x as u128, w),
            Val::X(e) => *e,
            Val::Big(b) => self.pool.cst(**b, w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn vl(&self, e: E) -> Val {
        match self.pool.cv(e) {
            Some(v) => {
                if self.pool.w(e) <= 64 {
                    Val::I(v as u64)
                } else {
                    Val::Big(Rc::new(v))
                }
            }
            None => Val::X(e),
        }
    }
    #[inline]
    fn op(fr: &Frame, o: &Opn) -> Val {
        match o {
            Opn::R(r) => fr.regs[*r as usize].clone(),
            Opn::C(v) => v.clone(),
        }
    }
    fn bin_e(&mut self, op: Op, a: &Val, b: &Val, w: u8) -> Val {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.pool.bin(op, x, y);
        self.vl(e)
    }

    // ---------------------------------------------------------------- forking
    fn push_fork(&mut self, st: State) {
        self.forks += 1;
        if let Some(fr) = st.frames.last() {
            *self.fork_sites.entry((fr.f.id, fr.ip)).or_insert(0) += 1;
        }
        self.work.push(st);
    }
    /// Decide a 1-bit expression on the current path, forking when both values are feasible.
    fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(v) = self.pool.cv(e) {
            return Ok(v != 0);
        }
        if let Some((fe, v)) = st.forced {
            if fe == e {
                st.forced = None;
                return Ok(v);
            }
        }
        if let Some(v) = self.implied(&st.pc, e, 4) {
            return Ok(v);
        }
        match self.solver.split(&mut self.pool, &mut st.pc, e) {
            Split::True => Ok(true),
            Split::False => Ok(false),
            Split::Unknown => Err(End::Unsupported("solver gave up".into())),
            Split::Both { on_true, on_false } => {
                let mut other = st.clone();
                other.forks += 1;
                st.forks += 1;
                let ne = self.pool.not(e);
                other.forced = Some((e, false));
                self.solver.add(&mut self.pool, &mut other.pc, ne, on_false);
                self.solver.add(&mut self.pool, &mut st.pc, e, on_true);
                self.push_fork(other);
                Ok(true)
            }
        }
    }
    fn implied(&mut self, pc: &Pc, e: E, d: u32) -> Option<bool> {
        if let Some(v) = self.pool.cv(e) {
            return Some(v != 0);
        }
        if pc.multi.is_empty() {
            return None;
        }
        if pc.multi.contains(&e) {
            return Some(true);
        }
        let ne = self.pool.not(e);
        if pc.multi.contains(&ne) {
            return Some(false);
        }
        if d == 0 {
            return None;
        }
        let n = self.pool.n(e);
        if n.w == 1 {
            match n.op {
                Op::And | Op::Or => {
                    let x = self.implied(pc, n.a, d - 1);
                    let y = self.implied(pc, n.b, d - 1);
                    let abs = n.op == Op::Or;
                    if x == Some(abs) || y == Some(abs) {
                        return Some(abs);
                    }
                    if x == Some(!abs) && y == Some(!abs) {
                        return Some(!abs);
                    }
                }
                Op::Xor if self.pool.cv(n.b) == Some(1) => {
                    return self.implied(pc, n.a, d - 1).map(|b| !b);
                }
                _ => {}
            }
        }
        None
    }
    /// A deep term over variables with few values left (a hash of a short name, an index that depends on which names are
    /// equal) is split: one state per assignment of those variables.
    fn settle(&mut self, st: &mut State, v: Val, w: u8) -> R<Val> {
        let Val::X(e) = v else { return Ok(v) };
        if self.pool.depth(e) <= self.cfg.deep || w > 64 {
            return Ok(v);
        }
        st.pc.ensure(&self.pool);
        let vars = self.pool.vars_of(e);
        let mut n = 1;
        for &x in vars.iter() {
            if self.pool.vars[x as usize].w > 8 {
                return Ok(v);
            }
            n *= st.pc.dom[x as usize].iter().map(|x| x.count_ones()).sum::<u32>();
            if n > 100 {
                return Ok(v);
            }
        }
        for &x in vars.iter() {
            let (xe, xw) = (self.pool.var(x), self.pool.vars[x as usize].w);
            self.concretize(st, &Val::X(xe), xw)?;
        }
        Ok(Val::I(self.pool.eval(e, &st.pc.model) as u64))
    }
    /// Pick one feasible value of `v`, forking off the rest.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u8) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::Big(b) => Ok(**b as u64),
            Val::A(_) => panic!(),
            Val::X(e) => {
                let e = *e;
                loop {
                    st.pc.ensure(&self.pool);
                    let x = self.pool.eval(e, &st.pc.model);
                    let k = self.pool.cst(x, w);
                    let c = self.pool.eq(e, k);
                    // on the continuing side the value is x; the fork re-executes with e != x
                    if let Some((fe, fv)) = st.forced {
                        if fe == c && !fv {
                            st.forced = None;
                            continue;
                        }
                    }
                    return match self.solver.split(&mut self.pool, &mut st.pc, c) {
                        Split::True => Ok(x as u64),
                        Split::False => Err(End::Unsupported("concretize".into())),
                        Split::Unknown => Err(End::Unsupported("solver gave up".into())),
                        Split::Both { on_true, on_false } => {
                            let mut other = st.clone();
                            other.forks += 1;
                            st.forks += 1;
                            let nc = self.pool.not(c);
                            self.solver.add(&mut self.pool, &mut other.pc, nc, on_false);
                            self.solver.add(&mut self.pool, &mut st.pc, c, on_true);
                            self.push_fork(other);
                            Ok(x as u64)
                        }
                    };
                }
            }
        }
    }

    // ---------------------------------------------------------------- memory
    fn fault(&self, msg: String) -> End {
        End::Error("memory".into(), msg)
    }
    fn obj<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a Rc<Obj>> {
        if st.mem.get(id).is_none() {
            if id < st.mem.nglobals {
                let data = self.m.global_init(id);
                let ro = self.m.globals[id as usize].constant;
                st.mem.set(id, Some(Rc::new(Obj { data, sym: None, ro })));
            } else {
                return Err(self.fault(format!("access to dead object {}", id)));
            }
        }
        Ok(st.mem.get(id).unwrap())
    }
    fn locate(&mut self, st: &mut State, a: u64, n: u64) -> R<(u32, usize)> {
        let id = a >> 32;
        if id == 0 || a >= FBASE {
            return Err(self.fault(format!("access of {} bytes at {:#x}", n, a)));
        }
        let id = (id - 1) as u32;
        let off = a & 0xffff_ffff;
        let o = self.obj(st, id)?;
        if off + n > o.data.len() as u64 {
            let l = o.data.len();
            return Err(self.fault(format!("out of bounds: {} bytes at offset {} of object {} of size {}", n, off, id, l)));
        }
        Ok((id, off as usize))
    }
    fn read_bytes_val(pool: &mut Pool, o: &Obj, off: usize, n: usize, w: u8) -> Val {
        let conc = match &o.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        };
        if conc {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Val::I(if w < 64 { v & ((1u64 << w) - 1) } else { v });
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Val::Big(Rc::new(u128::from_le_bytes(b) & mask(w)));
        }
        let s = o.sym.as_ref().unwrap();
        let mut e = 0;
        for i in 0..n {
            let b = if s[off + i] != 0 { s[off + i] } else { pool.cst(o.data[off + i] as u128, 8) };
            e = if i == 0 { b } else { pool.concat(b, e) };
        }
        if w as usize != n * 8 {
            e = pool.extract(e, 0, w);
        }
        match pool.cv(e) {
            Some(v) => {
                if w <= 64 {
                    Val::I(v as u64)
                } else {
                    Val::Big(Rc::new(v))
                }
            }
            None => Val::X(e),
        }
    }
    fn load_at(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            let w = ty.width();
            let n = (w as usize + 7) / 8;
            let (id, off) = self.locate(st, a, n as u64)?;
            let o = st.mem.get(id).unwrap();
            return Ok(Self::read_bytes_val(&mut self.pool, o, off, n, w));
        }
        let k = match ty {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n,
            Ty::Void => 0,
            _ => return Err(End::Unsupported(format!("load of {:?}", ty))),
        };
        let mut v = vec![];
        for i in 0..k {
            let (o, ft) = ty.field_off(i);
            v.push(self.load_at(st, a.wrapping_add(o), &ft)?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn store_at(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_scalar() {
            let w = ty.width();
            let n = (w as usize + 7) / 8;
            let (id, off) = self.locate(st, a, n as u64)?;
            let o = st.mem.get_mut(id).unwrap();
            if o.ro {
                return Err(self.fault("write to a constant".into()));
            }
            match v {
                Val::I(x) => {
                    let b = x.to_le_bytes();
                    if n <= 8 {
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                    } else {
                        o.data[off..off + 8].copy_from_slice(&b);
                        o.data[off + 8..off + n].fill(0);
                    }
                    if let Some(s) = &mut o.sym {
                        s[off..off + n].fill(0);
                    }
                }
                Val::Big(x) => {
                    let b = x.to_le_bytes();
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                    if let Some(s) = &mut o.sym {
                        s[off..off + n].fill(0);
                    }
                }
                Val::X(e) => {
                    let mut e = *e;
                    if self.pool.w(e) as usize != n * 8 {
                        e = self.pool.zext(e, (n * 8) as u8);
                    }
                    if o.sym.is_none() {
                        o.sym = Some(vec![0; o.data.len()].into_boxed_slice());
                    }
                    let s = o.sym.as_mut().unwrap();
                    for i in 0..n {
                        let b = self.pool.extract(e, (8 * i) as u8, 8);
                        match self.pool.cv(b) {
                            Some(c) => {
                                o.data[off + i] = c as u8;
                                s[off + i] = 0;
                            }
                            None => s[off + i] = b,
                        }
                    }
                }
                Val::A(_) => panic!(),
            }
            return Ok(());
        }
        if let Val::A(vs) = v {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = ty.field_off(i as u64);
                self.store_at(st, a.wrapping_add(o), &ft, x)?;
            }
            return Ok(());
        }
        Err(End::Unsupported(format!("store of {:?}", ty)))
    }
    fn tz(&self, e: E) -> u32 {
        let n = self.pool.n(e);
        match n.op {
            Op::Const => {
                let v = self.pool.cv(e).unwrap();
                if v == 0 {
                    64
                } else {
                    v.trailing_zeros()
                }
            }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Shl => match self.pool.cv(n.b) {
                Some(k) => k as u32 + self.tz(n.a),
                None => 0,
            },
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            Op::Concat => {
                let lw = self.pool.w(n.b) as u32;
                let t = self.tz(n.b);
                if t >= lw {
                    lw + self.tz(n.a)
                } else {
                    t
                }
            }
            _ => 0,
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::I(a) => self.load_at(st, *a, ty),
            Val::X(e) => {
                if !ty.is_scalar() {
                    let a = self.concretize(st, p, 64)?;
                    return self.load_at(st, a, ty);
                }
                let e = *e;
                st.pc.ensure(&self.pool);
                let av = self.pool.eval(e, &st.pc.model) as u64;
                let w = ty.width();
                let n = (w as u64 + 7) / 8;
                let id = av >> 32;
                if id == 0 || av >= FBASE {
                    let a = self.concretize(st, p, 64)?;
                    return self.load_at(st, a, ty);
                }
                let id = (id - 1) as u32;
                let size = self.obj(st, id)?.data.len() as u64;
                let base = self.pool.cst(addr(id) as u128, 64);
                let off = self.pool.bin(Op::Sub, e, base);
                if size < n {
                    let a = self.concretize(st, p, 64)?;
                    return self.load_at(st, a, ty);
                }
                let lim = self.pool.cst((size - n + 1) as u128, 64);
                let inb = self.pool.bin(Op::Ult, off, lim);
                if !self.decide(st, inb)? {
                    // other objects or out of bounds: enumerate
                    let a = self.concretize(st, p, 64)?;
                    return self.load_at(st, a, ty);
                }
                // candidate offsets
                let vars = self.pool.vars_of(off);
                let mut cands: Vec<u64> = vec![];
                st.pc.ensure(&self.pool);
                if vars.len() == 1 && self.pool.vars[vars[0] as usize].w <= 8 {
                    let d = st.pc.dom[vars[0] as usize];
                    let mut m = (*st.pc.model).clone();
                    for x in 0..256u64 {
                        if d[x as usize >> 6] >> (x & 63) & 1 == 1 {
                            m[vars[0] as usize] = x;
                            let o = self.pool.eval(off, &m) as u64;
                            if o + n <= size {
                                cands.push(o);
                            }
                        }
                    }
                    cands.sort();
                    cands.dedup();
                } else {
                    let t = self.tz(off).min(12);
                    let step = 1u64 << t;
                    let mut o = 0;
                    if (size - n) / step > 600 {
                        let a = self.concretize(st, p, 64)?;
                        return self.load_at(st, a, ty);
                    }
                    while o + n <= size {
                        cands.push(o);
                        o += step;
                    }
                }
                let o = st.mem.get(id).unwrap().clone();
                let mut vals: Vec<(u64, E)> = vec![];
                for &c in &cands {
                    let v = Self::read_bytes_val(&mut self.pool, &o, c as usize, n as usize, w);
                    let ve = self.ex(&v, w);
                    vals.push((c, ve));
                }
                // runs of equal values, in offset order; last run is the default
                let mut runs: Vec<(u64, E)> = vec![]; // (last offset of the run, value)
                for (c, v) in vals {
                    match runs.last_mut() {
                        Some(l) if l.1 == v => l.0 = c,
                        _ => runs.push((c, v)),
                    }
                }
                if runs.len() > 160 {
                    let a = self.concretize(st, p, 64)?;
                    return self.load_at(st, a, ty);
                }
                // many runs but few distinct values: group by value when that is smaller
                let mut r = runs.last().unwrap().1;
                for (c, v) in runs.iter().rev().skip(1) {
                    let k = self.pool.cst(*c as u128, 64);
                    let cond = self.pool.bin(Op::Ule, off, k);
                    r = self.pool.ite(cond, *v, r);
                }
                Ok(self.vl(r))
            }
            _ => panic!("load address"),
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        let a = self.concretize(st, p, 64)?;
        self.store_at(st, a, ty, v)
    }
    fn byte(&mut self, o: &Obj, i: usize) -> E {
        if let Some(s) = &o.sym {
            if s[i] != 0 {
                return s[i];
            }
        }
        self.pool.cst(o.data[i] as u128, 8)
    }
    fn conc_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.locate(st, a, n)?;
        Ok(st.mem.get(id).unwrap().data[off..off + n as usize].to_vec())
    }

    // ---------------------------------------------------------------- paths
    pub fn stack(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![];
        for f in st.frames.iter().rev().take(14) {
            v.push(demangle(&f.f.name));
        }
        v.join(" < ")
    }
    fn inputs_text(&mut self, st: &mut State) -> String {
        st.pc.ensure(&self.pool);
        let mut s = String::new();
        for (k, v) in &self.cfg.params {
            s.push_str(&format!("param {} {}\n", k, v));
        }
        for &v in st.inputs.iter() {
            let i = &self.pool.vars[v as usize];
            s.push_str(&format!("in {} {} {}\n", i.name, i.w, st.pc.model[v as usize]));
        }
        s
    }
    fn obs_text(&mut self, st: &mut State) -> String {
        st.pc.ensure(&self.pool);
        let obs = st.obs.clone();
        let mut h = String::new();
        for o in obs.iter() {
            let b = match o {
                Val::I(x) => *x as u8,
                Val::X(e) => self.pool.eval(*e, &st.pc.model) as u8,
                _ => 0,
            };
            h.push_str(&format!("{:02x}", b));
        }
        h
    }
    fn finish(&mut self, mut st: State, end: End) {
        match end {
            End::Done => {
                self.paths += 1;
                self.asserts += st.asserts as u64;
                if self.paths.is_power_of_two() || (self.paths % 512 == 0 && self.nsamples < 60) {
                    self.nsamples += 1;
                    let t = self.inputs_text(&mut st);
                    let o = self.obs_text(&mut st);
                    let p = format!("{}/sample.{}.{}", self.cfg.outdir, std::process::id(), self.nsamples);
                    let _ = std::fs::write(p, format!("kind sample\nobs {}\n{}", o, t));
                }
            }
            End::Assumed => self.assumed += 1,
            End::Error(kind, msg) => {
                self.errs += 1;
                self.paths += 1;
                // paths without an end are expensive: a few of them suffice
                let weight = if kind == "steps" { (self.cfg.max_errors / 4).max(1) } else { 1 };
                let n = self.sh.errors.fetch_add(weight, SeqCst);
                if n < self.cfg.max_errors {
                    let t = self.inputs_text(&mut st);
                    let o = self.obs_text(&mut st);
                    let p = format!("{}/error.{}.{}", self.cfg.outdir, std::process::id(), self.errs);
                    let stack = self.stack(&st);
                    let _ = std::fs::write(
                        p,
                        format!("kind {}\nmsg {}\nstack {}\nobs {}\n{}", kind, msg.replace('\n', " "), stack, o, t),
                    );
                }
                if n + weight >= self.cfg.max_errors {
                    self.sh.stop.store(1, SeqCst);
                }
            }
            End::Unsupported(msg) => {
                let s = self.stack(&st);
                self.unsup_msgs.insert(format!("{} @ {}", msg, s));
                self.sh.unsup.fetch_add(1, SeqCst);
                if self.sh.unsup.load(SeqCst) > 20 {
                    self.sh.stop.store(1, SeqCst);
                }
            }
            End::Retry => unreachable!(),
        }
    }
    /// Hand the oldest pending state to a new process when there is an idle slot.
    fn maybe_split(&mut self) {
        if self.work.len() < 2 {
            return;
        }
        let live = self.sh.live.load(SeqCst);
        if live >= self.cfg.procs {
            return;
        }
        if self.sh.live.compare_exchange(live, live + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            let s = self.work.remove(0);
            self.work.clear();
            self.work.push(s);
            self.sh.procs.fetch_add(1, SeqCst);
            self.paths = 0;
            self.assumed = 0;
            self.steps = 0;
            self.forks = 0;
            self.asserts = 0;
            self.asserts_sym = 0;
            self.nsamples = 0;
            self.errs = 0;
            self.covers.clear();
            self.unsup_msgs.clear();
            self.solver.stats = Default::default();
            self.fork_sites.clear();
        } else if pid > 0 {
            self.work.remove(0);
        } else {
            self.sh.live.fetch_sub(1, SeqCst);
        }
    }
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.sh.stop.load(SeqCst) != 0 {
                break;
            }
            self.start_steps = st.steps;
            let end = self.run_path(&mut st);
            self.steps += st.steps - self.start_steps;
            self.sh.maxsteps.fetch_max(st.steps, SeqCst);
            match end {
                End::Retry => break,
                e => self.finish(st, e),
            }
            self.maybe_split();
        }
    }
    fn run_path(&mut self, st: &mut State) -> End {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                if self.sh.stop.load(SeqCst) != 0 {
                    return End::Retry;
                }
                if Instant::now() > self.cfg.deadline {
                    self.sh.timeout.store(1, SeqCst);
                    self.sh.stop.store(1, SeqCst);
                    return End::Retry;
                }
                if self.work.len() >= 2 {
                    self.maybe_split_mid(st);
                }
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return End::Error("steps".into(), format!("no end after {} steps", self.cfg.max_steps));
            }
            match self.step(st) {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }
    fn maybe_split_mid(&mut self, st: &mut State) {
        // the running state stays with the parent; the child takes the oldest pending one
        let live = self.sh.live.load(SeqCst);
        if live >= self.cfg.procs {
            return;
        }
        if self.sh.live.compare_exchange(live, live + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            let s = self.work.remove(0);
            self.work.clear();
            self.start_steps = s.steps;
            *st = s;
            self.sh.procs.fetch_add(1, SeqCst);
            self.paths = 0;
            self.assumed = 0;
            self.steps = 0;
            self.forks = 0;
            self.asserts = 0;
            self.asserts_sym = 0;
            self.nsamples = 0;
            self.errs = 0;
            self.covers.clear();
            self.unsup_msgs.clear();
            self.solver.stats = Default::default();
            self.fork_sites.clear();
        } else if pid > 0 {
            self.work.remove(0);
        } else {
            self.sh.live.fetch_sub(1, SeqCst);
        }
    }
    /// Publish this process's counters.
    pub fn flush(&mut self) {
        let s = self.sh;
        s.paths.fetch_add(self.paths, SeqCst);
        s.assumed.fetch_add(self.assumed, SeqCst);
        s.steps.fetch_add(self.steps, SeqCst);
        s.forks.fetch_add(self.forks, SeqCst);
        s.asserts.fetch_add(self.asserts, SeqCst);
        s.asserts_sym.fetch_add(self.asserts_sym, SeqCst);
        let t = self.solver.stats;
        s.z3.fetch_add(t.z3, SeqCst);
        s.z3_ns.fetch_add(t.z3_ns, SeqCst);
        s.sat.fetch_add(t.sat, SeqCst);
        s.unsat.fetch_add(t.unsat, SeqCst);
        s.unknown.fetch_add(t.unknown, SeqCst);
        s.domain.fetch_add(t.domain, SeqCst);
        s.csp.fetch_add(t.csp, SeqCst);
        s.xchk.fetch_add(t.xchk, SeqCst);
        s.cache.fetch_add(t.cache, SeqCst);
        let mut out = String::new();
        for c in &self.called {
            out.push_str(&format!("fn {}\n", self.m.funcs[*c as usize].name));
        }
        for (c, n) in &self.covers {
            out.push_str(&format!("cover {} {}\n", n, c));
        }
        for c in &self.asserted {
            out.push_str(&format!("assert {}\n", c));
        }
        for c in &self.unsup_msgs {
            out.push_str(&format!("unsup {}\n", c));
        }
        let mut fs: Vec<_> = self.fork_sites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, ip), n) in fs.into_iter().take(40) {
            out.push_str(&format!("site {} {} {}\n", n, ip, self.m.funcs[*f as usize].name));
        }
        let _ = std::fs::write(format!("{}/part.{}", self.cfg.outdir, std::process::id()), out);
    }

    // ---------------------------------------------------------------- interpreter
    #[inline]
    fn goto(&mut self, st: &mut State, e: &'static Edge) {
        let fr = st.frames.last_mut().unwrap();
        fr.ip = e.target;
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, o) = &e.moves[0];
                let v = Self::op(fr, o);
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = e.moves.iter().map(|(_, o)| Self::op(fr, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    fn binop(&mut self, st: &mut State, op: BinOp, ty: &Ty, w: u8, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sx = |v: u64| -> i64 { ((v << (64 - w as u32)) as i64) >> (64 - w as u32) };
            if w > 0 && w <= 64 {
                return Ok(Val::I(match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64 & m,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if y == 0 {
                            return Err(End::Error("div".into(), "division by zero".into()));
                        }
                        match op {
                            BinOp::UDiv => x / y,
                            BinOp::URem => x % y,
                            BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u64 & m,
                            _ => sx(x).wrapping_rem(sx(y)) as u64 & m,
                        }
                    }
                    _ => {
                        if *ty == Ty::F64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            match op {
                                BinOp::FAdd => p + q,
                                BinOp::FSub => p - q,
                                BinOp::FMul => p * q,
                                BinOp::FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            match op {
                                BinOp::FAdd => p + q,
                                BinOp::FSub => p - q,
                                BinOp::FMul => p * q,
                                BinOp::FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits() as u64
                        }
                    }
                }));
            }
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = match ty {
                Ty::Vector(_, e) => (**e).clone(),
                _ => return Err(End::Unsupported("binop on aggregate".into())),
            };
            let ew = et.width();
            let mut out = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                out.push(self.binop(st, op, &et, ew, p, q)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => return Err(End::Unsupported("symbolic floating point".into())),
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let y = self.ex(b, w);
            let z = self.pool.cst(0, w);
            let c = self.pool.eq(y, z);
            if self.decide(st, c)? {
                return Err(End::Error("div".into(), "division by zero".into()));
            }
        }
        Ok(self.bin_e(o, a, b, w))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, w: u8, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| -> i64 { ((v << (64 - w as u32)) as i64) >> (64 - w as u32) };
            return Ok(Val::I(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            } as u64));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = match ty {
                Ty::Vector(_, e) => (**e).clone(),
                _ => return Err(End::Unsupported("icmp on aggregate".into())),
            };
            let ew = et.width();
            let mut out = vec![];
            for (q, r) in x.iter().zip(y.iter()) {
                out.push(self.icmp(p, &et, ew, q, r)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.pool.eq(x, y),
            Pred::Ne => {
                let t = self.pool.eq(x, y);
                self.pool.not(t)
            }
            Pred::Ult => self.pool.bin(Op::Ult, x, y),
            Pred::Ule => self.pool.bin(Op::Ule, x, y),
            Pred::Ugt => self.pool.bin(Op::Ult, y, x),
            Pred::Uge => self.pool.bin(Op::Ule, y, x),
            Pred::Slt => self.pool.bin(Op::Slt, x, y),
            Pred::Sle => self.pool.bin(Op::Sle, x, y),
            Pred::Sgt => self.pool.bin(Op::Slt, y, x),
            Pred::Sge => self.pool.bin(Op::Sle, y, x),
        };
        Ok(self.vl(e))
    }

    /// Execute one instruction; Ok(false) when the entry function has returned.
    fn step(&mut self, st: &mut State) -> R<bool> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let inst: &'static Inst = &f.code[fr.ip as usize];
        if self.cfg.trace {
            eprintln!("{} {} {:?}", demangle(&f.name), fr.ip, inst);
        }
        match inst {
            Inst::Bin { op, ty, w, d, a, b } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let v = self.binop(st, *op, ty, *w, &x, &y)?;
                let v = self.settle(st, v, *w)?;
                self.set(st, *d, v);
            }
            Inst::ICmp { p, ty, w, d, a, b } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let v = self.icmp(*p, ty, *w, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::FCmp { p, ty, d, a, b } => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let (Val::I(x), Val::I(y)) = (x, y) else {
                    return Err(End::Unsupported("symbolic floating point".into()));
                };
                let (x, y) = if *ty == Ty::F64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, Val::I(r as u64));
            }
            Inst::FNeg { ty, d, a } => {
                let Val::I(x) = Self::op(fr, a) else {
                    return Err(End::Unsupported("symbolic floating point".into()));
                };
                let r = if *ty == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) };
                self.set(st, *d, Val::I(r));
            }
            Inst::Select { ty, d, c, a, b } => {
                let cv = Self::op(fr, c);
                match cv {
                    Val::I(x) => {
                        let v = Self::op(fr, if x != 0 { a } else { b });
                        self.set(st, *d, v);
                    }
                    Val::X(e) => {
                        if matches!(ty, Ty::Int(_)) {
                            let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                            let w = ty.width();
                            let x = self.ex(&x, w);
                            let y = self.ex(&y, w);
                            let r = self.pool.ite(e, x, y);
                            let v = self.vl(r);
                            let v = self.settle(st, v, w)?;
                            self.set(st, *d, v);
                        } else {
                            let t = self.decide(st, e)?;
                            let fr = st.frames.last().unwrap();
                            let v = Self::op(fr, if t { a } else { b });
                            self.set(st, *d, v);
                        }
                    }
                    _ => return Err(End::Unsupported("select".into())),
                }
            }
            Inst::Cast { k, from, to, d, a } => {
                let x = Self::op(fr, a);
                let v = self.cast(*k, from, to, &x)?;
                self.set(st, *d, v);
            }
            Inst::Gep { d, base, off, terms } => {
                let b = Self::op(fr, base);
                let mut conc = *off as u64;
                let mut syms: Vec<(Val, u8, i64)> = vec![];
                for (o, w, s) in terms {
                    match Self::op(fr, o) {
                        Val::I(x) => conc = conc.wrapping_add((sext(x as u128, *w) as i64).wrapping_mul(*s) as u64),
                        v => syms.push((v, *w, *s)),
                    }
                }
                if let (Val::I(x), true) = (&b, syms.is_empty()) {
                    let v = Val::I(x.wrapping_add(conc));
                    self.set(st, *d, v);
                } else {
                    let mut e = self.ex(&b, 64);
                    for (v, w, s) in syms {
                        let mut x = self.ex(&v, w);
                        if w < 64 {
                            x = self.pool.sext(x, 64);
                        }
                        let t = if (s as u64).is_power_of_two() {
                            let k = self.pool.cst((s as u64).trailing_zeros() as u128, 64);
                            self.pool.bin(Op::Shl, x, k)
                        } else {
                            let k = self.pool.cst(s as u64 as u128, 64);
                            self.pool.bin(Op::Mul, x, k)
                        };
                        e = self.pool.bin(Op::Add, e, t);
                    }
                    let k = self.pool.cst(conc as u128, 64);
                    e = self.pool.bin(Op::Add, e, k);
                    let v = self.vl(e);
                    self.set(st, *d, v);
                }
            }
            Inst::Load { d, ty, p } => {
                let p = Self::op(fr, p);
                let v = self.load(st, &p, ty)?;
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let (v, p) = (Self::op(fr, v), Self::op(fr, p));
                self.store(st, &p, ty, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Alloca { d, size, n } => {
                let Val::I(n) = Self::op(fr, n) else {
                    return Err(End::Unsupported("alloca".into()));
                };
                let id = st.mem.alloc(size * n);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(id);
                self.set(st, *d, Val::I(addr(id)));
            }
            Inst::Extract { d, a, idx } => {
                let mut v = Self::op(fr, a);
                for i in idx {
                    let Val::A(x) = &v else { return Err(End::Unsupported("extractvalue".into())) };
                    let y = x[*i as usize].clone();
                    v = y;
                }
                self.set(st, *d, v);
            }
            Inst::Insert { d, a, aty, v, idx } => {
                let mut agg = Self::op(fr, a);
                let val = Self::op(fr, v);
                if !matches!(agg, Val::A(_)) {
                    agg = cst_val(aty, &Cst::Zero);
                }
                fn ins(agg: &mut Val, idx: &[u32], v: Val) {
                    if let Val::A(r) = agg {
                        let r = Rc::make_mut(r);
                        if idx.len() == 1 {
                            r[idx[0] as usize] = v;
                        } else {
                            ins(&mut r[idx[0] as usize], &idx[1..], v);
                        }
                    }
                }
                ins(&mut agg, idx, val);
                self.set(st, *d, agg);
            }
            Inst::ExtElt { d, a, i, .. } => {
                let v = Self::op(fr, a);
                let (Val::A(v), Val::I(i)) = (v, Self::op(fr, i)) else {
                    return Err(End::Unsupported("extractelement".into()));
                };
                self.set(st, *d, v[i as usize].clone());
            }
            Inst::InsElt { d, a, v, i, n, ety } => {
                let mut agg = Self::op(fr, a);
                if !matches!(agg, Val::A(_)) {
                    agg = cst_val(&Ty::Vector(*n, Rc::new(ety.clone())), &Cst::Zero);
                }
                let val = Self::op(fr, v);
                let (Val::A(r), Val::I(i)) = (&mut agg, Self::op(fr, i)) else {
                    return Err(End::Unsupported("insertelement".into()));
                };
                Rc::make_mut(r)[i as usize] = val;
                self.set(st, *d, agg);
            }
            Inst::Shuffle { d, a, b, n, mask, .. } => {
                let (Val::A(x), Val::A(y)) = (Self::op(fr, a), Self::op(fr, b)) else {
                    return Err(End::Unsupported("shufflevector".into()));
                };
                let mut out = vec![];
                for &k in mask {
                    let k = k as u64;
                    out.push(if k < *n { x[k as usize].clone() } else { y[(k - n) as usize].clone() });
                }
                self.set(st, *d, Val::A(Rc::new(out)));
            }
            Inst::Br(e) => self.goto(st, e),
            Inst::CondBr { c, t, f } => {
                let cv = Self::op(fr, c);
                let go = match cv {
                    Val::I(x) => x != 0,
                    Val::X(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                self.goto(st, if go { t } else { f });
            }
            Inst::Switch { w, v, cases, edges, groups } => {
                let vv = Self::op(fr, v);
                match vv {
                    Val::I(x) => {
                        let k = cases.iter().find(|(c, _)| *c == x as u128).map(|(_, k)| *k).unwrap_or(0);
                        self.goto(st, &edges[k as usize]);
                    }
                    Val::Big(x) => {
                        let k = cases.iter().find(|(c, _)| *c == *x).map(|(_, k)| *k).unwrap_or(0);
                        self.goto(st, &edges[k as usize]);
                    }
                    Val::X(e) => {
                        for (k, g) in groups.iter().enumerate().skip(1) {
                            let mut s = g.clone();
                            s.sort();
                            let mut cond = self.pool.f;
                            let mut i = 0;
                            while i < s.len() {
                                let lo = s[i];
                                while i + 1 < s.len() && s[i + 1] == s[i] + 1 {
                                    i += 1;
                                }
                                let hi = s[i];
                                let lk = self.pool.cst(lo, *w);
                                let t = if lo == hi {
                                    self.pool.eq(e, lk)
                                } else {
                                    let df = self.pool.bin(Op::Sub, e, lk);
                                    let n = self.pool.cst(hi - lo, *w);
                                    self.pool.bin(Op::Ule, df, n)
                                };
                                cond = self.pool.or(cond, t);
                                i += 1;
                            }
                            if self.decide(st, cond)? {
                                self.goto(st, &edges[k]);
                                return Ok(true);
                            }
                        }
                        self.goto(st, &edges[0]);
                    }
                    _ => panic!(),
                }
            }
            Inst::Ret(v) => {
                let rv = v.as_ref().map(|v| Self::op(fr, v));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.release(a);
                }
                if self.regpool.len() < 64 {
                    self.regpool.push(fr.regs);
                }
                match st.frames.last_mut() {
                    None => return Ok(false),
                    Some(c) => {
                        c.ip += 1;
                        if let (Some(d), Some(v)) = (fr.ret, rv) {
                            c.regs[d as usize] = v;
                        }
                    }
                }
            }
            Inst::Unreachable => return Err(End::Error("ub".into(), "reached an unreachable instruction".into())),
            Inst::AtomicRmw { d, op, ty, p, v } => {
                let (p, v) = (Self::op(fr, p), Self::op(fr, v));
                let p = Val::I(self.concretize(st, &p, 64)?);
                let old = self.load(st, &p, ty)?;
                let w = ty.width();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin_e(Op::Add, &old, &v, w),
                    "sub" => self.bin_e(Op::Sub, &old, &v, w),
                    "and" => self.bin_e(Op::And, &old, &v, w),
                    "or" => self.bin_e(Op::Or, &old, &v, w),
                    "xor" => self.bin_e(Op::Xor, &old, &v, w),
                    _ => return Err(End::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store(st, &p, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let (p, c, n) = (Self::op(fr, p), Self::op(fr, c), Self::op(fr, n));
                let p = Val::I(self.concretize(st, &p, 64)?);
                let old = self.load(st, &p, ty)?;
                let w = ty.width();
                let (x, y) = (self.ex(&old, w), self.ex(&c, w));
                let e = self.pool.eq(x, y);
                let t = self.decide(st, e)?;
                if t {
                    self.store(st, &p, ty, &n)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(t as u64)])));
            }
            Inst::Copy { d, a } => {
                let v = Self::op(fr, a);
                self.set(st, *d, v);
            }
            Inst::Fence => st.frames.last_mut().unwrap().ip += 1,
            Inst::Bad(s) => return Err(End::Unsupported(format!("instruction {}", s))),
            Inst::Call { d, callee, args, ret } => return self.call(st, *d, callee, args, ret),
        }
        Ok(true)
    }

    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if let (Val::A(xs), Ty::Vector(n, fe), Ty::Vector(m, te)) = (x, from, to) {
            if k != Cast::Bit && n == m {
                let mut out = vec![];
                for v in xs.iter() {
                    out.push(self.cast(k, fe, te, v)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let (fw, tw) = (from.width(), to.width());
        Ok(match k {
            Cast::ZExt => match x {
                Val::I(v) if tw <= 64 => Val::I(*v),
                _ => {
                    let e = self.ex(x, fw);
                    let r = self.pool.zext(e, tw);
                    self.vl(r)
                }
            },
            Cast::SExt => match x {
                Val::I(v) if tw <= 64 => Val::I((sext(*v as u128, fw) as u128 & mask(tw)) as u64),
                _ => {
                    let e = self.ex(x, fw);
                    let r = self.pool.sext(e, tw);
                    self.vl(r)
                }
            },
            Cast::Trunc => match x {
                Val::I(v) => Val::I(v & mask(tw) as u64),
                _ => {
                    let e = self.ex(x, fw);
                    let r = self.pool.extract(e, 0, tw);
                    self.vl(r)
                }
            },
            Cast::Bit => {
                if from.is_scalar() && to.is_scalar() {
                    x.clone()
                } else if let (Val::A(xs), Ty::Vector(_, fe)) = (x, from) {
                    // vector -> scalar or vector of another shape, through a bit string
                    let ew = fe.width();
                    let mut e = 0;
                    let mut first = true;
                    for v in xs.iter() {
                        let y = self.ex(v, ew);
                        e = if first { y } else { self.pool.concat(y, e) };
                        first = false;
                    }
                    match to {
                        Ty::Vector(n, te) => {
                            let w = te.width();
                            let mut out = vec![];
                            for i in 0..*n {
                                let y = self.pool.extract(e, (i as u8) * w, w);
                                out.push(self.vl(y));
                            }
                            Val::A(Rc::new(out))
                        }
                        _ => self.vl(e),
                    }
                } else if let Ty::Vector(n, te) = to {
                    let e = self.ex(x, fw);
                    let w = te.width();
                    let mut out = vec![];
                    for i in 0..*n {
                        let y = self.pool.extract(e, (i as u8) * w, w);
                        out.push(self.vl(y));
                    }
                    Val::A(Rc::new(out))
                } else {
                    return Err(End::Unsupported("bitcast".into()));
                }
            }
            _ => {
                let Val::I(v) = x else { return Err(End::Unsupported("symbolic floating point".into())) };
                let v = *v;
                let tof = |f: f64| -> u64 {
                    if *to == Ty::F64 {
                        f.to_bits()
                    } else {
                        (f as f32).to_bits() as u64
                    }
                };
                let fv = if *from == Ty::F64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                match k {
                    Cast::UiToFp => {
                        if *to == Ty::F64 {
                            Val::I((v as f64).to_bits())
                        } else {
                            Val::I((v as f32).to_bits() as u64)
                        }
                    }
                    Cast::SiToFp => {
                        let s = sext(v as u128, fw) as i64;
                        if *to == Ty::F64 {
                            Val::I((s as f64).to_bits())
                        } else {
                            Val::I((s as f32).to_bits() as u64)
                        }
                    }
                    Cast::FpToUi => Val::I(fv as u64 & mask(tw) as u64),
                    Cast::FpToSi => Val::I(fv as i64 as u64 & mask(tw) as u64),
                    _ => Val::I(tof(fv)),
                }
            }
        })
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &'static Callee, args: &'static [(Ty, Opn)], ret: &'static Ty) -> R<bool> {
        let id = match callee {
            Callee::Fn(i) => *i,
            Callee::Asm => {
                let fr = st.frames.last_mut().unwrap();
                fr.ip += 1;
                if let Some(d) = d {
                    fr.regs[d as usize] = cst_val(ret, &Cst::Zero);
                }
                return Ok(true);
            }
            Callee::Ind(o) => {
                let fr = st.frames.last().unwrap();
                let v = Self::op(fr, o);
                let a = self.concretize(st, &v, 64)?;
                if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(self.fault(format!("call of {:#x}", a)));
                }
                ((a - FBASE) / 16) as u32
            }
        };
        let b = self.bi[id as usize];
        if b == Bi::No {
            let f = self.func(id).unwrap();
            if st.frames.len() > 3000 {
                return Err(End::Error("stack".into(), "call depth over 3000".into()));
            }
            self.called.insert(id);
            let mut regs = self.regpool.pop().unwrap_or_default();
            regs.clear();
            regs.resize(f.nregs as usize, Val::I(0));
            let fr = st.frames.last().unwrap();
            for (i, (_, o)) in args.iter().enumerate() {
                if i < f.params.len() {
                    regs[f.params[i] as usize] = Self::op(fr, o);
                }
            }
            st.frames.push(Frame { f, ip: 0, regs, ret: d, allocas: vec![] });
            return Ok(true);
        }
        let fr = st.frames.last().unwrap();
        let av: Vec<Val> = args.iter().map(|(_, o)| Self::op(fr, o)).collect();
        let r = self.builtin(st, b, id, args, &av, ret)?;
        let fr = st.frames.last_mut().unwrap();
        fr.ip += 1;
        if let (Some(d), Some(v)) = (d, r) {
            fr.regs[d as usize] = v;
        }
        Ok(true)
    }

    fn builtin(&mut self, st: &mut State, b: Bi, id: u32, args: &[(Ty, Opn)], av: &[Val], ret: &Ty) -> R<Option<Val>> {
        let name = self.m.funcs[id as usize].name;
        Ok(match b {
            Bi::No => unreachable!(),
            Bi::Nop => None,
            Bi::Panic => {
                return Err(End::Error("panic".into(), demangle(name)));
            }
            Bi::Abort => return Err(End::Error("abort".into(), name.into())),
            Bi::Alloc | Bi::AllocZ => {
                let n = self.concretize(st, &av[0], 64)?;
                if n > 1 << 28 {
                    return Err(End::Error("alloc".into(), format!("allocation of {} bytes", n)));
                }
                let o = st.mem.alloc(n);
                Some(Val::I(addr(o)))
            }
            Bi::Dealloc => {
                let p = self.concretize(st, &av[0], 64)?;
                let (o, off) = self.locate(st, p, 0)?;
                if off != 0 || o < st.mem.nglobals {
                    return Err(self.fault("bad free".into()));
                }
                st.mem.release(o);
                None
            }
            Bi::Realloc => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[3], 64)?;
                if n > 1 << 28 {
                    return Err(End::Error("alloc".into(), format!("allocation of {} bytes", n)));
                }
                let (o, _) = self.locate(st, p, 0)?;
                let mut ob = (**st.mem.get(o).unwrap()).clone();
                ob.data.resize(n as usize, 0);
                if let Some(s) = ob.sym.take() {
                    let mut v = s.into_vec();
                    v.resize(n as usize, 0);
                    ob.sym = Some(v.into_boxed_slice());
                }
                let nid = st.mem.alloc(0);
                st.mem.set(nid, Some(Rc::new(ob)));
                st.mem.release(o);
                Some(Val::I(addr(nid)))
            }
            Bi::Memcpy => {
                let n = self.concretize(st, &av[2], 64)?;
                let dp = self.concretize(st, &av[0], 64)?;
                let sp = self.concretize(st, &av[1], 64)?;
                if n > 0 {
                    let (so, soff) = self.locate(st, sp, n)?;
                    let (dob, doff) = self.locate(st, dp, n)?;
                    let n = n as usize;
                    let src = st.mem.get(so).unwrap().clone();
                    let dst = st.mem.get_mut(dob).unwrap();
                    if dst.ro {
                        return Err(self.fault("write to a constant".into()));
                    }
                    dst.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
                    match &src.sym {
                        None => {
                            if let Some(s) = &mut dst.sym {
                                s[doff..doff + n].fill(0);
                            }
                        }
                        Some(ss) => {
                            let part = &ss[soff..soff + n];
                            if dst.sym.is_none() {
                                if part.iter().any(|x| *x != 0) {
                                    dst.sym = Some(vec![0; dst.data.len()].into_boxed_slice());
                                }
                            }
                            if let Some(s) = &mut dst.sym {
                                s[doff..doff + n].copy_from_slice(part);
                            }
                        }
                    }
                }
                if matches!(ret, Ty::Ptr) {
                    Some(Val::I(dp))
                } else {
                    None
                }
            }
            Bi::Memset => {
                let n = self.concretize(st, &av[2], 64)?;
                let dp = self.concretize(st, &av[0], 64)?;
                if n > 0 {
                    let (o, off) = self.locate(st, dp, n)?;
                    let n = n as usize;
                    let bw = args[1].0.width();
                    let ve = match &av[1] {
                        Val::I(x) => Err(*x as u8),
                        v => {
                            let e = self.ex(v, bw);
                            Ok(self.pool.extract(e, 0, 8))
                        }
                    };
                    let ob = st.mem.get_mut(o).unwrap();
                    match ve {
                        Err(c) => {
                            ob.data[off..off + n].fill(c);
                            if let Some(s) = &mut ob.sym {
                                s[off..off + n].fill(0);
                            }
                        }
                        Ok(e) => {
                            if ob.sym.is_none() {
                                ob.sym = Some(vec![0; ob.data.len()].into_boxed_slice());
                            }
                            ob.sym.as_mut().unwrap()[off..off + n].fill(e);
                        }
                    }
                }
                if matches!(ret, Ty::Ptr) {
                    Some(Val::I(dp))
                } else {
                    None
                }
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.concretize(st, &av[2], 64)?;
                let p = self.concretize(st, &av[0], 64)?;
                let q = self.concretize(st, &av[1], 64)?;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let (po, poff) = self.locate(st, p, n)?;
                let (qo, qoff) = self.locate(st, q, n)?;
                let a = st.mem.get(po).unwrap().clone();
                let c = st.mem.get(qo).unwrap().clone();
                let n = n as usize;
                if a.sym.is_none() && c.sym.is_none() {
                    let r = a.data[poff..poff + n].cmp(&c.data[qoff..qoff + n]) as i32;
                    return Ok(Some(Val::I(r as u32 as u64)));
                }
                let w = ret.width();
                if b == Bi::Bcmp {
                    let mut all = self.pool.t;
                    for i in 0..n {
                        let x = self.byte(&a, poff + i);
                        let y = self.byte(&c, qoff + i);
                        let e = self.pool.eq(x, y);
                        all = self.pool.and(all, e);
                        if self.pool.cv(all) == Some(0) {
                            break;
                        }
                    }
                    let z = self.pool.cst(0, w);
                    let o = self.pool.cst(1, w);
                    let r = self.pool.ite(all, z, o);
                    return Ok(Some(self.vl(r)));
                }
                let mut r = self.pool.cst(0, w);
                let neg = self.pool.cst(u128::MAX, w);
                let pos = self.pool.cst(1, w);
                for i in (0..n).rev() {
                    let x = self.byte(&a, poff + i);
                    let y = self.byte(&c, qoff + i);
                    let lt = self.pool.bin(Op::Ult, x, y);
                    let gt = self.pool.bin(Op::Ult, y, x);
                    let t = self.pool.ite(gt, pos, r);
                    r = self.pool.ite(lt, neg, t);
                }
                Some(self.vl(r))
            }
            Bi::Strlen => {
                let p = self.concretize(st, &av[0], 64)?;
                let (o, off) = self.locate(st, p, 1)?;
                let ob = st.mem.get(o).unwrap();
                let k = ob.data[off..].iter().position(|c| *c == 0).unwrap_or(0);
                Some(Val::I(k as u64))
            }
            Bi::Write => {
                let n = self.concretize(st, &av[2], 64)?;
                Some(Val::I(n))
            }
            Bi::Fill => {
                let n = self.concretize(st, &av[1], 64)?;
                Some(Val::I(n))
            }
            Bi::RetZero => {
                if *ret == Ty::Void {
                    None
                } else {
                    Some(Val::I(0))
                }
            }
            Bi::Unknown => return Err(End::Unsupported(format!("external function {}", name))),
            Bi::SymVar => {
                // __sym_var(bits, name, len) -> u64
                let bits = self.concretize(st, &av[0], 64)? as u8;
                let p = self.concretize(st, &av[1], 64)?;
                let l = self.concretize(st, &av[2], 64)?;
                let nm = String::from_utf8_lossy(&self.conc_bytes(st, p, l)?).into_owned();
                let k = st.inputs.len();
                let key = format!("{}#{}", nm, k);
                let v = self.pool_var(&key, bits);
                Rc::make_mut(&mut st.inputs).push(v);
                st.pc.ensure(&self.pool);
                // a fresh variable of this path: reset whatever a sibling path left in the tables
                let e = self.pool.var(v);
                let z = self.pool.zext(e, 64);
                Some(self.vl(z))
            }
            Bi::SymAssume => {
                let w = args[0].0.width();
                let e = self.ex(&av[0], w);
                let z = self.pool.cst(0, w);
                let q = self.pool.eq(e, z);
                let c = self.pool.not(q);
                match self.pool.cv(c) {
                    Some(0) => return Err(End::Assumed),
                    Some(_) => return Ok(None),
                    None => {}
                }
                match self.solver.split(&mut self.pool, &mut st.pc, c) {
                    Split::True => {}
                    Split::False => return Err(End::Assumed),
                    Split::Unknown => return Err(End::Unsupported("solver gave up".into())),
                    Split::Both { on_true, .. } => self.solver.add(&mut self.pool, &mut st.pc, c, on_true),
                }
                None
            }
            Bi::SymAssert => {
                let w = args[0].0.width();
                let e = self.ex(&av[0], w);
                let z = self.pool.cst(0, w);
                let q = self.pool.eq(e, z);
                let c = self.pool.not(q);
                let p = self.concretize(st, &av[1], 64)?;
                let l = self.concretize(st, &av[2], 64)?;
                let msg = String::from_utf8_lossy(&self.conc_bytes(st, p, l)?).into_owned();
                if !self.asserted.contains(&msg) {
                    self.asserted.insert(msg.clone());
                }
                st.asserts += 1;
                if self.pool.cv(c).is_none() {
                    self.asserts_sym += 1;
                }
                match self.pool.cv(c) {
                    Some(0) => return Err(End::Error("assert".into(), msg)),
                    Some(_) => return Ok(None),
                    None => {}
                }
                match self.solver.split(&mut self.pool, &mut st.pc, c) {
                    Split::True => {}
                    Split::Unknown => return Err(End::Unsupported("solver gave up".into())),
                    Split::False => return Err(End::Error("assert".into(), msg)),
                    Split::Both { on_true, on_false } => {
                        let mut bad = st.clone();
                        let nc = self.pool.not(c);
                        self.solver.add(&mut self.pool, &mut bad.pc, nc, on_false);
                        self.finish(bad, End::Error("assert".into(), msg));
                        self.solver.add(&mut self.pool, &mut st.pc, c, on_true);
                    }
                }
                None
            }
            Bi::SymChoose => {
                // __sym_choose(n, name, len) -> concrete value below n, one path for each
                let n = self.concretize(st, &av[0], 64)?;
                let p = self.concretize(st, &av[1], 64)?;
                let l = self.concretize(st, &av[2], 64)?;
                let nm = String::from_utf8_lossy(&self.conc_bytes(st, p, l)?).into_owned();
                if n == 0 {
                    return Err(End::Assumed);
                }
                if n > 256 {
                    return Err(End::Unsupported("choose over 256".into()));
                }
                let k = st.inputs.len();
                let key = format!("{}#{}", nm, k);
                let v = self.pool_var(&key, 8);
                st.pc.ensure(&self.pool);
                let mut dom = [0u64; 4];
                for i in 0..n as usize {
                    dom[i >> 6] |= 1 << (i & 63);
                }
                // one state per value, the current one takes 0
                for x in (1..n).rev() {
                    let mut o = st.clone();
                    o.forks += 1;
                    Rc::make_mut(&mut o.inputs).push(v);
                    let mut dd = [0u64; 4];
                    dd[x as usize >> 6] |= 1 << (x & 63);
                    Rc::make_mut(&mut o.pc.dom)[v as usize] = dd;
                    Rc::make_mut(&mut o.pc.model)[v as usize] = x;
                    let dreg = match &o.frames.last().unwrap().f.code[o.frames.last().unwrap().ip as usize] {
                        Inst::Call { d, .. } => *d,
                        _ => None,
                    };
                    let fr = o.frames.last_mut().unwrap();
                    fr.ip += 1;
                    if let Some(d) = dreg {
                        fr.regs[d as usize] = Val::I(x);
                    }
                    self.push_fork(o);
                }
                Rc::make_mut(&mut st.inputs).push(v);
                let mut dd = [0u64; 4];
                dd[0] = 1;
                Rc::make_mut(&mut st.pc.dom)[v as usize] = dd;
                Rc::make_mut(&mut st.pc.model)[v as usize] = 0;
                Some(Val::I(0))
            }
            Bi::SymConc => {
                let x = self.concretize(st, &av[0], 64)?;
                Some(Val::I(x))
            }
            Bi::SymParam => {
                let p = self.concretize(st, &av[0], 64)?;
                let l = self.concretize(st, &av[1], 64)?;
                let nm = String::from_utf8_lossy(&self.conc_bytes(st, p, l)?).into_owned();
                let d = self.concretize(st, &av[2], 64)?;
                Some(Val::I(self.cfg.params.get(&nm).copied().unwrap_or(d)))
            }
            Bi::SymIsSym => Some(Val::I(matches!(av[0], Val::X(_)) as u64)),
            Bi::SymObs => {
                let p = self.concretize(st, &av[0], 64)?;
                let l = self.concretize(st, &av[1], 64)?;
                if l > 0 {
                    let (o, off) = self.locate(st, p, l)?;
                    let ob = st.mem.get(o).unwrap().clone();
                    for i in 0..l as usize {
                        let e = self.byte(&ob, off + i);
                        let v = self.vl(e);
                        Rc::make_mut(&mut st.obs).push(v);
                    }
                }
                None
            }
            Bi::SymCover => {
                let p = self.concretize(st, &av[0], 64)?;
                let l = self.concretize(st, &av[1], 64)?;
                let msg = String::from_utf8_lossy(&self.conc_bytes(st, p, l)?).into_owned();
                *self.covers.entry(msg).or_insert(0) += 1;
                None
            }
            Bi::Llvm(l) => Some(self.llvm(st, l, name, args, av, ret)?),
        })
    }
    fn pool_var(&mut self, key: &str, bits: u8) -> u32 {
        let k = format!("{}:{}", key, bits);
        thread_local! { static NAMES: std::cell::RefCell<HashMap<String, u32>> = Default::default(); }
        if let Some(v) = NAMES.with(|n| n.borrow().get(&k).copied()) {
            return v;
        }
        let v = self.pool.new_var(key.to_string(), bits);
        NAMES.with(|n| n.borrow_mut().insert(k, v));
        v
    }

    fn llvm(&mut self, st: &mut State, l: Ll, name: &str, args: &[(Ty, Opn)], av: &[Val], ret: &Ty) -> R<Val> {
        // element-wise on vectors
        if let (Val::A(x), Ty::Vector(_, et)) = (&av[0], &args[0].0) {
            let x = x.clone();
            match l {
                Ll::AndReduce | Ll::OrReduce => {
                    let w = et.width();
                    let mut r = x[0].clone();
                    for v in x.iter().skip(1) {
                        r = self.bin_e(if l == Ll::AndReduce { Op::And } else { Op::Or }, &r, v, w);
                    }
                    return Ok(r);
                }
                _ => {}
            }
            let rt = match ret {
                Ty::Vector(_, r) => (**r).clone(),
                _ => return Err(End::Unsupported(format!("vector intrinsic {}", name))),
            };
            let mut out = vec![];
            for i in 0..x.len() {
                let ea: Vec<Val> = av
                    .iter()
                    .map(|a| match a {
                        Val::A(v) => v[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let at: Vec<(Ty, Opn)> = args
                    .iter()
                    .map(|(t, o)| match t {
                        Ty::Vector(_, e) => ((**e).clone(), o.clone()),
                        _ => (t.clone(), o.clone()),
                    })
                    .collect();
                out.push(self.llvm(st, l, name, &at, &ea, &rt)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = args[0].0.width();
        let b1 = |x: bool| Val::I(x as u64);
        let pair = |a: Val, b: Val| Val::A(Rc::new(vec![a, b]));
        let m = mask(w);
        let conc = av.iter().all(|v| !matches!(v, Val::X(_)));
        let g = |v: &Val| match v {
            Val::I(x) => *x as u128,
            Val::Big(x) => **x,
            _ => 0,
        };
        let mk = |v: u128, w: u8| if w <= 64 { Val::I(v as u64) } else { Val::Big(Rc::new(v)) };
        if conc {
            let x = g(&av[0]);
            let y = av.get(1).map(g).unwrap_or(0);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return Ok(match l {
                Ll::AddO(s) => {
                    let r = x.wrapping_add(y) & m;
                    let o = if s { sext(r, w) != sx.wrapping_add(sy) || (w == 128 && sx.checked_add(sy).is_none()) } else { r < x };
                    pair(mk(r, w), b1(o))
                }
                Ll::SubO(s) => {
                    let r = x.wrapping_sub(y) & m;
                    let o = if s { sext(r, w) != sx.wrapping_sub(sy) || (w == 128 && sx.checked_sub(sy).is_none()) } else { x < y };
                    pair(mk(r, w), b1(o))
                }
                Ll::MulO(s) => {
                    let r = x.wrapping_mul(y) & m;
                    let o = if s {
                        match sx.checked_mul(sy) {
                            None => true,
                            Some(p) => sext(r, w) != p,
                        }
                    } else {
                        match x.checked_mul(y) {
                            None => true,
                            Some(p) => p > m,
                        }
                    };
                    pair(mk(r, w), b1(o))
                }
                Ll::AddSat(false) => {
                    let r = x.wrapping_add(y) & m;
                    mk(if r < x { m } else { r }, w)
                }
                Ll::SubSat(false) => mk(if x < y { 0 } else { x - y }, w),
                Ll::AddSat(true) | Ll::SubSat(true) => {
                    let t = if l == Ll::AddSat(true) { sx.saturating_add(sy) } else { sx.saturating_sub(sy) };
                    let hi = (m >> 1) as i128;
                    let lo = -hi - 1;
                    mk(t.clamp(lo, hi) as u128 & m, w)
                }
                Ll::Min(s) => mk(if (s && sx < sy) || (!s && x < y) { x } else { y }, w),
                Ll::Max(s) => mk(if (s && sx > sy) || (!s && x > y) { x } else { y }, w),
                Ll::Abs => mk(sx.wrapping_abs() as u128 & m, w),
                Ll::Ctpop => mk(x.count_ones() as u128, w),
                Ll::Ctlz => mk(if x == 0 { w as u128 } else { (w as u32 - (128 - x.leading_zeros())) as u128 }, w),
                Ll::Cttz => mk(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, w),
                Ll::Bswap => mk(x.swap_bytes() >> (128 - w as u32), w),
                Ll::Bitrev => mk(x.reverse_bits() >> (128 - w as u32), w),
                Ll::Fshl | Ll::Fshr => {
                    let s = (g(&av[2]) % w as u128) as u32;
                    let r = if l == Ll::Fshl {
                        if s == 0 {
                            x
                        } else {
                            ((x << s) | (y >> (w as u32 - s))) & m
                        }
                    } else if s == 0 {
                        y
                    } else {
                        ((x << (w as u32 - s)) | (y >> s)) & m
                    };
                    mk(r, w)
                }
                Ll::First => av[0].clone(),
                Ll::Cmp(s) => {
                    let rw = ret.width();
                    let o = if s { sx.cmp(&sy) } else { x.cmp(&y) };
                    mk((o as i32 as i128 as u128) & mask(rw), rw)
                }
                Ll::PtrMask => mk(x & y, w),
                Ll::Zero => mk(0, ret.width()),
                Ll::AndReduce | Ll::OrReduce => return Err(End::Unsupported(name.into())),
            });
        }
        let x = self.ex(&av[0], w);
        let p = &mut self.pool;
        let vl = |p: &Pool, e: E| match p.cv(e) {
            Some(v) if p.w(e) <= 64 => Val::I(v as u64),
            Some(v) => Val::Big(Rc::new(v)),
            None => Val::X(e),
        };
        if matches!(l, Ll::First) {
            return Ok(vl(p, x));
        }
        if matches!(l, Ll::Zero) {
            return Ok(Val::I(0));
        }
        let zero = p.cst(0, w);
        Ok(match l {
            Ll::Ctpop => {
                let mut r = zero;
                for i in 0..w {
                    let b = p.extract(x, i, 1);
                    let z = p.zext(b, w);
                    r = p.bin(Op::Add, r, z);
                }
                vl(p, r)
            }
            Ll::Cttz => {
                let mut r = p.cst(w as u128, w);
                for i in (0..w).rev() {
                    let b = p.extract(x, i, 1);
                    let k = p.cst(i as u128, w);
                    r = p.ite(b, k, r);
                }
                vl(p, r)
            }
            Ll::Ctlz => {
                let mut r = p.cst(w as u128, w);
                for i in 0..w {
                    let b = p.extract(x, i, 1);
                    let k = p.cst((w - 1 - i) as u128, w);
                    r = p.ite(b, k, r);
                }
                vl(p, r)
            }
            Ll::Bswap => {
                let n = w / 8;
                let mut r = p.extract(x, 0, 8);
                for i in 1..n {
                    let b = p.extract(x, i * 8, 8);
                    r = p.concat(r, b);
                }
                vl(p, r)
            }
            Ll::Abs => {
                let c = p.bin(Op::Slt, x, zero);
                let n = p.bin(Op::Sub, zero, x);
                let r = p.ite(c, n, x);
                vl(p, r)
            }
            _ => {
                let yw = args[1].0.width();
                let y = self.ex(&av[1], yw);
                let p = &mut self.pool;
                match l {
                    Ll::AddO(s) => {
                        let r = p.bin(Op::Add, x, y);
                        let o = if s {
                            let a = p.bin(Op::Xor, x, r);
                            let b = p.bin(Op::Xor, y, r);
                            let c = p.and(a, b);
                            p.extract(c, w - 1, 1)
                        } else {
                            p.bin(Op::Ult, r, x)
                        };
                        pair(vl(p, r), vl(p, o))
                    }
                    Ll::SubO(s) => {
                        let r = p.bin(Op::Sub, x, y);
                        let o = if s {
                            let a = p.bin(Op::Xor, x, y);
                            let b = p.bin(Op::Xor, x, r);
                            let c = p.and(a, b);
                            p.extract(c, w - 1, 1)
                        } else {
                            p.bin(Op::Ult, x, y)
                        };
                        pair(vl(p, r), vl(p, o))
                    }
                    Ll::MulO(s) => {
                        if w > 64 {
                            return Err(End::Unsupported("wide multiplication".into()));
                        }
                        let r = p.bin(Op::Mul, x, y);
                        let w2 = w * 2;
                        let (a, b) = if s { (p.sext(x, w2), p.sext(y, w2)) } else { (p.zext(x, w2), p.zext(y, w2)) };
                        let f = p.bin(Op::Mul, a, b);
                        let e = if s { p.sext(r, w2) } else { p.zext(r, w2) };
                        let q = p.eq(f, e);
                        let o = p.not(q);
                        pair(vl(p, r), vl(p, o))
                    }
                    Ll::AddSat(false) => {
                        let r = p.bin(Op::Add, x, y);
                        let c = p.bin(Op::Ult, r, x);
                        let mx = p.cst(m, w);
                        let r = p.ite(c, mx, r);
                        vl(p, r)
                    }
                    Ll::SubSat(false) => {
                        let r = p.bin(Op::Sub, x, y);
                        let c = p.bin(Op::Ult, x, y);
                        let r = p.ite(c, zero, r);
                        vl(p, r)
                    }
                    Ll::Min(s) => {
                        let c = p.bin(if s { Op::Slt } else { Op::Ult }, x, y);
                        let r = p.ite(c, x, y);
                        vl(p, r)
                    }
                    Ll::Max(s) => {
                        let c = p.bin(if s { Op::Slt } else { Op::Ult }, x, y);
                        let r = p.ite(c, y, x);
                        vl(p, r)
                    }
                    Ll::Cmp(s) => {
                        let rw = ret.width();
                        let lt = p.bin(if s { Op::Slt } else { Op::Ult }, x, y);
                        let eq = p.eq(x, y);
                        let (n1, z, o) = (p.cst(u128::MAX, rw), p.cst(0, rw), p.cst(1, rw));
                        let t = p.ite(eq, z, o);
                        let r = p.ite(lt, n1, t);
                        vl(p, r)
                    }
                    Ll::PtrMask => {
                        let r = p.and(x, y);
                        vl(p, r)
                    }
                    Ll::Fshl | Ll::Fshr => {
                        let s = self.concretize(st, &av[2], w)? % w as u64;
                        let p = &mut self.pool;
                        if s == 0 {
                            vl(p, if l == Ll::Fshl { x } else { y })
                        } else {
                            let k = if l == Ll::Fshl { s as u8 } else { w - s as u8 };
                            // (x << k) | (y >> (w-k))
                            let hi = p.extract(x, 0, w - k);
                            let lo = p.extract(y, w - k, k);
                            let r = p.concat(hi, lo);
                            vl(p, r)
                        }
                    }
                    _ => return Err(End::Unsupported(format!("symbolic {}", name))),
                }
            }
        })
    }
}

extern "C" {
    pub fn fork() -> i32;
}

/// A readable form of legacy- and v0-mangled names (path segments only).
pub fn demangle(n: &str) -> String {
    if !(n.starts_with("_ZN") || n.starts_with("_R")) {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if k > 0 && i + k <= b.len() && k < 200 {
                let mut st = i;
                if b[st] == b'_' && st + 1 + k <= b.len() {
                    st += 1;
                }
                let seg = &n[st..(st + k).min(n.len())];
                if seg.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') && !(k == 17 && seg.starts_with('h') && n.starts_with("_ZN")) {
                    out.push(seg);
                    i = st + k;
                    continue;
                }
                i = s + 1;
                continue;
            }
            i = s + 1;
            continue;
        }
        // skip crate disambiguators "Cs<base62>_"
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && i > 0 && (b[i - 1] == b'C') {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
