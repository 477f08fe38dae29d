//! Reader for textual LLVM IR; function bodies are decoded on first use.
use crate::expr::mask;
use crate::val::Val;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    Void,
    F16,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Void | Ty::Other => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Void | Ty::Other => 1,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn width(&self) -> u8 {
        match self {
            Ty::Int(n) => *n as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::F16 => 16,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        self.width() > 0
    }
}

#[derive(Clone, Debug)]
pub enum Opn {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub block: u32,
    pub target: u32,
    pub moves: Vec<(u32, Opn)>,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opn),
    Asm,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, w: u8, d: u32, a: Opn, b: Opn },
    ICmp { p: Pred, ty: Ty, w: u8, d: u32, a: Opn, b: Opn },
    FCmp { p: String, ty: Ty, d: u32, a: Opn, b: Opn },
    FNeg { ty: Ty, d: u32, a: Opn },
    Select { ty: Ty, d: u32, c: Opn, a: Opn, b: Opn },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opn },
    Gep { d: u32, base: Opn, off: i64, terms: Vec<(Opn, u8, i64)> },
    Load { d: u32, ty: Ty, p: Opn },
    Store { ty: Ty, v: Opn, p: Opn },
    Alloca { d: u32, size: u64, n: Opn },
    Extract { d: u32, a: Opn, idx: Vec<u32> },
    Insert { d: u32, a: Opn, aty: Ty, v: Opn, idx: Vec<u32> },
    ExtElt { d: u32, a: Opn, i: Opn, n: u64, ety: Ty },
    InsElt { d: u32, a: Opn, v: Opn, i: Opn, n: u64, ety: Ty },
    Shuffle { d: u32, a: Opn, b: Opn, n: u64, ety: Ty, mask: Vec<i64> },
    Call { d: Option<u32>, callee: Callee, args: Vec<(Ty, Opn)>, ret: Ty },
    Br(Edge),
    CondBr { c: Opn, t: Edge, f: Edge },
    Switch { w: u8, v: Opn, cases: Vec<(u128, u32)>, edges: Vec<Edge>, groups: Vec<Vec<u128>> },
    Ret(Option<Opn>),
    Unreachable,
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opn, v: Opn },
    CmpXchg { d: u32, ty: Ty, p: Opn, c: Opn, n: Opn },
    Copy { d: u32, a: Opn },
    Fence,
    Bad(String),
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
}

pub struct FuncDecl {
    pub name: &'static str,
    pub range: Option<(usize, usize)>, // header start .. end of body (excl. closing brace)
    pub body: RefCell<Option<Rc<Func>>>,
}
pub struct GlobalDecl {
    pub name: &'static str,
    pub line: (usize, usize),
    pub init_at: usize, // offset of the type in the line
    pub external: bool,
    pub constant: bool,
}

pub struct Module {
    pub src: &'static str,
    pub syms: HashMap<&'static str, Sym>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub named: HashMap<&'static str, (usize, usize)>,
    pub aliases: HashMap<&'static str, (usize, usize)>,
}
#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
    A,
}
pub const FBASE: u64 = 0xF000_0000_0000_0000;
pub fn gaddr(g: u32) -> u64 {
    (g as u64 + 1) << 32
}

pub struct Cur<'m> {
    m: &'m Module,
    s: &'static [u8],
    pub i: usize,
    end: usize,
}

pub enum Cst {
    Int(u128),
    Zero,
    Undef,
    Agg(Vec<Cst>),
    Bytes(Vec<u8>),
    Splat(Box<Cst>),
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let mut m = Module {
            src,
            syms: HashMap::new(),
            funcs: vec![],
            globals: vec![],
            named: HashMap::new(),
            aliases: HashMap::new(),
        };
        let b = src.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = memchr(b, i, b'\n');
            let line = &src[i..e];
            if line.starts_with('@') {
                let (name, p) = sym_at(src, i);
                let rest = &src[p..e];
                // rest: " = ..." keywords until global/constant/alias
                let mut c = p + 3;
                let mut external = false;
                let mut kind = "";
                loop {
                    while b[c] == b' ' {
                        c += 1;
                    }
                    let st = c;
                    while c < e && is_word(b[c]) {
                        c += 1;
                    }
                    let w = &src[st..c];
                    if c < e && b[c] == b'(' {
                        c = skip_paren(b, c);
                    }
                    match w {
                        "global" | "constant" | "alias" | "ifunc" => {
                            kind = if w == "alias" { "alias" } else if w == "constant" { "constant" } else { "global" };
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "" => break,
                        _ => {}
                    }
                }
                if kind.is_empty() {
                    panic!("global? {}", rest);
                }
                if kind == "alias" {
                    m.syms.insert(name, Sym::A);
                    m.aliases.insert(name, (c, e));
                } else {
                    let id = m.globals.len() as u32;
                    m.syms.insert(name, Sym::G(id));
                    m.globals.push(GlobalDecl { name, line: (i, e), init_at: c, external, constant: kind == "constant" });
                }
            } else if line.starts_with("define ") {
                let at = i + line.find('@').unwrap();
                let (name, _) = sym_at(src, at);
                // body until a line that is exactly "}"
                let mut j = e + 1;
                loop {
                    let k = memchr(b, j, b'\n');
                    if &b[j..k] == b"}" {
                        break;
                    }
                    j = k + 1;
                }
                let id = m.funcs.len() as u32;
                m.syms.insert(name, Sym::F(id));
                m.funcs.push(FuncDecl { name, range: Some((i, j)), body: RefCell::new(None) });
                i = j + 2;
                continue;
            } else if line.starts_with("declare ") {
                let at = i + line.find('@').unwrap();
                let (name, _) = sym_at(src, at);
                let id = m.funcs.len() as u32;
                m.syms.insert(name, Sym::F(id));
                m.funcs.push(FuncDecl { name, range: None, body: RefCell::new(None) });
            } else if line.starts_with('%') {
                let p = line.find(" = type ").unwrap();
                m.named.insert(&src[i..i + p], (i + p + 8, e));
            }
            i = e + 1;
        }
        m
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        match self.syms.get(name) {
            Some(Sym::F(f)) => FBASE + *f as u64 * 16,
            Some(Sym::G(g)) => gaddr(*g),
            Some(Sym::A) => {
                let (s, e) = self.aliases[name];
                let mut c = self.cur(s, e);
                c.ty();
                c.eat(",");
                let t = c.ty();
                match c.cst(&t) {
                    Cst::Int(v) => v as u64,
                    _ => panic!("alias"),
                }
            }
            None => panic!("unknown symbol {}", name),
        }
    }
    pub fn cur(&self, s: usize, e: usize) -> Cur<'_> {
        Cur { m: self, s: self.src.as_bytes(), i: s, end: e }
    }
    /// Type size and initial bytes of a global.
    pub fn global_init(&self, g: u32) -> Vec<u8> {
        let d = &self.globals[g as usize];
        let mut c = self.cur(d.init_at, d.line.1);
        let t = c.ty();
        let mut out = vec![0u8; t.size() as usize];
        if !d.external {
            c.ws();
            if c.i < c.end && c.s[c.i] != b',' {
                let v = c.cst(&t);
                write_cst(&mut out, 0, &t, &v);
            }
        }
        out
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        let d = &self.funcs[id as usize];
        if let Some(f) = &*d.body.borrow() {
            return Some(f.clone());
        }
        let (s, e) = d.range?;
        let f = Rc::new(decode(self, id, d.name, s, e));
        *d.body.borrow_mut() = Some(f.clone());
        Some(f)
    }
}

fn memchr(b: &[u8], mut i: usize, c: u8) -> usize {
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
fn skip_paren(b: &[u8], mut i: usize) -> usize {
    let mut d = 0;
    loop {
        match b[i] {
            b'(' => d += 1,
            b')' => {
                d -= 1;
                if d == 0 {
                    return i + 1;
                }
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
}
fn sym_at(src: &'static str, at: usize) -> (&'static str, usize) {
    let b = src.as_bytes();
    if b[at + 1] == b'"' {
        let e = memchr(b, at + 2, b'"');
        (&src[at + 2..e], e + 1)
    } else {
        let mut e = at + 1;
        while e < b.len() && is_word(b[e]) {
            e += 1;
        }
        (&src[at + 1..e], e)
    }
}
pub fn write_cst(out: &mut [u8], off: usize, t: &Ty, v: &Cst) {
    match v {
        Cst::Zero | Cst::Undef => {}
        Cst::Int(x) => {
            let n = t.size().min(16) as usize;
            let bits = t.width();
            let x = x & mask(bits);
            let by = x.to_le_bytes();
            let n = n.min(((bits as usize) + 7) / 8);
            out[off..off + n].copy_from_slice(&by[..n]);
        }
        Cst::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
        Cst::Agg(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = t.field_off(i as u64);
                write_cst(out, off + o as usize, &ft, x);
            }
        }
        Cst::Splat(x) => {
            if let Ty::Vector(n, _) = t {
                for i in 0..*n {
                    let (o, ft) = t.field_off(i);
                    write_cst(out, off + o as usize, &ft, x);
                }
            }
        }
    }
}
pub fn cst_val(t: &Ty, v: &Cst) -> Val {
    match t {
        Ty::Struct(f, _) => {
            let mut out = vec![];
            for (i, ft) in f.iter().enumerate() {
                out.push(match v {
                    Cst::Agg(a) => cst_val(ft, &a[i]),
                    _ => cst_val(ft, &Cst::Zero),
                });
            }
            Val::A(Rc::new(out))
        }
        Ty::Arr(n, et) | Ty::Vector(n, et) => {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(match v {
                    Cst::Agg(a) => cst_val(et, &a[i]),
                    Cst::Bytes(b) => Val::I(b[i] as u64),
                    Cst::Splat(x) => cst_val(et, x),
                    _ => cst_val(et, &Cst::Zero),
                });
            }
            Val::A(Rc::new(out))
        }
        _ => match v {
            Cst::Int(x) => {
                let w = t.width();
                if w <= 64 {
                    Val::I((*x & mask(w)) as u64)
                } else {
                    Val::Big(Rc::new(*x & mask(w)))
                }
            }
            _ => {
                if t.width() > 64 {
                    Val::Big(Rc::new(0))
                } else {
                    Val::I(0)
                }
            }
        },
    }
}

struct FnCtx {
    regs: HashMap<&'static str, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

impl<'m> Cur<'m> {
    pub fn ws(&mut self) {
        while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.end {
            self.s[self.i]
        } else {
            0
        }
    }
    fn rest(&self) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..self.end]) }
    }
    fn try_eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.rest().starts_with(t) {
            // word boundary
            let last = t.as_bytes()[t.len() - 1];
            if is_word(last) && self.i + t.len() < self.end && is_word(self.s[self.i + t.len()]) {
                return false;
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn eat(&mut self, t: &str) {
        if !self.try_eat(t) {
            panic!("expected {:?} at {:?}", t, &self.rest()[..self.rest().len().min(120)]);
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let s = self.i;
        while self.i < self.end && is_word(self.s[self.i]) {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[s..self.i]) }
    }
    fn peek_word(&mut self) -> &'static str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("uint {:?} {:?}", w, self.rest()))
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ty::Struct(Rc::new(v), false);
                }
                loop {
                    v.push(self.ty());
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat("}");
                        break;
                    }
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'[' => {
                self.i += 1;
                let n = self.uint();
                self.eat("x");
                let t = self.ty();
                self.eat("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    if self.peek() == b'}' {
                        self.i += 1;
                    } else {
                        loop {
                            v.push(self.ty());
                            if self.peek() == b',' {
                                self.i += 1;
                            } else {
                                self.eat("}");
                                break;
                            }
                        }
                    }
                    self.eat(">");
                    return Ty::Struct(Rc::new(v), true);
                }
                let n = self.uint();
                self.eat("x");
                let t = self.ty();
                self.eat(">");
                Ty::Vector(n, Rc::new(t))
            }
            b'%' => {
                let s = self.i;
                self.local();
                let name = unsafe { std::str::from_utf8_unchecked(&self.s[s..self.i]) };
                let (a, b) = self.m.named[name];
                if self.m.src[a..b].starts_with("opaque") {
                    return Ty::Other;
                }
                self.m.cur(a, b).ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" => Ty::F16,
                    "metadata" | "label" | "token" | "fp128" | "x86_fp80" | "..." => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?}", w))),
                    _ => panic!("type {:?} at {:?}", w, &self.rest()[..self.rest().len().min(80)]),
                }
            }
        }
    }
    /// Is the next token the start of a type (as opposed to an attribute word)?
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "fp128" => true,
                    _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    fn skip_attr(&mut self) {
        self.ws();
        if self.s[self.i] == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        if self.s[self.i] == b'"' {
            self.i = memchr(self.s, self.i + 1, b'"') + 1;
            if self.peek() == b'=' {
                self.i += 1;
                self.skip_attr();
            }
            return;
        }
        let w = self.word();
        if w.is_empty() {
            panic!("attr at {:?}", &self.rest()[..self.rest().len().min(100)]);
        }
        if self.i < self.end && self.s[self.i] == b'(' {
            self.i = skip_paren(self.s, self.i);
        } else if w == "align" || w == "cc" || w == "addrspace" {
            self.word();
        }
    }
    fn local(&mut self) -> &'static str {
        self.ws();
        assert_eq!(self.s[self.i], b'%');
        let s = self.i;
        self.i += 1;
        if self.s[self.i] == b'"' {
            self.i = memchr(self.s, self.i + 1, b'"') + 1;
        } else {
            while self.i < self.end && is_word(self.s[self.i]) {
                self.i += 1;
            }
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[s + 1..self.i]) }
    }
    fn skip_param_attrs(&mut self) {
        const ATTRS: &[&str] = &[
            "noundef", "nonnull", "align", "dereferenceable", "dereferenceable_or_null", "noalias", "readonly", "readnone",
            "writeonly", "zeroext", "signext", "captures", "range", "writable", "dead_on_unwind", "sret", "byval", "nofpclass",
            "initializes", "returned", "inreg", "immarg", "nocapture", "nofree", "nest", "swiftself", "allocptr", "allocalign",
            "noext", "dead_on_return", "inalloca", "preallocated", "elementtype", "alignstack",
        ];
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            if ATTRS.contains(&w) {
                self.skip_attr();
            } else {
                return;
            }
        }
    }
    fn val(&mut self, t: &Ty, f: &mut FnCtx) -> Opn {
        if self.peek() == b'%' {
            let n = self.local();
            Opn::R(f.reg(n))
        } else {
            let c = self.cst(t);
            Opn::C(cst_val(t, &c))
        }
    }
    pub fn cst(&mut self, t: &Ty) -> Cst {
        match self.peek() {
            b'@' => {
                let (n, e) = sym_at(self.m.src, self.i);
                self.i = e;
                Cst::Int(self.m.addr_of(n) as u128)
            }
            b'{' => {
                self.i += 1;
                let v = self.cst_list(b'}');
                self.i += 1;
                Cst::Agg(v)
            }
            b'[' => {
                self.i += 1;
                let v = self.cst_list(b']');
                self.i += 1;
                Cst::Agg(v)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.cst_list(b'}');
                    self.i += 1;
                    self.eat(">");
                    return Cst::Agg(v);
                }
                let v = self.cst_list(b'>');
                self.i += 1;
                Cst::Agg(v)
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(b'\\');
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else {
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Cst::Bytes(v)
            }
            c if c == b'-' || c == b'+' || c.is_ascii_digit() => {
                self.ws();
                let s = self.i;
                while self.i < self.end && (is_word(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                let w = &self.m.src[s..self.i];
                match t {
                    Ty::F64 | Ty::F32 | Ty::F16 => Cst::Int(parse_float(w, t)),
                    _ => {
                        if let Some(n) = w.strip_prefix('-') {
                            let v: u128 = n.parse().unwrap();
                            Cst::Int(v.wrapping_neg() & mask(t.width()))
                        } else {
                            Cst::Int(w.parse().unwrap_or_else(|_| panic!("int {:?} {:?}", w, t)))
                        }
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "null" | "zeroinitializer" | "none" => Cst::Zero,
                    "undef" | "poison" => Cst::Undef,
                    "splat" => {
                        self.eat("(");
                        let et = self.ty();
                        let c = self.cst(&et);
                        self.eat(")");
                        Cst::Splat(Box::new(c))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.skip_attr();
                        }
                        self.eat("(");
                        let et = self.ty();
                        self.eat(",");
                        let pt = self.ty();
                        self.skip_param_attrs();
                        let base = match self.cst(&pt) {
                            Cst::Int(v) => v as u64,
                            _ => 0,
                        };
                        let mut off = 0i64;
                        let mut cur_ty = et.clone();
                        let mut first = true;
                        while self.peek() == b',' {
                            self.i += 1;
                            let it = self.ty();
                            let iv = match self.cst(&it) {
                                Cst::Int(v) => crate::expr::sext(v, it.width()) as i64,
                                _ => 0,
                            };
                            if first {
                                off += iv * et.size() as i64;
                                first = false;
                            } else {
                                let (o, ft) = cur_ty.field_off(0);
                                let _ = o;
                                match &cur_ty {
                                    Ty::Struct(..) => {
                                        let (o, ft) = cur_ty.field_off(iv as u64);
                                        off += o as i64;
                                        cur_ty = ft;
                                    }
                                    _ => {
                                        off += iv * ft.size() as i64;
                                        cur_ty = ft;
                                    }
                                }
                            }
                        }
                        self.eat(")");
                        Cst::Int(base.wrapping_add(off as u64) as u128)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" | "zext" | "addrspacecast" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.eat("(");
                        let ft = self.ty();
                        let v = self.cst(&ft);
                        self.eat("to");
                        let tt = self.ty();
                        self.eat(")");
                        match v {
                            Cst::Int(x) => Cst::Int(x & mask(tt.width())),
                            o => o,
                        }
                    }
                    "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.eat("(");
                        let t1 = self.ty();
                        let a = self.cst(&t1);
                        self.eat(",");
                        let t2 = self.ty();
                        let b = self.cst(&t2);
                        self.eat(")");
                        let g = |c: Cst| match c {
                            Cst::Int(x) => x,
                            _ => 0,
                        };
                        let (a, b) = (g(a), g(b));
                        let m = mask(t1.width());
                        Cst::Int(match w {
                            "add" => a.wrapping_add(b) & m,
                            "sub" => a.wrapping_sub(b) & m,
                            "mul" => a.wrapping_mul(b) & m,
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            "shl" => (a << b) & m,
                            _ => a >> b,
                        })
                    }
                    "f0x" | "inf" | "nan" | "qnan" | "snan" => Cst::Int(0),
                    "dso_local_equivalent" | "no_cfi" => self.cst(t),
                    _ => {
                        if w.starts_with("f0x") || w.starts_with("0x") {
                            return Cst::Int(parse_float(w, t));
                        }
                        panic!("const {:?} at {:?}", w, &self.rest()[..self.rest().len().min(100)])
                    }
                }
            }
        }
    }
    fn cst_list(&mut self, close: u8) -> Vec<Cst> {
        let mut v = vec![];
        if self.peek() == close {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.cst(&t));
            if self.peek() == b',' {
                self.i += 1;
            } else {
                break;
            }
        }
        assert_eq!(self.peek(), close);
        v
    }
}

fn parse_float(w: &str, t: &Ty) -> u128 {
    let v: f64 = if let Some(h) = w.strip_prefix("f0x") {
        let bits = u64::from_str_radix(h, 16).unwrap();
        return bits as u128;
    } else if let Some(h) = w.strip_prefix("0xH") {
        return u64::from_str_radix(h, 16).unwrap() as u128;
    } else if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
    } else {
        w.parse().unwrap_or(0.0)
    };
    match t {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}

struct Blk {
    phis: Vec<(u32, Vec<(Opn, &'static str)>)>,
    code: Vec<Inst>,
    label: &'static str,
}

fn decode(m: &Module, id: u32, name: &str, s: usize, e: usize) -> Func {
    let src = m.src;
    let b = src.as_bytes();
    let hdr_end = memchr(b, s, b'\n');
    let mut c = m.cur(s, hdr_end);
    let mut f = FnCtx { regs: HashMap::new() };
    // parameters
    let at = s + src[s..hdr_end].find('@').unwrap();
    let (_, p) = sym_at(src, at);
    c.i = p;
    c.eat("(");
    let mut params = vec![];
    let mut anon = 0u32;
    if c.peek() != b')' {
        loop {
            if c.try_eat("...") {
                break;
            }
            let _t = c.ty();
            c.skip_param_attrs();
            if c.peek() == b'%' {
                let n = c.local();
                params.push(f.reg(n));
            } else {
                let n: &'static str = Box::leak(format!("{}", anon).into_boxed_str());
                params.push(f.reg(n));
                anon += 1;
            }
            if c.peek() == b',' {
                c.i += 1;
            } else {
                break;
            }
        }
    }
    let mut blks: Vec<Blk> = vec![];
    let mut pos = hdr_end + 1;
    let mut labels: HashMap<&'static str, u32> = HashMap::new();
    while pos < e {
        let mut le = memchr(b, pos, b'\n');
        // multi-line switch
        let line = &src[pos..le];
        let tl = line.trim_start();
        if tl.is_empty() || tl.starts_with(';') {
            pos = le + 1;
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let p = if line.starts_with('"') { memchr(b, pos + 1, b'"') + 1 } else { pos + line.find(':').unwrap() };
            let l = &src[pos..p];
            labels.insert(l, blks.len() as u32);
            blks.push(Blk { phis: vec![], code: vec![], label: l });
            pos = le + 1;
            continue;
        }
        if blks.is_empty() {
            let l: &'static str = Box::leak(format!("{}", anon).into_boxed_str());
            labels.insert(l, 0);
            blks.push(Blk { phis: vec![], code: vec![], label: l });
        }
        if tl.starts_with("switch ") {
            // ends at the line with "  ]"
            while !src[pos..le].trim_end().ends_with(']') && !src[pos..le].contains(" ]") {
                le = memchr(b, le + 1, b'\n');
            }
        }
        if tl.starts_with("#dbg_") {
            pos = le + 1;
            continue;
        }
        let mut cur = m.cur(pos, le);
        let blk = blks.last_mut().unwrap();
        inst(&mut cur, &mut f, blk);
        pos = le + 1;
    }
    // edges carry block labels as indexes into a side table while decoding; flatten
    let mut starts = vec![];
    let mut n = 0u32;
    for bl in &blks {
        starts.push(n);
        n += bl.code.len() as u32;
    }
    let mut code = vec![];
    let phis: Vec<_> = blks.iter().map(|b| b.phis.clone()).collect();
    let nb = blks.len();
    for (bi, bl) in blks.into_iter().enumerate() {
        debug_assert!(bi < nb);
        let from = bl.label;
        for mut i in bl.code {
            let fix = |ed: &mut Edge| {
                let lab = LABELS.with(|l| l.borrow()[ed.target as usize]);
                let t = *labels.get(lab).unwrap_or_else(|| panic!("label {} in {}", lab, name));
                ed.block = t;
                ed.target = starts[t as usize];
                for (d, inc) in &phis[t as usize] {
                    let (v, _) = inc.iter().find(|(_, l)| *l == from).unwrap_or_else(|| panic!("phi in {} from {} to {}", name, from, lab));
                    if let Opn::R(r) = v {
                        if r == d {
                            continue;
                        }
                    }
                    ed.moves.push((*d, v.clone()));
                }
            };
            match &mut i {
                Inst::Br(e) => fix(e),
                Inst::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                Inst::Switch { edges, .. } => {
                    for e in edges {
                        fix(e)
                    }
                }
                _ => {}
            }
            code.push(i);
        }
    }
    LABELS.with(|l| l.borrow_mut().clear());
    Func { name: name.to_string(), id, nregs: f.regs.len() as u32, params, code }
}

thread_local! { static LABELS: RefCell<Vec<&'static str>> = RefCell::new(vec![]); }
fn edge(l: &'static str) -> Edge {
    let i = LABELS.with(|v| {
        let mut v = v.borrow_mut();
        v.push(l);
        v.len() - 1
    });
    Edge { block: 0, target: i as u32, moves: vec![] }
}

fn inst(c: &mut Cur, f: &mut FnCtx, blk: &mut Blk) {
    let start = c.i;
    let mut dst = None;
    if c.peek() == b'%' {
        let n = c.local();
        dst = Some(f.reg(n));
        c.eat("=");
    }
    let mut op = c.word();
    while matches!(op, "tail" | "musttail" | "notail") {
        op = c.word();
    }
    let d = dst.unwrap_or(u32::MAX);
    let bad = |c: &Cur| Inst::Bad(c.m.src[start..c.end].trim().to_string());
    let i = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd"
        | "fsub" | "fmul" | "fdiv" | "frem" => {
            while !c.at_type() {
                c.word();
            }
            let ty = c.ty();
            let a = c.val(&ty, f);
            c.eat(",");
            let b = c.val(&ty, f);
            let o = match op {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                _ => BinOp::FRem,
            };
            let w = ty.width();
            Inst::Bin { op: o, ty, w, d, a, b }
        }
        "fneg" => {
            while !c.at_type() {
                c.word();
            }
            let ty = c.ty();
            let a = c.val(&ty, f);
            Inst::FNeg { ty, d, a }
        }
        "icmp" => {
            let mut p = c.word();
            if p == "samesign" {
                p = c.word();
            }
            let p = match p {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => panic!("icmp {}", p),
            };
            let ty = c.ty();
            let a = c.val(&ty, f);
            c.eat(",");
            let b = c.val(&ty, f);
            let w = ty.width();
            Inst::ICmp { p, ty, w, d, a, b }
        }
        "fcmp" => {
            let mut p = c.word().to_string();
            while !c.at_type() {
                p = c.word().to_string();
            }
            let ty = c.ty();
            let a = c.val(&ty, f);
            c.eat(",");
            let b = c.val(&ty, f);
            Inst::FCmp { p, ty, d, a, b }
        }
        "select" => {
            while !c.at_type() {
                c.word();
            }
            let ct = c.ty();
            let cv = c.val(&ct, f);
            c.eat(",");
            let ty = c.ty();
            let a = c.val(&ty, f);
            c.eat(",");
            let t2 = c.ty();
            let b = c.val(&t2, f);
            if matches!(ct, Ty::Vector(..)) {
                bad(c)
            } else {
                Inst::Select { ty, d, c: cv, a, b }
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "fptoui" | "fptosi"
        | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            while !c.at_type() {
                c.word();
            }
            let from = c.ty();
            let a = c.val(&from, f);
            c.eat("to");
            let to = c.ty();
            let k = match op {
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "trunc" => Cast::Trunc,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if to.width() < from.width() {
                        Cast::Trunc
                    } else if to.width() > from.width() {
                        Cast::ZExt
                    } else {
                        Cast::Bit
                    }
                }
                "bitcast" | "addrspacecast" => Cast::Bit,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fpext" => Cast::FpExt,
                _ => Cast::FpTrunc,
            };
            Inst::Cast { k, from, to, d, a }
        }
        "getelementptr" => {
            while !c.at_type() {
                c.skip_attr();
            }
            let et = c.ty();
            c.eat(",");
            let pt = c.ty();
            let base = c.val(&pt, f);
            let mut off = 0i64;
            let mut terms: Vec<(Opn, u8, i64)> = vec![];
            let mut cur = et.clone();
            let mut first = true;
            while c.peek() == b',' {
                c.i += 1;
                if c.peek() == b'!' {
                    break;
                }
                let it = c.ty();
                let v = c.val(&it, f);
                let (scale, next) = if first {
                    (et.size() as i64, cur.clone())
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = match &v {
                                Opn::C(Val::I(k)) => *k,
                                _ => panic!("gep"),
                            };
                            let (o, ft) = cur.field_off(k);
                            off += o as i64;
                            cur = ft;
                            continue;
                        }
                        Ty::Arr(_, t) | Ty::Vector(_, t) => (t.size() as i64, (**t).clone()),
                        _ => panic!("gep into {:?}", cur),
                    }
                };
                first = false;
                cur = next;
                match v {
                    Opn::C(Val::I(k)) => off = off.wrapping_add((crate::expr::sext(k as u128, it.width()) as i64).wrapping_mul(scale)),
                    v => terms.push((v, it.width(), scale)),
                }
            }
            if matches!(pt, Ty::Vector(..)) {
                bad(c)
            } else {
                Inst::Gep { d, base, off, terms }
            }
        }
        "alloca" => {
            c.try_eat("inalloca");
            let t = c.ty();
            let mut n = Opn::C(Val::I(1));
            if c.peek() == b',' {
                let save = c.i;
                c.i += 1;
                if c.at_type() {
                    let nt = c.ty();
                    n = c.val(&nt, f);
                } else {
                    c.i = save;
                }
            }
            Inst::Alloca { d, size: t.size(), n }
        }
        "load" => {
            while !c.at_type() {
                c.word();
            }
            let ty = c.ty();
            c.eat(",");
            let pt = c.ty();
            let p = c.val(&pt, f);
            Inst::Load { d, ty, p }
        }
        "store" => {
            while !c.at_type() {
                c.word();
            }
            let ty = c.ty();
            let v = c.val(&ty, f);
            c.eat(",");
            let pt = c.ty();
            let p = c.val(&pt, f);
            Inst::Store { ty, v, p }
        }
        "atomicrmw" => {
            let mut o = c.word();
            if o == "volatile" {
                o = c.word();
            }
            let pt = c.ty();
            let p = c.val(&pt, f);
            c.eat(",");
            let ty = c.ty();
            let v = c.val(&ty, f);
            Inst::AtomicRmw { d, op: o.to_string(), ty, p, v }
        }
        "cmpxchg" => {
            while !c.at_type() {
                c.word();
            }
            let pt = c.ty();
            let p = c.val(&pt, f);
            c.eat(",");
            let ty = c.ty();
            let cc = c.val(&ty, f);
            c.eat(",");
            let t2 = c.ty();
            let n = c.val(&t2, f);
            Inst::CmpXchg { d, ty, p, c: cc, n }
        }
        "fence" => Inst::Fence,
        "extractvalue" => {
            let t = c.ty();
            let a = c.val(&t, f);
            let mut idx = vec![];
            while c.peek() == b',' {
                c.i += 1;
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.uint() as u32);
            }
            Inst::Extract { d, a, idx }
        }
        "insertvalue" => {
            let t = c.ty();
            let a = c.val(&t, f);
            c.eat(",");
            let vt = c.ty();
            let v = c.val(&vt, f);
            let mut idx = vec![];
            while c.peek() == b',' {
                c.i += 1;
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.uint() as u32);
            }
            Inst::Insert { d, a, aty: t, v, idx }
        }
        "extractelement" => {
            let t = c.ty();
            let a = c.val(&t, f);
            c.eat(",");
            let it = c.ty();
            let i = c.val(&it, f);
            match t {
                Ty::Vector(n, e) => Inst::ExtElt { d, a, i, n, ety: (*e).clone() },
                _ => bad(c),
            }
        }
        "insertelement" => {
            let t = c.ty();
            let a = c.val(&t, f);
            c.eat(",");
            let vt = c.ty();
            let v = c.val(&vt, f);
            c.eat(",");
            let it = c.ty();
            let i = c.val(&it, f);
            match t {
                Ty::Vector(n, e) => Inst::InsElt { d, a, v, i, n, ety: (*e).clone() },
                _ => bad(c),
            }
        }
        "shufflevector" => {
            let t = c.ty();
            let a = c.val(&t, f);
            c.eat(",");
            let t2 = c.ty();
            let b = c.val(&t2, f);
            c.eat(",");
            let mt = c.ty();
            let mv = c.val(&mt, f);
            let mut mk = vec![];
            if let Opn::C(Val::A(v)) = &mv {
                for x in v.iter() {
                    if let Val::I(k) = x {
                        mk.push(*k as i64);
                    }
                }
            }
            match t {
                Ty::Vector(n, e) => Inst::Shuffle { d, a, b, n, ety: (*e).clone(), mask: mk },
                _ => bad(c),
            }
        }
        "phi" => {
            while !c.at_type() {
                c.word();
            }
            let t = c.ty();
            let mut inc = vec![];
            loop {
                c.eat("[");
                let v = c.val(&t, f);
                c.eat(",");
                let l = c.local();
                c.eat("]");
                inc.push((v, l));
                if c.peek() == b',' {
                    c.i += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                } else {
                    break;
                }
            }
            blk.phis.push((d, inc));
            return;
        }
        "br" => {
            if c.try_eat("label") {
                let l = c.local();
                Inst::Br(edge(l))
            } else {
                c.eat("i1");
                let cv = c.val(&Ty::Int(1), f);
                c.eat(",");
                c.eat("label");
                let t = c.local();
                c.eat(",");
                c.eat("label");
                let e = c.local();
                Inst::CondBr { c: cv, t: edge(t), f: edge(e) }
            }
        }
        "switch" => {
            let t = c.ty();
            let v = c.val(&t, f);
            c.eat(",");
            c.eat("label");
            let dl = c.local();
            c.eat("[");
            let mut edges = vec![edge(dl)];
            let mut names = vec![dl];
            let mut groups: Vec<Vec<u128>> = vec![vec![]];
            let mut cases = vec![];
            while c.peek() != b']' {
                let t2 = c.ty();
                let cv = match c.cst(&t2) {
                    Cst::Int(x) => x,
                    _ => 0,
                };
                c.eat(",");
                c.eat("label");
                let l = c.local();
                let k = match names.iter().position(|n| *n == l) {
                    Some(k) => k,
                    None => {
                        names.push(l);
                        edges.push(edge(l));
                        groups.push(vec![]);
                        names.len() - 1
                    }
                };
                groups[k].push(cv);
                cases.push((cv, k as u32));
            }
            let w = t.width();
            Inst::Switch { w, v, cases, edges, groups }
        }
        "ret" => {
            let t = c.ty();
            if t == Ty::Void {
                Inst::Ret(None)
            } else {
                Inst::Ret(Some(c.val(&t, f)))
            }
        }
        "unreachable" => Inst::Unreachable,
        "freeze" => {
            let t = c.ty();
            let a = c.val(&t, f);
            Inst::Copy { d, a }
        }
        "call" => {
            // flags, calling convention, return attributes
            while !c.at_type() {
                c.skip_attr();
            }
            let ret = c.ty();
            // optional function type
            if c.peek() == b'(' {
                c.i = skip_paren(c.s, c.i);
            }
            let callee = match c.peek() {
                b'%' => {
                    let n = c.local();
                    Callee::Ind(Opn::R(f.reg(n)))
                }
                b'@' => {
                    let (n, e) = sym_at(c.m.src, c.i);
                    c.i = e;
                    if n.starts_with("llvm.dbg.") || n.starts_with("llvm.experimental.noalias") {
                        return;
                    }
                    match c.m.syms.get(n) {
                        Some(Sym::F(i)) => Callee::Fn(*i),
                        _ => Callee::Ind(Opn::C(Val::I(c.m.addr_of(n)))),
                    }
                }
                _ => {
                    if c.try_eat("asm") {
                        blk.code.push(Inst::Call { d: dst, callee: Callee::Asm, args: vec![], ret });
                        return;
                    }
                    match c.cst(&Ty::Ptr) {
                        Cst::Int(v) => Callee::Ind(Opn::C(Val::I(v as u64))),
                        _ => Callee::Ind(Opn::C(Val::I(0))),
                    }
                }
            };
            c.eat("(");
            let mut args = vec![];
            if c.peek() != b')' {
                loop {
                    let t = c.ty();
                    c.skip_param_attrs();
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        while c.s[c.i] != b',' && c.s[c.i] != b')' {
                            if c.s[c.i] == b'(' {
                                c.i = skip_paren(c.s, c.i);
                            } else {
                                c.i += 1;
                            }
                        }
                    } else {
                        let v = c.val(&t, f);
                        args.push((t, v));
                    }
                    if c.peek() == b',' {
                        c.i += 1;
                    } else {
                        break;
                    }
                }
            }
            Inst::Call { d: dst, callee, args, ret }
        }
        _ => bad(c),
    };
    blk.code.push(i);
}
