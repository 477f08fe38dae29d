//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Extract, // a, b = low bit
    Concat,  // a = high part, b = low part
    ZExt,
    SExt,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite, // a cond, b then, c else
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u8,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    intern: HashMap<Node, E, Fx>,
    pub consts: Vec<u128>,
    const_intern: HashMap<u128, u32, Fx>,
    pub vars: Vec<VarInfo>,
    pub var_exprs: Vec<E>,
    // variable sets
    node_vs: Vec<u32>,
    depth: Vec<u16>,
    sets: Vec<Rc<[u32]>>,
    set_intern: HashMap<Rc<[u32]>, u32, Fx>,
    union_memo: HashMap<(u32, u32), u32, Fx>,
    truth: HashMap<E, [u64; 4], Fx>,
    eval_stamp: Vec<u32>,
    eval_val: Vec<u128>,
    stamp: u32,
    pub t: E,
    pub f: E,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

pub fn apply(op: Op, w: u8, aw: u8, x: u128, y: u128) -> u128 {
    // w = result width, aw = operand width
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, aw) < sext(y, aw)) as u128,
        Op::Sle => (sext(x, aw) <= sext(y, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            intern: Default::default(),
            consts: vec![],
            const_intern: Default::default(),
            vars: vec![],
            var_exprs: vec![],
            node_vs: vec![],
            depth: vec![],
            sets: vec![],
            set_intern: Default::default(),
            union_memo: Default::default(),
            truth: Default::default(),
            eval_stamp: vec![],
            eval_val: vec![],
            stamp: 0,
            t: 0,
            f: 0,
        };
        let empty: Rc<[u32]> = Rc::from(&[][..]);
        p.sets.push(empty.clone());
        p.set_intern.insert(empty, 0);
        p.f = p.cst(0, 1);
        p.t = p.cst(1, 1);
        p
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.intern.get(&n) {
            return e;
        }
        let id = self.nodes.len() as u32;
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.set_of(&[n.a]),
            Op::Extract | Op::ZExt | Op::SExt => self.node_vs[n.a as usize],
            Op::Ite => {
                let x = self.union(self.node_vs[n.a as usize], self.node_vs[n.b as usize]);
                self.union(x, self.node_vs[n.c as usize])
            }
            _ => self.union(self.node_vs[n.a as usize], self.node_vs[n.b as usize]),
        };
        let (k, c) = Self::kids(n);
        let d = k[..c].iter().map(|&x| self.depth[x as usize]).max().map_or(0, |d| d.saturating_add(1));
        self.depth.push(d);
        self.nodes.push(n);
        self.node_vs.push(vs);
        self.eval_stamp.push(0);
        self.eval_val.push(0);
        self.intern.insert(n, id);
        id
    }
    fn set_of(&mut self, s: &[u32]) -> u32 {
        if let Some(&i) = self.set_intern.get(s) {
            return i;
        }
        let r: Rc<[u32]> = Rc::from(s);
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.set_intern.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.union_memo.get(&k) {
            return r;
        }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.set_of(&v);
        self.union_memo.insert(k, r);
        r
    }
    pub fn vars_of(&self, e: E) -> Rc<[u32]> {
        self.sets[self.node_vs[e as usize] as usize].clone()
    }
    pub fn depth(&self, e: E) -> u16 {
        self.depth[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn cst(&mut self, v: u128, w: u8) -> E {
        let v = v & mask(w);
        let i = match self.const_intern.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.const_intern.insert(v, i);
                i
            }
        };
        self.mk(Node { op: Op::Const, w, a: i, b: 0, c: 0 })
    }
    pub fn var(&mut self, idx: u32) -> E {
        let w = self.vars[idx as usize].w;
        self.mk(Node { op: Op::Var, w, a: idx, b: 0, c: 0 })
    }
    pub fn new_var(&mut self, name: String, w: u8) -> u32 {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w });
        let e = self.var(i);
        self.var_exprs.push(e);
        i
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.cst(v, w)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
                self.ite(n.a, x, y)
            }
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sext(self.consts[n.a as usize], n.w) as u128;
                self.cst(v, w)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
                self.ite(n.a, x, y)
            }
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] >> lo;
                self.cst(v, w)
            }
            Op::Extract => self.extract(n.a, lo + n.b as u8, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.cst(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let h = self.extract(n.a, 0, lo + w - lw);
                    let l = self.extract(n.b, lo, lw - lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
                }
            }
            Op::LShr => {
                if let Some(k) = self.cv(n.b) {
                    if k + lo as u128 + w as u128 <= n.w as u128 {
                        return self.extract(n.a, lo + k as u8, w);
                    }
                }
                self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.b) {
                    if k <= lo as u128 {
                        return self.extract(n.a, lo - k as u8, w);
                    }
                    if k >= (lo + w) as u128 {
                        return self.cst(0, w);
                    }
                }
                self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
            }
            _ => self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (a, b) = (self.n(h), self.n(l));
        let w = a.w + b.w;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.cst((x << b.w) | y, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts of one value
        let (ha, hlo) = if a.op == Op::Extract { (a.a, a.b as u8) } else { (h, 255) };
        let (la, llo) = if b.op == Op::Extract { (b.a, b.b as u8) } else { (l, 0) };
        if hlo != 255 && ha == la && hlo == llo + b.w {
            return self.extract(ha, llo, w);
        }
        // concat(extract(hi of x), concat(extract(lo of x), y))
        if hlo != 255 && b.op == Op::Concat {
            let m = self.n(b.a);
            let (ma, mlo) = if m.op == Op::Extract { (m.a, m.b as u8) } else { (b.a, 0) };
            if ma == ha && hlo == mlo + m.w {
                let x = self.extract(ha, mlo, a.w + m.w);
                return self.concat(x, b.b);
            }
        }
        if a.op == Op::ZExt && b.op != Op::Const {
            // concat(zext(x), l) = zext(concat(x,l))
            let x = self.concat(a.a, l);
            return self.zext(x, w);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(u128::MAX, w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v != 0 { x } else { y };
        }
        if x == y {
            return x;
        }
        let w = self.w(x);
        let nc = self.n(c);
        // ite(!c, x, y) => ite(c, y, x)
        if nc.op == Op::Xor && nc.w == 1 && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, y, x);
        }
        if w == 1 {
            match (self.cv(x), self.cv(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, y),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, y);
                }
                (None, Some(0)) => return self.and(c, x),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, x);
                }
                _ => {}
            }
        }
        // ite(c, x, ite(c, _, z)) => ite(c, x, z)
        let ny = self.n(y);
        if ny.op == Op::Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        let nx = self.n(x);
        if nx.op == Op::Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: x, c: y })
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = apply(op, rw, aw, x, y);
            return self.cst(v, rw);
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.cv(b);
        let na = self.n(a);
        let m = mask(aw);
        match op {
            Op::Sub => {
                if a == b {
                    return self.cst(0, aw);
                }
                if let Some(y) = cb {
                    let nb = self.cst(0u128.wrapping_sub(y), aw);
                    return self.bin(Op::Add, a, nb);
                }
            }
            Op::Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.cst(y.wrapping_add(z), aw);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                _ => {}
            },
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c2 = self.cst(y, iw);
                        let r = self.bin(Op::And, na.a, c2);
                        return self.zext(r, aw);
                    }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let k = (y + 1).trailing_zeros() as u8;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, aw);
                    }
                    if na.op == Op::And {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.cst(y & z, aw);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                } else {
                    // zext(x) | (zext(y) << k)  => concat
                    for (p, q) in [(a, b), (b, a)] {
                        let (np, nq) = (self.n(p), self.n(q));
                        if np.op == Op::ZExt && nq.op == Op::Shl {
                            if let Some(k) = self.cv(nq.b) {
                                let iw = self.w(np.a);
                                if k == iw as u128 && k < aw as u128 {
                                    let hi = self.extract(nq.a, 0, aw - iw);
                                    return self.concat(hi, np.a);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, aw);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.cst(y ^ z, aw);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if aw == 1 {
                        // !(a<b) => b<=a
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= aw as u128 && op != Op::AShr {
                        return self.cst(0, aw);
                    }
                    if op == Op::LShr {
                        let x = self.extract(a, y as u8, aw - y as u8);
                        return self.zext(x, aw);
                    }
                    if op == Op::Shl && na.op == Op::Shl {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.cst(y + z, aw);
                            return self.bin(Op::Shl, na.a, k);
                        }
                    }
                }
                if self.cv(a) == Some(0) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(y.trailing_zeros() as u128, aw);
                        return self.bin(Op::LShr, a, k);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.cst(0, aw);
                        }
                        let c2 = self.cst(y, iw);
                        let r = self.bin(op, na.a, c2);
                        return self.zext(r, aw);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(y - 1, aw);
                        return self.bin(Op::And, a, k);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return a;
                        }
                        let c2 = self.cst(y, iw);
                        let r = self.bin(op, na.a, c2);
                        return self.zext(r, aw);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.t;
                }
                if aw == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(_) => return self.not(a),
                        None => {
                            let x = self.bin(Op::Xor, a, b);
                            return self.not(x);
                        }
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.f;
                            }
                            let k = self.cst(y, iw);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = y & mask(iw);
                            if (sext(t, iw) as u128) & m != y {
                                return self.f;
                            }
                            let k = self.cst(t, iw);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = aw - lw;
                            let kh = self.cst(y >> lw, hw);
                            let kl = self.cst(y, lw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let z = self.bin(Op::Eq, na.b, kl);
                            return self.and(x, z);
                        }
                        Op::Add => {
                            if let Some(z) = self.cv(na.b) {
                                let k = self.cst(y.wrapping_sub(z), aw);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.cv(na.b) {
                                let k = self.cst(y ^ z, aw);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Ite => {
                            if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let z = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return if op == Op::Ule { self.t } else { self.f };
                }
                let ca = self.cv(a);
                if let Some(y) = cb {
                    if op == Op::Ult && y == 0 {
                        return self.f;
                    }
                    if op == Op::Ule && y == m {
                        return self.t;
                    }
                    if op == Op::Ule && y == 0 {
                        return self.bin(Op::Eq, a, b);
                    }
                    if op == Op::Ule {
                        let k = self.cst(y + 1, aw);
                        return self.bin(Op::Ult, a, k);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.t;
                        }
                        let k = self.cst(y, iw);
                        return self.bin(op, na.a, k);
                    }
                    if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(x) = ca {
                    if op == Op::Ule && x == 0 {
                        return self.t;
                    }
                    if op == Op::Ult && x == m {
                        return self.f;
                    }
                    if op == Op::Ule {
                        let k = self.cst(x - 1, aw);
                        return self.bin(Op::Ult, k, b);
                    }
                    let nb = self.n(b);
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if x >= mask(iw) {
                            return self.f;
                        }
                        let k = self.cst(x, iw);
                        return self.bin(op, k, nb.a);
                    }
                    if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Sle { self.t } else { self.f };
                }
                let nb = self.n(b);
                // zext on both sides (or with non-negative constants) is unsigned
                let nonneg = |p: &Pool, n: Node| match n.op {
                    Op::ZExt => true,
                    Op::Const => p.consts[n.a as usize] >> (n.w - 1) & 1 == 0,
                    _ => false,
                };
                if nonneg(self, na) && nonneg(self, nb) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::ZExt && cb.is_some() {
                    return self.f; // b negative
                }
                if nb.op == Op::ZExt && self.cv(a).is_some() {
                    return self.t;
                }
                if na.op == Op::Ite && cb.is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                    let x = self.bin(op, a, nb.b);
                    let y = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0 })
    }

    fn eval_node(&self, n: Node, get: impl Fn(E) -> u128) -> u128 {
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => unreachable!(),
            Op::Extract => (get(n.a) >> n.b) & mask(n.w),
            Op::Concat => (get(n.a) << self.w(n.b)) | get(n.b),
            Op::ZExt => get(n.a),
            Op::SExt => (sext(get(n.a), self.w(n.a)) as u128) & mask(n.w),
            Op::Ite => {
                if get(n.a) != 0 {
                    get(n.b)
                } else {
                    get(n.c)
                }
            }
            op => apply(op, n.w, self.w(n.a), get(n.a), get(n.b)),
        }
    }
    fn kids(n: Node) -> ([u32; 3], usize) {
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Extract | Op::ZExt | Op::SExt => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if let Some(v) = self.cv(e) {
            return v;
        }
        self.stamp += 1;
        let st = self.stamp;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.eval_stamp[x as usize] == st {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Var {
                self.eval_val[x as usize] = *model.get(n.a as usize).unwrap_or(&0) as u128 & mask(n.w);
                self.eval_stamp[x as usize] = st;
                stack.pop();
                continue;
            }
            let (k, c) = Self::kids(n);
            let mut ready = true;
            for &y in &k[..c] {
                if self.eval_stamp[y as usize] != st {
                    stack.push(y);
                    ready = false;
                }
            }
            if ready {
                let v = self.eval_node(n, |y| self.eval_val[y as usize]);
                self.eval_val[x as usize] = v;
                self.eval_stamp[x as usize] = st;
                stack.pop();
            }
        }
        self.eval_val[e as usize]
    }
    fn topo(&mut self, e: E) -> Vec<E> {
        self.stamp += 1;
        let st = self.stamp;
        let mut order = vec![];
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if done {
                order.push(x);
                continue;
            }
            if self.eval_stamp[x as usize] == st {
                continue;
            }
            self.eval_stamp[x as usize] = st;
            stack.push((x, true));
            let (k, c) = Self::kids(self.n(x));
            for &y in &k[..c] {
                if self.eval_stamp[y as usize] != st {
                    stack.push((y, false));
                }
            }
        }
        order
    }
    /// The set of byte values of the only variable of `e` (width <= 8) for which the 1-bit `e` is true.
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let n = self.n(e);
        let full = [u64::MAX; 4];
        let r = match n.op {
            Op::Const => {
                if self.consts[n.a as usize] != 0 {
                    full
                } else {
                    [0; 4]
                }
            }
            Op::And if n.w == 1 => {
                let (x, y) = (self.truth(n.a), self.truth(n.b));
                [x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]]
            }
            Op::Or if n.w == 1 => {
                let (x, y) = (self.truth(n.a), self.truth(n.b));
                [x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]]
            }
            Op::Xor if n.w == 1 => {
                let (x, y) = (self.truth(n.a), self.truth(n.b));
                [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]]
            }
            _ => {
                let order = self.topo(e);
                let mut r = [0u64; 4];
                for v in 0..256usize {
                    for &x in &order {
                        let n = self.n(x);
                        let val = if n.op == Op::Var {
                            v as u128 & mask(n.w)
                        } else {
                            self.eval_node(n, |y| self.eval_val[y as usize])
                        };
                        self.eval_val[x as usize] = val;
                    }
                    if self.eval_val[e as usize] != 0 {
                        r[v >> 6] |= 1 << (v & 63);
                    }
                }
                r
            }
        };
        self.truth.insert(e, r);
        r
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::Extract => format!("{}[{}+{}]", self.show_d(n.a, d - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show_d(n.a, d - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show_d(n.a, d - 1), self.show_d(n.b, d - 1), self.show_d(n.c, d - 1)),
            op => format!("({:?} {} {})", op, self.show_d(n.a, d - 1), self.show_d(n.b, d - 1)),
        }
    }
}
