//! Path-condition bookkeeping and the z3 back end.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const i8, v: *const i8);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const i8) -> P;
    fn Z3_mk_bv_sort(c: P, w: u32) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const i8) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_check_assumptions(c: P, s: P, n: u32, a: *const P) -> i32;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

#[derive(Clone)]
pub struct Pc {
    pub multi: Rc<Vec<E>>,
    pub dom: Rc<Vec<[u64; 4]>>, // per variable (meaningful for widths <= 8)
    pub linked: Rc<Vec<u64>>,   // bitset: variable occurs in `multi`
    pub model: Rc<Vec<u64>>,
}
impl Pc {
    pub fn new() -> Pc {
        Pc { multi: Rc::new(vec![]), dom: Rc::new(vec![]), linked: Rc::new(vec![]), model: Rc::new(vec![]) }
    }
    pub fn ensure(&mut self, pool: &Pool) {
        let n = pool.vars.len();
        if self.dom.len() < n {
            let d = Rc::make_mut(&mut self.dom);
            while d.len() < n {
                let w = pool.vars[d.len()].w;
                let mut x = [u64::MAX; 4];
                if w < 8 {
                    let c = 1usize << w;
                    x = [0; 4];
                    for i in 0..c {
                        x[i >> 6] |= 1 << (i & 63);
                    }
                }
                d.push(x);
            }
            Rc::make_mut(&mut self.linked).resize((n + 63) / 64, 0);
            Rc::make_mut(&mut self.model).resize(n, 0);
        }
    }
    fn is_linked(&self, v: u32) -> bool {
        self.linked[v as usize >> 6] >> (v & 63) & 1 == 1
    }
}

#[derive(Default, Clone, Copy)]
pub struct SolverStats {
    pub z3: u64,
    pub z3_ns: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache: u64,
    pub domain: u64,
    pub unknown: u64,
    pub csp: u64,
    pub xchk: u64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,  // bit-vector translation
    bast: Vec<P>, // boolean translation (width 1)
    cache: HashMap<Vec<u32>, Option<Rc<Vec<(u32, u64)>>>, Fx>,
    dom_ids: HashMap<[u64; 4], u32, Fx>,
    pub stats: SolverStats,
    pub no_fast: bool,
    lits: HashMap<u64, P, Fx>,
    nlits: i32,
    assume: bool,
    dump: bool,
}

pub enum Split {
    True,
    False,
    Both { on_true: Rc<Vec<u64>>, on_false: Rc<Vec<u64>> },
    Unknown,
}

fn first_bit(s: &[u64; 4]) -> Option<u64> {
    for i in 0..4 {
        if s[i] != 0 {
            return Some((i * 64) as u64 + s[i].trailing_zeros() as u64);
        }
    }
    None
}
/// The topmost boolean subterm of `e` over one byte-sized variable.
fn find_atom(pool: &Pool, e: E, seen: &mut std::collections::HashSet<E>) -> Option<E> {
    if !seen.insert(e) {
        return None;
    }
    let vs = pool.vars_of(e);
    if vs.is_empty() {
        return None;
    }
    let n = pool.n(e);
    if n.w == 1 && vs.len() == 1 && pool.vars[vs[0] as usize].w <= 8 {
        return Some(e);
    }
    match n.op {
        Op::Const | Op::Var => None,
        Op::Extract | Op::ZExt | Op::SExt => find_atom(pool, n.a, seen),
        Op::Ite => find_atom(pool, n.a, seen).or_else(|| find_atom(pool, n.b, seen)).or_else(|| find_atom(pool, n.c, seen)),
        _ => find_atom(pool, n.a, seen).or_else(|| find_atom(pool, n.b, seen)),
    }
}
fn subst(pool: &mut Pool, e: E, from: E, to: E, memo: &mut HashMap<E, E, Fx>) -> E {
    if e == from {
        return to;
    }
    let n = pool.n(e);
    if matches!(n.op, Op::Const | Op::Var) {
        return e;
    }
    let fv = pool.vars_of(from);
    if !pool.vars_of(e).contains(&fv[0]) {
        return e;
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let a = subst(pool, n.a, from, to, memo);
    let r = match n.op {
        Op::Extract => pool.extract(a, n.b as u8, n.w),
        Op::ZExt => pool.zext(a, n.w),
        Op::SExt => pool.sext(a, n.w),
        Op::Ite => {
            if let Some(v) = pool.cv(a) {
                let k = if v != 0 { n.b } else { n.c };
                subst(pool, k, from, to, memo)
            } else {
                let x = subst(pool, n.b, from, to, memo);
                let y = subst(pool, n.c, from, to, memo);
                pool.ite(a, x, y)
            }
        }
        _ => {
            let b = subst(pool, n.b, from, to, memo);
            match n.op {
                Op::Concat => pool.concat(a, b),
                o => pool.bin(o, a, b),
            }
        }
    };
    memo.insert(e, r);
    r
}
fn doms_count(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
type Doms = HashMap<u32, [u64; 4], Fx>;
/// Case analysis over the single-byte predicates inside the constraints: each narrows a variable's set of values.
/// `Err` when a constraint mixes bytes arithmetically or the budget runs out (z3 decides).
fn csp(pool: &mut Pool, mut todo: Vec<E>, mut dom: Doms, budget: &mut u32) -> Result<Option<Doms>, ()> {
    let mut open: Vec<E> = vec![];
    // boolean structure and single-variable conjuncts first
    while let Some(e) = todo.pop() {
        if *budget == 0 {
            return Err(());
        }
        *budget -= 1;
        if let Some(v) = pool.cv(e) {
            if v == 0 {
                return Ok(None);
            }
            continue;
        }
        let vars = pool.vars_of(e);
        if vars.len() == 1 && pool.vars[vars[0] as usize].w <= 8 {
            let t = pool.truth(e);
            let d = dom.get_mut(&vars[0]).unwrap();
            *d = band(d, &t);
            if first_bit(d).is_none() {
                return Ok(None);
            }
            continue;
        }
        let n = pool.n(e);
        if n.op == Op::And && n.w == 1 {
            todo.push(n.a);
            todo.push(n.b);
            continue;
        }
        if n.op == Op::Xor && n.w == 1 && pool.cv(n.b) == Some(1) {
            let i = pool.n(n.a);
            if i.op == Op::Or && i.w == 1 {
                let x = pool.not(i.a);
                let y = pool.not(i.b);
                todo.push(x);
                todo.push(y);
                continue;
            }
        }
        open.push(e);
    }
    // the rest: branch on an atom of some open constraint
    let mut pick: Option<(usize, E)> = None;
    let mut i = 0;
    while i < open.len() {
        let mut e = open[i];
        loop {
            if *budget == 0 {
                return Err(());
            }
            *budget -= 1;
            let Some(a) = find_atom(pool, e, &mut Default::default()) else { break };
            let v = pool.vars_of(a)[0];
            let t = pool.truth(a);
            let d = dom[&v];
            let yes = first_bit(&band(&d, &t)).is_some();
            let no = first_bit(&band(&d, &bnot(&t))).is_some();
            if yes && no {
                if pick.is_none() {
                    pick = Some((i, a));
                }
                break;
            }
            let c = pool.cst(yes as u128, 1);
            e = subst(pool, e, a, c, &mut Default::default());
        }
        if e != open[i] {
            // decided by the domains: simplified, may have become simple
            open[i] = e;
            if pool.cv(e).is_some() || pool.vars_of(e).len() == 1 || pool.n(e).op == Op::And {
                let o = open.clone();
                return csp(pool, o, dom, budget);
            }
        }
        i += 1;
    }
    if open.is_empty() {
        return Ok(Some(dom));
    }
    match pick {
        Some((i, a)) => {
            let v = pool.vars_of(a)[0];
            let t = pool.truth(a);
            for val in [true, false] {
                let mut d = dom.clone();
                let x = d.get_mut(&v).unwrap();
                *x = band(x, &if val { t } else { bnot(&t) });
                let c = pool.cst(val as u128, 1);
                let mut o = open.clone();
                o[i] = subst(pool, o[i], a, c, &mut Default::default());
                if let Some(r) = csp(pool, o, d, budget)? {
                    return Ok(Some(r));
                }
            }
            Ok(None)
        }
        None => {
            // no predicates left: enumerate the smallest variable if it is small
            let mut best: Option<(u32, u32)> = None;
            for &e in &open {
                for &v in pool.vars_of(e).iter() {
                    if pool.vars[v as usize].w > 8 {
                        return Err(());
                    }
                    let k = doms_count(&dom[&v]);
                    if best.map_or(true, |b| k < b.0) {
                        best = Some((k, v));
                    }
                }
            }
            let (k, v) = best.unwrap();
            if k > 16 {
                return Err(());
            }
            let ve = pool.var(v);
            let w = pool.vars[v as usize].w;
            for x in 0..256usize {
                if dom[&v][x >> 6] >> (x & 63) & 1 == 0 {
                    continue;
                }
                let mut d = dom.clone();
                let mut one = [0; 4];
                one[x >> 6] = 1 << (x & 63);
                d.insert(v, one);
                let c = pool.cst(x as u128, w);
                let o = open.clone().into_iter().map(|e| subst(pool, e, ve, c, &mut Default::default())).collect();
                if let Some(r) = csp(pool, o, d, budget)? {
                    return Ok(Some(r));
                }
            }
            Ok(None)
        }
    }
}
/// Finite-domain search: assigns the variables (few values each) one by one, evaluating every constraint as soon as all
/// its variables have values. `Err` when there are too many values or the budget runs out.
fn fds(pool: &mut Pool, cons: &[E], vars: &[u32], dom: &[[u64; 4]], budget: &mut u32) -> Result<Option<Vec<(u32, u64)>>, ()> {
    let mut vals: Vec<(u32, Vec<u64>)> = vec![];
    for &v in vars {
        let k = if pool.vars[v as usize].w <= 8 { doms_count(&dom[v as usize]) } else { 999 };
        if k > 12 {
            return Err(());
        }
        let d = &dom[v as usize];
        vals.push((v, (0..256u64).filter(|x| d[*x as usize >> 6] >> (x & 63) & 1 == 1).collect()));
    }
    // the variables of constraints over few variables first
    let mut order: Vec<u32> = vec![];
    let mut by: Vec<(E, Rc<[u32]>)> = cons.iter().map(|&e| (e, pool.vars_of(e))).collect();
    by.sort_by_key(|c| c.1.len());
    let mut left = by.clone();
    while !left.is_empty() {
        // the constraint with the fewest unassigned variables
        let (i, _) = left.iter().enumerate().min_by_key(|(_, c)| c.1.iter().filter(|v| !order.contains(v)).count()).unwrap();
        let c = left.remove(i);
        for v in c.1.iter() {
            if !order.contains(v) {
                order.push(*v);
            }
        }
    }
    let mut at: Vec<Vec<E>> = vec![vec![]; order.len()];
    for (e, vs) in &by {
        match vs.iter().map(|v| order.iter().position(|o| o == v).unwrap()).max() {
            Some(l) => at[l].push(*e),
            None => {
                if pool.cv(*e) == Some(0) {
                    return Ok(None);
                }
            }
        }
    }
    let vals: Vec<Vec<u64>> = order.iter().map(|o| vals.iter().find(|x| x.0 == *o).unwrap().1.clone()).collect();
    let mut model = vec![0u64; pool.vars.len()];
    let mut idx = vec![0usize; order.len()];
    let mut l = 0;
    loop {
        if l == order.len() {
            let mut out: Vec<(u32, u64)> = order.iter().map(|v| (*v, model[*v as usize])).collect();
            for &v in vars {
                if !order.contains(&v) {
                    out.push((v, first_bit(&dom[v as usize]).ok_or(())?));
                }
            }
            out.sort();
            return Ok(Some(out));
        }
        if idx[l] == vals[l].len() {
            if l == 0 {
                return Ok(None);
            }
            idx[l] = 0;
            l -= 1;
            idx[l] += 1;
            continue;
        }
        model[order[l] as usize] = vals[l][idx[l]];
        let mut ok = true;
        for &e in &at[l] {
            if *budget == 0 {
                return Err(());
            }
            *budget -= 1;
            if pool.eval(e, &model) == 0 {
                ok = false;
                break;
            }
        }
        if ok {
            l += 1;
            if l < order.len() {
                idx[l] = 0;
            }
        } else {
            idx[l] += 1;
        }
    }
}
fn band(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn bnot(a: &[u64; 4]) -> [u64; 4] {
    [!a[0], !a[1], !a[2], !a[3]]
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context(cfg);
            let l = Z3_mk_string_symbol(c, c"QF_BV".as_ptr());
            let s = match std::env::var("SYM_Z3").unwrap_or_default().as_str() {
                "" | "simple" => Z3_mk_simple_solver(c),
                "logic" => Z3_mk_solver_for_logic(c, l),
                "qfbv" => {
                    let t = Z3_mk_tactic(c, c"qfbv".as_ptr());
                    Z3_tactic_inc_ref(c, t);
                    Z3_mk_solver_from_tactic(c, t)
                }
                _ => {
                    // simplify; solve-eqs; bit-blast; sat
                    let names = [c"simplify", c"propagate-values", c"solve-eqs", c"bit-blast", c"sat"];
                    let mut t = Z3_mk_tactic(c, names[0].as_ptr());
                    Z3_tactic_inc_ref(c, t);
                    for n in &names[1..] {
                        let u = Z3_mk_tactic(c, n.as_ptr());
                        Z3_tactic_inc_ref(c, u);
                        t = Z3_tactic_and_then(c, t, u);
                        Z3_tactic_inc_ref(c, t);
                    }
                    Z3_mk_solver_from_tactic(c, t)
                }
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, c"timeout".as_ptr());
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                ast: vec![],
                bast: vec![],
                cache: Default::default(),
                dom_ids: Default::default(),
                stats: Default::default(),
                no_fast: std::env::var("SYM_NO_FAST").is_ok(),
                lits: Default::default(),
                nlits: 0,
                assume: std::env::var("SYM_ASSUME").is_ok(),
                dump: std::env::var("SYM_DUMPQ").is_ok(),
            }
        }
    }
    fn grow(&mut self, pool: &Pool) {
        let n = pool.nodes.len();
        if self.ast.len() < n {
            self.ast.resize(n, std::ptr::null_mut());
            self.bast.resize(n, std::ptr::null_mut());
        }
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as u32))
            } else {
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as u32 - 64));
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn b2v(&self, b: P) -> P {
        unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
    }
    fn v2b(&self, v: P) -> P {
        unsafe { Z3_mk_eq(self.c, v, self.num(1, 1)) }
    }
    fn tr_bool(&mut self, pool: &Pool, e: E) -> P {
        let x = self.bast[e as usize];
        if !x.is_null() {
            return x;
        }
        let n = pool.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if pool.cv(e).unwrap() != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let a = [self.tr_bool(pool, n.a), self.tr_bool(pool, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.tr_bool(pool, n.a), self.tr_bool(pool, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    if pool.cv(n.b) == Some(1) {
                        let x = self.tr_bool(pool, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (a, b) = (self.tr_bool(pool, n.a), self.tr_bool(pool, n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Eq => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::Ite => {
                    let a = self.tr_bool(pool, n.a);
                    let b = self.tr_bool(pool, n.b);
                    let d = self.tr_bool(pool, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let v = self.tr(pool, e);
                    self.v2b(v)
                }
            }
        };
        self.bast[e as usize] = r;
        r
    }
    fn tr(&mut self, pool: &Pool, e: E) -> P {
        let x = self.ast[e as usize];
        if !x.is_null() {
            return x;
        }
        let n = pool.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(pool.cv(e).unwrap(), n.w),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as i32);
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w as u32))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.tr_bool(pool, e);
                    self.b2v(b)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let b = self.tr_bool(pool, e);
                    self.b2v(b)
                }
                Op::Ite => {
                    if n.w == 1 {
                        let b = self.tr_bool(pool, e);
                        self.b2v(b)
                    } else {
                        let a = self.tr_bool(pool, n.a);
                        let b = self.tr(pool, n.b);
                        let d = self.tr(pool, n.c);
                        Z3_mk_ite(c, a, b, d)
                    }
                }
                Op::Extract => {
                    let a = self.tr(pool, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.tr(pool, n.a);
                    Z3_mk_zero_ext(c, (n.w - pool.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.tr(pool, n.a);
                    Z3_mk_sign_ext(c, (n.w - pool.w(n.a)) as u32, a)
                }
                _ => {
                    let (a, b) = (self.tr(pool, n.a), self.tr(pool, n.b));
                    match n.op {
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast[e as usize] = r;
        r
    }
    fn new_lit(&mut self, key: u64, b: P) -> P {
        unsafe {
            self.nlits += 1;
            let s = Z3_mk_int_symbol(self.c, 1_000_000 + self.nlits);
            let l = Z3_mk_const(self.c, s, Z3_mk_bool_sort(self.c));
            let i = Z3_mk_implies(self.c, l, b);
            Z3_solver_assert(self.c, self.s, i);
            self.lits.insert(key, l);
            l
        }
    }
    fn dom_id(&mut self, d: &[u64; 4]) -> u32 {
        let n = self.dom_ids.len() as u32;
        *self.dom_ids.entry(*d).or_insert(n)
    }
    /// Solve the slice of the path condition connected to `e`, conjoined with `e`.
    fn solve(&mut self, pool: &mut Pool, pc: &Pc, e: E) -> Result<Option<Rc<Vec<(u32, u64)>>>, ()> {
        // slice
        let mut vars: Vec<u32> = pool.vars_of(e).to_vec();
        let mut inset = vec![false; pool.vars.len()];
        for &v in &vars {
            inset[v as usize] = true;
        }
        let mut used = vec![false; pc.multi.len()];
        let mut cons: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, &m) in pc.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = pool.vars_of(m);
                if vs.iter().any(|&v| inset[v as usize]) {
                    used[i] = true;
                    ch = true;
                    cons.push(m);
                    for &v in vs.iter() {
                        if !inset[v as usize] {
                            inset[v as usize] = true;
                            vars.push(v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        vars.sort();
        cons.sort();
        cons.dedup();
        let mut key: Vec<u32> = Vec::with_capacity(2 + cons.len() + vars.len());
        key.push(e);
        key.push(cons.len() as u32);
        key.extend(&cons);
        for &v in &vars {
            let d = self.dom_id(&pc.dom[v as usize]);
            key.push(d);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache += 1;
            return Ok(r.clone());
        }
        let mut expect = None;
        if !self.no_fast {
            let mut dom: Doms = HashMap::default();
            for &v in &vars {
                dom.insert(v, pc.dom[v as usize]);
            }
            let mut todo = cons.clone();
            todo.push(e);
            let mut budget = 4000u32;
            let r = match fds(pool, &todo, &vars, &pc.dom, &mut budget) {
                Ok(r) => Ok(r.map(Rc::new)),
                Err(()) => {
                    let mut budget = 4000u32;
                    csp(pool, todo, dom, &mut budget).map(|r| r.map(|d| Rc::new(vars.iter().map(|v| (*v, first_bit(&d[v]).unwrap())).collect::<Vec<_>>())))
                }
            };
            match r {
                Ok(r) => {
                    self.stats.csp += 1;
                    // the 1st, 2nd, 4th, ... and one verdict in 2000 are checked against z3 (not those on terms so deep
                    // that z3's simplifier does not come back from them)
                    let deepest = cons.iter().chain([&e]).map(|&c| pool.depth(c)).max().unwrap();
                    if !self.stats.csp.is_power_of_two() && self.stats.csp % 2000 != 0 || deepest > 48 {
                        self.cache.insert(key, r.clone());
                        return Ok(r);
                    }
                    expect = Some(r);
                    self.stats.xchk += 1;
                }
                Err(()) => {}
            }
        }
        if self.dump {
            eprintln!("Z3Q {}", pool.show(e));
            for &c in &cons {
                eprintln!("    | {}", pool.show(c));
            }
        }
        let t0 = Instant::now();
        if std::env::var("SYM_SLOW").is_ok() {
            eprintln!("z3: depth {} expected {}", cons.iter().chain([&e]).map(|&c| pool.depth(c)).max().unwrap(), expect.is_some());
        }
        self.grow(pool);
        let res;
        unsafe {
            let assume = self.assume;
            let mut lits: Vec<P> = vec![];
            if !assume {
                Z3_solver_push(self.c, self.s);
            }
            for &v in &vars {
                let w = pool.vars[v as usize].w;
                if w > 8 {
                    continue;
                }
                let d = pc.dom[v as usize];
                let size = 1usize << w;
                let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                if (0..size).all(has) {
                    continue;
                }
                let key = (1u64 << 63) | ((v as u64) << 32) | self.dom_id(&d) as u64;
                if assume {
                    if let Some(&l) = self.lits.get(&key) {
                        lits.push(l);
                        continue;
                    }
                }
                let ve = pool.var(v);
                self.grow(pool);
                let a = self.tr(pool, ve);
                let mut alts = vec![];
                let mut i = 0;
                while i < size {
                    if has(i) {
                        let s = i;
                        while i + 1 < size && has(i + 1) {
                            i += 1;
                        }
                        if s == i {
                            alts.push(Z3_mk_eq(self.c, a, self.num(s as u128, w)));
                        } else {
                            let p = [
                                Z3_mk_bvule(self.c, self.num(s as u128, w), a),
                                Z3_mk_bvule(self.c, a, self.num(i as u128, w)),
                            ];
                            alts.push(Z3_mk_and(self.c, 2, p.as_ptr()));
                        }
                    }
                    i += 1;
                }
                let o = Z3_mk_or(self.c, alts.len() as u32, alts.as_ptr());
                if assume {
                    let l = self.new_lit(key, o);
                    lits.push(l);
                } else {
                    Z3_solver_assert(self.c, self.s, o);
                }
            }
            for &m in cons.iter().chain(std::iter::once(&e)) {
                if assume {
                    let l = match self.lits.get(&(m as u64)) {
                        Some(&l) => l,
                        None => {
                            let b = self.tr_bool(pool, m);
                            self.new_lit(m as u64, b)
                        }
                    };
                    lits.push(l);
                } else {
                    let b = self.tr_bool(pool, m);
                    Z3_solver_assert(self.c, self.s, b);
                }
            }
            let r = if assume {
                Z3_solver_check_assumptions(self.c, self.s, lits.len() as u32, lits.as_ptr())
            } else {
                Z3_solver_check(self.c, self.s)
            };
            res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in &vars {
                        let ve = pool.var(v);
                        self.grow(pool);
                        let a = self.tr(pool, ve);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_get_numeral_uint64(self.c, o, &mut x);
                        }
                        out.push((v, x));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.stats.sat += 1;
                    Ok(Some(Rc::new(out)))
                }
                -1 => {
                    self.stats.unsat += 1;
                    Ok(None)
                }
                _ => {
                    self.stats.unknown += 1;
                    Err(())
                }
            };
            if !assume {
                Z3_solver_pop(self.c, self.s, 1);
            }
        }
        self.stats.z3 += 1;
        self.stats.z3_ns += t0.elapsed().as_nanos() as u64;
        if let (Some(x), Ok(r)) = (&expect, &res) {
            assert!(x.is_some() == r.is_some(), "case analysis and z3 disagree on {}", pool.show(e));
        }
        let res = match (res, expect) {
            (Err(()), Some(r)) => Ok(r),
            (res, _) => res,
        };
        if let Ok(r) = &res {
            self.cache.insert(key, r.clone());
        }
        res
    }
    /// Which truth values can the 1-bit `e` take under the path condition?
    pub fn split(&mut self, pool: &mut Pool, pc: &mut Pc, e: E) -> Split {
        if let Some(v) = pool.cv(e) {
            return if v != 0 { Split::True } else { Split::False };
        }
        pc.ensure(pool);
        let vars = pool.vars_of(e);
        if vars.len() == 1 && pool.vars[vars[0] as usize].w <= 8 && !self.no_fast {
            let v = vars[0];
            let s = pool.truth(e);
            let d = pc.dom[v as usize];
            let t = band(&s, &d);
            let f = band(&bnot(&s), &d);
            let (ft, ff) = (first_bit(&t), first_bit(&f));
            self.stats.domain += 1;
            match (ft, ff) {
                (None, _) => return Split::False,
                (_, None) => return Split::True,
                (Some(a), Some(b)) if !pc.is_linked(v) => {
                    let cur = pc.model[v as usize];
                    let cur_t = t[cur as usize >> 6] >> (cur & 63) & 1 == 1;
                    let mut m = (*pc.model).clone();
                    if cur_t {
                        m[v as usize] = b;
                        return Split::Both { on_true: pc.model.clone(), on_false: Rc::new(m) };
                    } else {
                        m[v as usize] = a;
                        return Split::Both { on_true: Rc::new(m), on_false: pc.model.clone() };
                    }
                }
                _ => {}
            }
        }
        let cur = pool.eval(e, &pc.model) != 0;
        let other = if cur { pool.not(e) } else { e };
        pc.ensure(pool);
        match self.solve(pool, pc, other) {
            Err(()) => Split::Unknown,
            Ok(None) => {
                if cur {
                    Split::True
                } else {
                    Split::False
                }
            }
            Ok(Some(a)) => {
                let mut m = (*pc.model).clone();
                for &(v, x) in a.iter() {
                    m[v as usize] = x;
                }
                let m = Rc::new(m);
                if cur {
                    Split::Both { on_true: pc.model.clone(), on_false: m }
                } else {
                    Split::Both { on_true: m, on_false: pc.model.clone() }
                }
            }
        }
    }
    /// Add `e` (known satisfiable together with pc, witnessed by `model`).
    pub fn add(&mut self, pool: &mut Pool, pc: &mut Pc, e: E, model: Rc<Vec<u64>>) {
        pc.ensure(pool);
        pc.model = model;
        self.add_raw(pool, pc, e);
    }
    fn add_raw(&mut self, pool: &mut Pool, pc: &mut Pc, e: E) {
        let n = pool.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_raw(pool, pc, n.a);
            self.add_raw(pool, pc, n.b);
            return;
        }
        // !(a | b)
        if n.op == Op::Xor && n.w == 1 && pool.cv(n.b) == Some(1) {
            let i = pool.n(n.a);
            if i.op == Op::Or {
                let x = pool.not(i.a);
                let y = pool.not(i.b);
                self.add_raw(pool, pc, x);
                self.add_raw(pool, pc, y);
                return;
            }
        }
        if pool.cv(e).is_some() {
            return;
        }
        pc.ensure(pool);
        let vars = pool.vars_of(e);
        if vars.len() == 1 && pool.vars[vars[0] as usize].w <= 8 {
            let v = vars[0] as usize;
            let s = pool.truth(e);
            let d = band(&s, &pc.dom[v]);
            Rc::make_mut(&mut pc.dom)[v] = d;
            return;
        }
        if pc.multi.contains(&e) {
            return;
        }
        Rc::make_mut(&mut pc.multi).push(e);
        let l = Rc::make_mut(&mut pc.linked);
        for &v in vars.iter() {
            l[v as usize >> 6] |= 1 << (v & 63);
        }
    }
    /// Independent confirmation with z3 alone that the whole path condition plus `e` is (un)satisfiable.
    pub fn confirm(&mut self, pool: &mut Pool, pc: &mut Pc, e: E) -> Result<bool, ()> {
        pc.ensure(pool);
        self.solve(pool, pc, e).map(|r| r.is_some())
    }
}
