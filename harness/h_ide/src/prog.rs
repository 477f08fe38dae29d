//! Program templates: `$` declares a name, `?{i,j;k}` uses one and lists, innermost first, the holes it can mean (and
//! after `;` holes of other namespaces it may be taken for when none of these has its name).
//! `={i}` declares a name equal to hole i's, `#{i}` is a further, new name (an alias) for what hole i means.
//! `~{i}` is a declaration that happens to have hole i's name, `&{i,j}` (a field shorthand) uses both field i and variable j.
//! Holes are numbered from 0 in order of appearance; a candidate that is itself a use is an import of what it means.
//! Every hole is one symbolic letter.
use crate::world::SPEC_FILE;
use syntax::{TextRange, TextSize};

#[derive(Clone)]
pub enum Hole {
    Decl,
    Use(Vec<usize>, Vec<usize>),
    Same(usize),
    Alias(usize),
    Both(usize, usize),
}
pub struct Prog {
    pub file: Vec<u32>,
    pub at: Vec<usize>,
    pub len: Vec<usize>,
    pub label: Vec<bool>,
    pub holes: Vec<Hole>,
    pub names: Vec<u8>,
    pub texts: Vec<Vec<u8>>,
    /// The template's name in the report of what was reached.
    pub cover: &'static str,
    pub template: usize,
}

#[derive(Clone, Copy)]
/// Texts (one per file), groups of holes whose names are assumed to differ pairwise, how many letters names are drawn from.
pub struct T(pub &'static [&'static str], pub &'static [&'static [usize]], pub u64);

fn nums(b: &[u8], i: &mut usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    *i += 1; // {
    let mut n = None;
    loop {
        let d = b[*i];
        *i += 1;
        if d.is_ascii_digit() {
            n = Some(n.unwrap_or(0) * 10 + (d - b'0') as usize);
            continue;
        }
        if let Some(n) = n.take() {
            r.last_mut().unwrap().push(n);
        }
        if d == b'}' {
            return r;
        }
        if d == b';' {
            r.push(vec![]);
        }
    }
}

impl Prog {
    /// Uses other than `free` take the name of their first candidate.
    pub fn new(t: &T, free: Option<usize>) -> Prog {
        let T(parts, distinct, letters) = t;
        let needed = distinct.iter().map(|g| g.len() as u64).max().unwrap_or(1);
        let letters = (letters - sym::param("less", 0)).max(needed);
        let mut p = Prog { file: vec![], at: vec![], len: vec![], label: vec![], holes: vec![], names: vec![], texts: vec![], cover: "", template: 0 };
        let next = std::cell::Cell::new(b'a');
        for (fi, t) in parts.iter().enumerate() {
            let b = t.as_bytes();
            let mut out = vec![];
            let mut i = 0;
            while i < b.len() {
                let c = b[i];
                i += 1;
                if c != b'$' && !(matches!(c, b'?' | b'#' | b'=' | b'~' | b'&') && b[i] == b'{') {
                    out.push(c);
                    continue;
                }
                let mut n = if c == b'$' { vec![] } else { nums(b, &mut i) };
                let k = p.holes.len();
                // with `any` 0 names are told apart, but not ordered: the first one is a, each is at most the letter after all before it
                let any = || {
                    let n = sym::range(b'a' as u64, b'a' as u64 + letters - 1, "name") as u8;
                    if sym::param("any", 1) == 0 {
                        sym::assume(n <= next.get());
                        next.set(next.get() + (n == next.get()) as u8);
                    }
                    n
                };
                let (hole, name) = match c {
                    b'$' => (Hole::Decl, any()),
                    b'~' => (Hole::Decl, p.names[n[0][0]]),
                    b'&' => (Hole::Both(n[0][0], n[0][1]), p.names[n[0][0]]),
                    b'=' => (Hole::Same(n[0][0]), p.names[n[0][0]]),
                    b'#' => (Hole::Alias(n[0][0]), any()),
                    _ => {
                        let others = if n.len() > 1 { n.pop().unwrap() } else { vec![] };
                        let c = n.pop().unwrap();
                        let name = if free != Some(k) && c.first().is_some_and(|c| *c < k) { p.names[c[0]] } else { any() };
                        (Hole::Use(c, others), name)
                    }
                };
                // a label's name includes the quote, and a name can begin with an underscore
                let label = out.last() == Some(&b'\'');
                let quote = (label || out.last() == Some(&b'_')) as usize;
                p.label.push(label);
                p.file.push(p.id(fi, t));
                p.at.push(out.len() - quote);
                p.len.push(1 + quote);
                p.holes.push(hole);
                p.names.push(name);
                out.push(name);
            }
            p.texts.push(out);
        }
        for g in *distinct {
            for (k, i) in g.iter().enumerate() {
                for j in &g[k + 1..] {
                    sym::assume(p.names[*i] != p.names[*j]);
                }
            }
        }
        p
    }
    /// How many holes a template has.
    pub fn count(t: &T) -> usize {
        t.0.iter().map(|t| t.as_bytes().windows(2).filter(|c| c[0] == b'$' || matches!(c[0], b'?' | b'#' | b'=' | b'~' | b'&') && c[1] == b'{').count()).sum()
    }
    /// The file of a text: module specifications live in the file that goes with the first one.
    fn id(&self, k: usize, text: &str) -> u32 {
        if k > 0 && text.starts_with("spec") { SPEC_FILE } else { k as u32 + 1 }
    }
    /// File numbers and texts.
    pub fn files(&self) -> Vec<(u32, &str)> {
        let mut r = vec![];
        for (k, t) in self.texts.iter().enumerate() {
            let t = unsafe { std::str::from_utf8_unchecked(t) };
            r.push((self.id(k, t), t));
        }
        r
    }
    /// The declaration a hole stands for.
    pub fn meaning(&self, i: usize) -> Option<usize> {
        match &self.holes[i] {
            Hole::Decl | Hole::Same(_) | Hole::Both(..) => Some(i),
            Hole::Alias(j) => self.meaning(*j),
            Hole::Use(c, _) => {
                for &j in c {
                    if self.names[j] == self.names[i] {
                        return self.meaning(j);
                    }
                }
                None
            }
        }
    }
    /// The hole a use takes its meaning from directly: an import, or the declaration itself.
    pub fn through(&self, i: usize) -> Option<usize> {
        let Hole::Use(c, _) = &self.holes[i] else { return None };
        c.iter().copied().find(|&j| self.names[j] == self.names[i])
    }
    /// Is a hole one of those others may take their meaning from, though it is no declaration?
    pub fn is_import(&self, j: usize) -> bool {
        matches!(self.holes[j], Hole::Use(..) | Hole::Alias(_)) && self.holes.iter().any(|h| matches!(h, Hole::Use(c, _) if c.contains(&j)))
    }
    pub fn range(&self, i: usize) -> TextRange {
        TextRange::at(TextSize::from(self.at[i] as u32), TextSize::from(self.len[i] as u32))
    }
    /// Is hole `j` a use of the declaration `d` by its name?
    pub fn refers(&self, j: usize, d: usize) -> bool {
        match self.holes[j] {
            Hole::Decl | Hole::Alias(_) => false,
            Hole::Same(k) => k == d,
            Hole::Both(f, v) => (f == d) | (v == d),
            Hole::Use(..) => (self.names[j] == self.names[d]) && self.meaning(j) == Some(d),
        }
    }
    /// The texts with every hole the function gives a replacement for replaced.
    pub fn replaced(&self, f: impl Fn(usize) -> Option<String>) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for (k, t) in self.texts.iter().enumerate() {
            let (mut r, mut at) = (vec![], 0);
            for i in 0..self.holes.len() {
                if self.file[i] != self.id(k, unsafe { std::str::from_utf8_unchecked(t) }) {
                    continue;
                }
                if let Some(s) = f(i) {
                    r.extend_from_slice(&t[at..self.at[i]]);
                    r.extend_from_slice(s.as_bytes());
                    at = self.at[i] + self.len[i];
                }
            }
            r.extend_from_slice(&t[at..]);
            out.push(r);
        }
        out
    }
    /// Can a hole without meaning be taken for the declaration `j` of another namespace?
    pub fn tolerated(&self, i: usize, file: u32, at: usize) -> bool {
        let Hole::Use(_, others) = &self.holes[i] else { return false };
        others.iter().any(|&j| (self.names[j] == self.names[i]) & self.meaning(j).is_some_and(|j| self.file[j] == file && self.at[j] == at))
    }
}

/// Variables, parameters, labels, type parameters: lexical scoping.
pub const LOCALS: &[T] = &[
    // 0: parameters, let, shadowing, nested blocks
    T(&["module 0x1::m { const $: u8 = 1; fun f($: u8) { let $ = ?{1,0}; { let $ = ?{2,1,0}; ?{4,2,1,0}; }; ?{2,1,0}; let $ = ?{2,1,0}; ?{8,2,1,0}; } fun g() { ?{0}; } }"], &[], 3),
    // 1: tuple and struct patterns
    T(&["module 0x1::m { struct S { x: u8, y: u8 } fun f($: u8, s: S) { let ($, $) = (?{0}, ?{0}); let S { x: $, y: $ } = s; ?{5,6,1,2,0}; } }"], &[&[1, 2], &[5, 6]], 3),
    // 2: lambda parameters
    T(&["module 0x1::m { inline fun g(h: |u8, u8| u8) {} fun f() { let $ = 1; g(|$, $| ?{1,2,0} + { let $ = ?{2,1,0}; ?{4,1,2,0} }); ?{0}; } }"], &[&[1, 2]], 3),
    // 3: for loops
    T(&["module 0x1::m { fun f($: u64) { let $ = 0; for ($ in 0..10) { ?{2,1,0}; let $ = 1; ?{4,2,1,0}; }; ?{1,0}; } }"], &[], 3),
    // 4: while and loop bodies, branches
    T(&["module 0x1::m { fun f($: u64) { while (?{0} > 1) { let $ = ?{0}; ?{2,0}; }; ?{0}; loop { let $ = ?{0}; ?{6,0}; }; if (?{0} > 2) { let $ = 1; ?{10,0} } else { let $ = 2; ?{12,0} }; ?{0}; } }"], &[], 3),
    // 5: match arms
    T(&["module 0x1::m { enum E { A { x: u8 }, B(u8) } fun f(e: E, $: u8) { match (e) { E::A { x: $ } if (?{1,0} > 0) => ?{1,0}, E::B($) => { let $ = ?{4,0}; ?{5,4,0} } }; ?{0}; } }"], &[], 3),
    // 6: loop labels
    T(&["module 0x1::m { fun f() { '$: loop { '$: while (true) { break '?{1,0}; }; continue '?{0}; }; '$: loop { break '?{4} } } }"], &[&[0, 1]], 3),
    // 7: type parameters
    T(&["module 0x1::m { struct $ {} struct $<$> { x: ?{2,0,1} } fun f<$, $>(x: ?{4,5,0,1}, y: vector<?{5,4,0,1}>): ?{4,5,0,1} { let z: ?{4,5,0,1} = x; z } fun g(x: ?{0,1}) {} }"], &[&[0, 1], &[4, 5]], 3),
    // 8: quantifiers
    T(&["module 0x1::m { spec fun s($: u8): bool { (forall $ in 0..10: ?{1,0} > 0) && (exists $: u8, $: u8: ?{3,4,0} > 1 && ?{4,3,0} < 2) && ?{0} > 1 } }"], &[&[3, 4]], 3),
    // 9: quantifiers that choose
    T(&["module 0x1::m { spec fun s($: u8): bool { (choose $ in 0..1 where ?{1,0} > 2) > ?{0} && (choose min $: u8 where ?{4,0} > 3) > ?{0} } }"], &[], 3),
    // 10: specs of functions
    T(&["module 0x1::m { fun f($: u8, $: u8): u8 { 1 } spec fun p($: num): bool { ?{2} > 1 } spec f { let $ = ?{0,1}; requires ?{4,0,1} > 0; ensures ?{1,4,0} > result; ensures result == 1; } }"], &[&[0, 1, 4]], 4),
    // 11: schemas
    T(&["module 0x1::m { fun f($: u8) {} spec schema S { $: u8; $: u8; ensures ?{1,2} > 0; } spec f { include S { ?{1,2}: ?{0} }; } }"], &[&[1, 2]], 3),
    // 12: scripts
    T(&["script { const $: u8 = 1; fun main($: u8) { ?{1,0}; let $ = ?{1,0}; ?{3,1,0}; } }"], &[], 3),
    // 13: spec blocks and loop invariants in bodies
    T(&["module 0x1::m { fun f($: u8) { let $ = 1; spec { let $ = ?{1,0}; assert ?{2,1,0} > 0; }; while ({ spec { invariant ?{1,0} > 0; }; ?{1,0} > 1 }) { let $ = 2; } } }"], &[], 3),
    // 14: assignments, references, nested expressions, variables without an initializer
    T(&["module 0x1::m { fun f($: u8) { let $; ?{1,0} = 1; let $: u8; { ?{3,1,0} = *&mut ?{3,1,0}; (?{3,1,0}, _) = (1, 2); vector[?{3,1,0}, -?{3,1,0}]; return ?{3,1,0} } } }"], &[], 3),
    // 15: a function's scope ends with it; blocks of one function do not see each other
    T(&["module 0x1::m { fun f($: u8) { { let $ = 1; ?{1,0} }; { let $ = 2; ?{3,0} }; ?{0} } fun g($: u8) { let $ = ?{6}; ?{7,6} } }"], &[], 3),
    // 16: nested lambdas
    T(&["module 0x1::m { inline fun g(h: |u8| u8): u8 { h(1) } fun f($: u8) { g(|$| g(|$| ?{2,1,0}) + ?{1,0}); } }"], &[], 3),
    // 17: fields in the specification of a struct
    T(&["module 0x1::m { const $: u8 = 1; struct S { $: u8, $: u8 } spec S { invariant ?{1,2,0} > 0; } }"], &[&[0, 1, 2]], 3),
    // 18: shorthand patterns
    T(&["module 0x1::m { struct S { $: u8, $: u8 } fun f($: u8, s: S) { let S { ={0}, ={1} } = s; ?{3,4,2}; } }"], &[&[0, 1]], 3),
    // 19: inline functions' parameters, receiver
    T(&["module 0x1::m { struct S { x: u8 } inline fun f($: |u8| u8, $: u8): u8 { ?{0,1}(?{1,0}) } fun g(self: &S, $: u8): u8 { ?{4} + self.x } }"], &[&[0, 1]], 3),
    // 20: shadowing in one statement
    T(&["module 0x1::m { fun f($: u8) { let ($, $) = { let $ = ?{0}; (?{3,0}, ?{3,0}) }; let $ = ?{1,2,0} + { let $ = 1; ?{9,1,2,0} }; ?{7,1,2,0}; } }"], &[&[1, 2]], 3),
    // 21: invariants of for loops
    T(&["module 0x1::m { fun f($: u64) { let $ = 0; for ($ in 0..10 spec { invariant ?{2,1,0} > 0; }) { ?{2,1,0}; }; ?{1,0}; } }"], &[], 3),
    // 22: specs of a function's parameters in another file, in a module specification, of a native function
    T(&["module 0x1::m { native fun f($: u8, $: u8): u8; fun g($: u8): u8 { ?{2} } spec f { requires ?{0,1} > 0; } }", "spec 0x1::m { spec f { ensures ?{1,0} > 0; } spec g { ensures ?{2} > 1; aborts_if ?{2} > 0 with 1; } }"], &[&[0, 1]], 3),
    // 23: invariants of while loops, spec blocks of lambdas
    T(&["module 0x1::m { inline fun g(h: |u8| u8) {} fun f($: u64) { let $ = 0; while (?{1,0} > 1) { ?{1,0}; } spec { invariant ?{1,0} > 0; }; g(|$| ?{5,1,0} spec { ensures ?{5,1,0} > 0; }); } }"], &[], 3),
    // 24: type parameters named like an item of the module
    T(&["module 0x1::m { struct $(u8) enum $ { A } struct Q<$> { x: ?{2,0,1} } enum E<$> { B { y: ?{4,0,1} } } fun f<$>(x: ?{6,0,1}): ?{6,0,1} { let z: ?{6,0,1} = x; z } fun g(x: ?{0,1}) {} }"], &[&[0, 1]], 3),
    // 25: the same, in specifications
    T(&["module 0x1::m { struct $(u8) enum $ { A } spec fun h<$>(x: ?{2,0,1}): bool { true } spec schema C<$> { x: ?{4,0,1}; } }"], &[&[0, 1]], 3),
    // 26: names that begin with an underscore
    T(&["module 0x1::m { const $: u8 = 1; fun f(_$: u8, $: u8) { let _$ = _?{1}; let $ = _?{3,1}; { let _$ = ?{5,2,0}; _?{7,3,1}; ?{5,2,0}; }; _?{3,1}; } fun g(_$: u8) { |_$| _?{13,12}; } }"], &[], 3),
];

/// Functions, constants, structs, modules, imports.
pub const ITEMS: &[T] = &[
    // 0: functions, constants and structs of a module
    T(&["module 0x1::m { const $: u8 = 1; fun $() {} fun $() {} struct $ { x: ?{3,5} } struct $ {} fun f(s: ?{3,5}): ?{3,5} { ?{1,2;0,3,5}(); ?{0;1,2,3,5}; ?{3,5;0,1,2} { x: 1 } } }"], &[&[0, 1, 2, 3, 5]], 5),
    // 1: imported items
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::?{0,1}; fun $() {} fun f() { ?{2,3}(); ?{3,2}(); 0x1::n::?{0,1}(); Self::?{3;2}(); } }"], &[&[0, 1], &[2, 3]], 3),
    // 2: grouped imports and aliases
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::{?{0,1} as #{2}, ?{0,1}}; use 0x1::n; fun f() { ?{3,4}(); n::?{0,1}(); n::?{1,0}(); } }"], &[&[0, 1], &[3, 4]], 3),
    // 3: modules
    T(&["module 0x1::$ { public fun $() {} public fun g() {} } module 0x1::$ { public fun $() {} public fun g() {} } module 0x2::$ { public fun g() {} } module 0x1::k { use 0x1::?{0,2}; use 0x2::?{4} as #{6}; friend 0x1::?{0,2}; fun f() { ?{5,7}::g(); 0x1::?{0,2}::g(); 0x2::?{4}::g() } }"], &[&[0, 2], &[5, 7]], 3),
    // 4: imports in a block
    T(&["module 0x1::n { public fun $() {} } module 0x1::m { fun $() {} fun f() { use 0x1::n::?{0}; ?{2,1}(); { use 0x1::n::?{0} as #{4}; ?{5,2,1}(); }; ?{2,1}(); } fun g() { ?{1}(); } }"], &[], 3),
    // 5: another file
    T(&["module 0x1::n { public struct $ {} public fun $(): u8 { 1 } public fun $(): u8 { 2 } }", "module 0x1::m { use 0x1::n::{Self, ?{0;1,2}, ?{1,2;0}}; fun f(s: ?{3}): u8 { ?{4;3}() + n::?{1,2;0}() + 0x1::n::?{2,1;0}() } }"], &[&[0, 1, 2], &[3, 4]], 3),
    // 6: resources
    T(&["module 0x1::m { struct $ has key { x: u8 } struct $ has key { x: u8 } fun f(): u8 acquires ?{0,1} { let ?{0,1} { x } = ?{1,0} { x: 1 }; borrow_global<?{0,1}>(@0x1); borrow_global<?{1,0}>(@0x1).x } }"], &[&[0, 1]], 3),
    // 7: tuple structs
    T(&["module 0x1::m { struct $(u8) struct $(u8) fun f(): u8 { let ?{0,1}(x) = ?{1,0}(1); x } fun g(s: ?{0,1}): u8 { 1 } }"], &[&[0, 1]], 3),
    // 8: one name in two modules
    T(&["module 0x1::m { fun $() {} const $: u8 = 1; fun f() { ?{0;1}(); ?{1;0}; } } module 0x1::n { fun $() {} const $: u8 = 1; fun f() { ?{4;5}(); ?{5;4}; } }"], &[&[0, 1], &[4, 5]], 3),
    // 9: enum variants
    T(&["module 0x1::m { enum E { $, $ { x: u8 }, $(u8) } enum D { $ } fun f(e: E): E { let d = D::?{3}; match (e) { E::?{0,1,2} => 1, E::?{1,0,2} { .. } => 2 }; E::?{2,0,1} } }"], &[&[0, 1, 2]], 4),
    // 10: enums and their variants by path
    T(&["module 0x1::n { public enum $ { A, B } public enum $ { C, B } } module 0x1::m { use 0x1::n::?{0,1}; fun f() { ?{2}::B; 0x1::n::?{1,0}::B; } }"], &[&[0, 1]], 3),
    // 11: schemas
    T(&["module 0x1::m { fun f(x: u8) {} spec schema $ { y: u8; } spec schema $ { include ?{0,1} { y: 1 }; } spec f { include ?{0,1} { y: x }; include ?{1,0}; } }"], &[&[0, 1]], 3),
    // 12: specifications: their targets, spec functions
    T(&["module 0x1::m { fun $() {} struct $ { x: u8 } spec fun $(x: num): bool { true } spec ?{0,1;2} { } spec ?{1,0;2} { } spec module { invariant ?{2;0}(1); } }"], &[&[0, 1, 2]], 3),
    // 13: module specifications in another file
    T(&["module 0x1::m { fun $() {} fun $() {} struct $ {} }", "spec 0x1::m { spec ?{0,1,2} { } spec ?{2,1,0} { } spec schema S { ensures true; } }"], &[&[0, 1, 2]], 3),
    // 14: a local function and an import of the same module under another name
    T(&["module 0x1::n { public fun $() {} } module 0x2::n { public fun $() {} } module 0x1::m { use 0x1::n; use 0x2::n as k; fun f() { n::?{0}(); k::?{1}(); 0x2::n::?{1}(); 0x1::n::?{0}() } }"], &[], 3),
    // 15: constants in expressions, in other constants, in specs
    T(&["module 0x1::m { const $: u8 = 1; const $: u8 = ?{0,1} + 1; fun f(): u8 { ?{0,1} + ?{1,0} } spec f { ensures result == ?{0,1}; } }"], &[&[0, 1]], 3),
    // 16: structs as type arguments
    T(&["module 0x1::m { struct $ {} struct $<T> { x: T } fun g<T>() {} fun f(x: ?{1,0}<?{0,1}>, y: &mut vector<?{0,1}>, z: |?{0,1}| ?{1,0}) { g<?{0,1}>(); let t: (?{0,1}, &?{0,1}); } }"], &[&[0, 1]], 3),
    // 17: friends
    T(&["module 0x1::$ { friend 0x1::?{2,0}; } module 0x1::$ { } "], &[&[0, 2]], 3),
    // 18: imports of an import's module, Self in a group
    T(&["module 0x1::n { public fun $() {} } module 0x1::m { use 0x1::n::{Self as k, ?{0}}; fun f() { k::?{0}(); ?{1}(); } }"], &[], 3),
];

/// Fields, methods: found through the type of the expression.
pub const MEMBERS: &[T] = &[
    // 0: fields of nested structs, literals, patterns
    T(&["module 0x1::m { struct S { $: u8, $: R } struct R { $: u8 } fun f(s: S, r: &R) { s.?{0,1}; r.?{2}; S { ?{0,1}: 1, ?{1,0}: R { ?{2}: 2 } }; let S { ?{0,1}: p, ?{1,0}: q } = s; } }"], &[&[0, 1]], 3),
    // 1: receiver-style functions
    T(&["module 0x1::m { struct S has drop {} struct R has drop {} fun $(self: &S) {} fun $(self: S) {} fun $(self: R) {} fun $(x: u8) {} fun f(s: S, r: &mut S, t: R) { s.?{0,1}(); r.?{0}(); t.?{2}(); } }"], &[&[0, 1, 2, 3]], 4),
    // 2: parameters, references, vectors, literals
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } fun f0(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { s.?{0}; b.?{0}; r.?{1}; (&mut s).?{0}; (*b).?{0}; } fun f1(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { v[0].?{1}; p.p.?{0}; (s).?{0}; { let x = 1; s }.?{0}; } fun f2(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { (if (c) r else R { ?{1}: 2 }).?{1}; vector[s][0].?{0}; (copy r).?{1}; (move s).?{0}; } fun f3(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { (&p.p).?{0}; (&v)[1].?{1}; (&mut v[0]).?{1}; *&mut s.?{0} = 1; } }"], &[], 3),
    // 3: calls, generic functions, methods
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } fun ms(): S { S { ?{0}: 1 } } fun id<T>(x: T): T { x } fun wrap<T>(x: T): P<T> { P { p: x } } fun m(self: &S): R { R { ?{1}: 1 } } fun get<T>(self: &P<T>): &T { &self.p } fun f0(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { ms().?{0}; id(s).?{0}; id<R>(r).?{1}; wrap(r).p.?{1}; } fun f1(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { p.get().?{0}; s.m().?{1}; wrap(wrap(r)).p.p.?{1}; wrap(s).get().m().?{1}; } }"], &[], 3),
    // 4: local variables and patterns
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } fun two(): (S, R) { (S { ?{0}: 1 }, R { ?{1}: 1 }) } fun wrap<T>(x: T): P<T> { P { p: x } } fun f0(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { let x1 = s; x1.?{0}; let (x2, x3) = (s, r); x2.?{0}; x3.?{1}; } fun f1(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { let P { p: x4 } = p; x4.?{0}; let x5: R; x5.?{1}; let P { p: x6 } = P { p: r }; x6.?{1}; } fun f2(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { let (x7, x8) = two(); x7.?{0}; x8.?{1}; let x9 = &v[0]; x9.?{1}; let P { p } = wrap(r); p.?{1}; } fun f3(s: S, r: R, b: &S, v: vector<R>, p: P<S>, c: bool) { let x11 = &mut s; *x11 = S { ?{0}: 1 }; x11.?{0}; let x12; x12 = s; x12.?{0}; let x13 = x12; x13.?{0} } }"], &[], 3),
    // 5: lambdas, resources
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } fun m(self: &S): R { R { ?{1}: 1 } } inline fun app<A, B>(x: A, g: |A| B): B { g(x) } fun f0(s: S, r: R) { app(s, |x| x.?{0}); let h = |y: S| y; h(s).?{0}; } fun f1(s: S, r: R) { app(r, |x| { x.?{1}; x }).?{1}; } fun f2(s: S, r: R) { borrow_global<S>(@0x1).?{0}; borrow_global_mut<R>(@0x1).?{1}; S[@0x1].?{0}; (&R[@0x1]).?{1}; move_from<S>(@0x1).?{0}; } }"], &[], 3),
    // 6: enums, control flow
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } enum O<T> { None, Some { e: T }, Pair(T, T) } fun f0(s: S, r: R, o: O<R>, c: bool) { match (o) { O::None => 1, O::Some { e } => e.?{1}, O::Pair(g, h) => { h.?{1} } } } fun f1(s: S, r: R, o: O<R>, c: bool) { match (&o) { O::Some { e: i } => i.?{1}, _ => 1 }; (match (c) { true => s, _ => s }).?{0}; } fun f2(s: S, r: R, o: O<R>, c: bool) { if (c) { r } else { r }.?{1}; for (i in 0..1) { s.?{0} }; while (s.?{0} > 1) { r.?{1} }; } fun f3(s: S, r: R, o: O<R>, c: bool) { if (c) { return r.?{1} }; loop { s.?{0}; break }; abort s.?{0} } }"], &[], 3),
    // 7: specifications
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } fun id<T>(x: T): T { x } fun f(s: S, b: &mut R): S { s } fun g(s: S): (S, R) { (s, R { ?{1}: 1 }) } spec fun h(s: S): num { s.?{0}; (forall x: R: x.?{1} > 1); id(s).?{0}; 1 } spec f { requires s.?{0} > 0; ensures result.?{0} == old(b).?{1}; ensures old(b.?{1}) > 1; ensures global<R>(@0x1).?{1} > 1; let x = s; ensures x.?{0} > 2; let post y = global<S>(@0x1); ensures y.?{0} > 2; aborts_if exists x: S: x.?{0} > 1; ensures forall i in 0..1: s.?{0} > i; } spec g { ensures result_1.?{0} > result_2.?{1}; } }"], &[], 3),
    // 8: receiver-style calls, generic
    T(&["module 0x1::m { struct S has copy, drop {} struct P<T> has copy, drop { p: T } fun $(self: &S): P<S> { P { p: *self } } fun $<T>(self: P<T>): T { self.p } fun $(self: &mut S) {} fun f(s: S, p: P<P<S>>) { s.?{0,2}(); s.?{0,2}().?{1}(); (&s).?{0}(); } fun g(s: S, p: P<P<S>>) { p.?{1}(); p.?{1}().?{1}(); p.?{1}().?{1}().?{2,0}(); (&mut s).?{0,2}(); } }"], &[&[0, 1, 2]], 4),
    // 9: another module's structs and methods
    T(&["module 0x1::n { public struct S has copy, drop { $: u8 } public fun $(self: &S): u8 { 1 } public fun mk(): S { S { ?{0}: 1 } } }", "module 0x1::m { use 0x1::n; use 0x1::n::S; fun f(s: S, t: n::S) { s.?{1}(); t.?{1}(); n::mk().?{1}(); let x = n::mk(); x.?{1}(); 0x1::n::mk().?{1}() } }"], &[], 3),
    // 10: tuple structs and tuples with `..`, nested patterns
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct T(S, S, R) has copy, drop; struct P<T> has copy, drop { p: T, q: vector<T> } fun f0(s: S, r: R, t: T) { let T(a, .., b) = t; a.?{0}; b.?{1}; let T(.., c) = t; c.?{1}; } fun f1(s: S, r: R, t: T) { let (d, .., e) = (s, r, s, r); d.?{0}; e.?{1}; let (.., g, h) = (s, s, r, s); g.?{1}; h.?{0}; } fun f2(s: S, r: R, t: T) { let (i, P { p: j, q: k }) = (s, P { p: r, q: vector[r] }); i.?{0}; j.?{1}; k[0].?{1}; } fun f3(s: S, r: R, t: &T) { let T(a, _, b) = t; a.?{0}; b.?{1}; let T(.., c) = t; c.?{1}; let P { p: d, .. } = &P { p: s, q: vector[] }; d.?{0}; } }"], &[], 3),
    // 11: branches that do not end
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } enum E { A, B } fun f0(s: S, r: R, c: bool) { (if (c) { return } else { s }).?{0}; (if (c) { s } else { return }).?{0}; (if (c) abort 1 else r).?{1}; } fun f1(s: S, r: R, e: E) { (match (e) { E::A => return, E::B => r }).?{1}; (match (e) { E::A => s, E::B => abort 1 }).?{0}; } fun f2(s: S, r: R, c: bool) { loop { let x = if (c) { break } else { s }; x.?{0}; let y = if (!c) { continue } else if (c) { return } else { r }; y.?{1}; } } fun f3(s: S, r: R, c: bool) { let x = loop { if (c) break; }; let y = { if (c) return; r }; y.?{1}; let z = if (c) { let s = r; s } else { r }; z.?{1}; } }"], &[], 3),
    // 12: several type parameters, nested instances
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct Q<A, B> has copy, drop { a: B, b: A } struct P<T> has copy, drop { p: T } fun swap<A, B>(q: Q<A, B>): Q<B, A> { Q { a: q.b, b: q.a } } fun mk<A, B>(a: A, b: B): Q<A, B> { Q { a: b, b: a } } fun f0(s: S, r: R, q: Q<S, R>) { q.a.?{1}; q.b.?{0}; swap(q).a.?{0}; swap(q).b.?{1}; } fun f1(s: S, r: R, q: Q<P<S>, Q<R, S>>) { q.b.p.?{0}; q.a.a.?{0}; q.a.b.?{1}; swap(q).a.p.?{0}; swap(swap(q).b).b.?{0}; } fun f2(s: S, r: R) { mk(s, r).b.?{0}; mk(s, r).a.?{1}; swap(mk(r, s)).a.?{1}; mk<R, S>(r, s).a.?{0}; } fun f3(s: S, r: R) { let x = mk(P { p: s }, vector[r]); x.b.p.?{0}; x.a[0].?{1}; let Q { a, b } = swap(x); a.p.?{0}; b[1].?{1}; } }"], &[], 3),
    // 13: inferred later, assigned, vectors of vectors
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct P<T> has copy, drop { p: T } fun set<T>(x: &mut P<T>, y: T) {} fun none<T>(): P<T> { abort 1 } fun same<T>(x: T, y: T): T { x } fun f0(s: S, r: R) { let x = none(); set(&mut x, s); x.p.?{0}; let y = none<R>(); y.p.?{1}; } fun f1(s: S, r: R, v: vector<vector<R>>) { v[0][1].?{1}; let w = &mut v[0]; w[1].?{1}; let u = vector[vector[s]]; u[0][0].?{0}; } fun f2(s: S, r: R) { same(none(), P { p: s }).p.?{0}; let x: P<R> = none(); x.p.?{1}; let (a, b); (a, b) = (s, r); a.?{0}; b.?{1}; } fun f3(s: S, r: R) { let a = s; let b = r; (a, b) = (S { ?{0}: 1 }, R { ?{1}: 1 }); a.?{0}; b.?{1}; let (c, d): (R, S); c.?{1}; d.?{0}; } }"], &[], 3),
    // 14: functions as values
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } struct F has copy, drop { g: |S| R } struct W(|R| S) has copy, drop; fun m(s: S): R { R { ?{1}: s.?{0} } } inline fun app<A, B, C>(x: A, y: B, g: |A, B| C): C { g(x, y) } fun f0(s: S, r: R, f: F) { (f.g)(s).?{1}; let h = |x: R, y: S| y; h(r, s).?{0}; } fun f1(s: S, r: R, h: |S| (R, S)) { let (a, b) = h(s); a.?{1}; b.?{0}; } fun f2(s: S, r: R) { app(s, r, |x, y| y).?{1}; app(s, r, |x, y| x.?{0} + y.?{1}); app(r, s, |x, y| { let z = x; z.?{1}; y }).?{0}; } fun f3(s: S, r: R) { app(1, s, |_, y| y).?{0}; app(r, 1, |x, _| x).?{1}; let g = |x: &S| { x.?{0}; *x }; g(&s).?{0}; } }"], &[], 3),
    // 15: enums
    T(&["module 0x1::m { struct S has copy, drop, key { $: u8 } struct R has copy, drop, key { $: u8 } enum E<T> has copy, drop { A { x: T, y: u8 }, B(T, R), C } fun f0(s: S, r: R, e: E<S>) { match (e) { E::A { x: a, y: _ } => a.?{0}, E::B(b, c) => { b.?{0}; c.?{1} } E::C => 1 }; } fun f1(s: S, r: R, e: &mut E<S>) { match (e) { E::A { x, .. } => x.?{0}, E::B(.., c) => c.?{1}, E::C => 1 }; e.x.?{0}; } fun f2(s: S, r: R) { match (E::A { x: r, y: 1 }) { E::A { x: a, y: _ } if (a.?{1} > 0) => a.?{1}, E::B(a, _) => a.?{1}, _ => 1 }; } fun f3(s: S, r: R, e: E<E<S>>) { match (e) { E::A { x: E::B(a, b), y: _ } => { a.?{0}; b.?{1} } E::B(E::A { x: a, y: _ }, c) => { a.?{0}; c.?{1} } _ => 1 }; } }"], &[], 3),
    // 16: other modules' generic types and functions, under aliases
    T(&["module 0x1::n { public struct S has copy, drop { $: u8 } public struct R has copy, drop { $: u8 } public struct P<T> has copy, drop { p: T } public fun wrap<T>(x: T): P<T> { P { p: x } } public fun get<T: copy>(self: &P<T>): T { self.p } public fun r(): R { R { ?{1}: 1 } } public fun one(self: &R): S { S { ?{0}: 1 } } }", "module 0x1::m { use 0x1::n::{Self, S as A, P, wrap as w}; use 0x1::n as k; friend 0x1::n; fun f0(a: A, b: n::R, p: P<n::R>) { k::r().one(); b.one(); w(a).get(); p.get().one(); } fun f1(a: A, b: k::R) { let x = w(k::r()); x.get().one(); let y = n::wrap<A>(a); y.get(); } }", "spec 0x1::n { spec wrap { ensures result.p == x; } spec one { ensures result.?{0} == self.?{1}; } spec fun h(p: P<P<S>>, q: vector<R>): bool { p.p.p.?{0} > q[0].?{1} && (exists x: S: x.?{0} > 0) } }"], &[], 3),
];

/// Shorthand fields: one name that stands for a field and a variable.
pub const SHORTHANDS: &[T] = &[
    // 0: literals
    T(&["module 0x1::m { struct S { $: u8, $: u8 } fun f(~{0}: u8, ~{1}: u8): S { let $ = 1; ?{2}; S { &{0,2}, ?{1}: ?{3} } } }"], &[&[0, 1, 4]], 3),
    // 1: patterns
    T(&["module 0x1::m { struct S { $: u8, $: u8 } fun f(s: S): u8 { let S { ={0}, ={1} } = s; { let $ = 1; ?{4}; }; ?{2} + ?{3} } fun g(s: &S): u8 { s.?{0} } }"], &[&[0, 1, 4]], 3),
    // 2: both, through a variable bound by a pattern
    T(&["module 0x1::m { struct S { $: u8, y: u8 } struct R { ~{0}: u8 } fun f(s: S): R { let S { ={0}, y: _ } = s; R { &{1,2} } } fun g(r: R): u8 { let R { ={1} } = r; ?{4} } }"], &[], 3),
    // 3: full fields, whose expression or pattern has the field's name
    T(&["module 0x1::m { struct S { $: u8, $: u8 } fun f(~{0}: u8, $: u8): S { S { ?{0}: ?{2}, ?{1}: ?{3} } } fun g(s: S) { let S { ?{0}: ~{0}, ?{1}: $ } = s; ?{9} + ?{11}; } }"], &[&[0, 1], &[0, 3], &[1, 3], &[0, 11], &[1, 11]], 4),
    // 4: variants
    T(&["module 0x1::m { enum E { A { $: u8 }, B { ~{0}: u8 } } fun f(e: E): u8 { match (e) { E::A { ={0} } => ?{2}, E::B { ={1} } => ?{4} } } fun g(~{0}: u8): E { E::B { &{1,6} } } }"], &[], 3),
    // 5: parameters repeated in a function's specification
    T(&["module 0x1::m { fun f($: u8) { ?{0} } spec f(?{0}: u8) { requires ?{0} > 0; } }"], &[], 2),
];

/// The declarations of LOCALS that are no variables, or that need no use: constants, fields, labels, type parameters, a native
/// function's parameters.
pub const QUIET: [&[usize]; 27] = [
    &[0], &[], &[], &[], &[], &[], &[0, 1, 4], &[0, 1, 2, 4, 5], &[], &[], &[], &[1, 2], &[0],
    &[], &[], &[], &[], &[0, 1, 2], &[0, 1], &[], &[], &[], &[0, 1], &[], &[0, 1, 2, 4, 6], &[0, 1, 2, 4], &[0, 1, 3, 7, 12, 13],
];

/// Imports, some used and some not.
pub const IMPORTS: &[T] = &[
    // 0: items, with and without an alias
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::?{0,1}; use 0x1::n::?{1,0} as #{3}; fun f() { ?{2,4}(); } fun g() { ?{4,2}(); } }"], &[&[0, 1], &[2, 4]], 3),
    // 1: groups
    T(&["module 0x1::n { public fun $() {} public struct $ { x: u8 } } module 0x1::m { use 0x1::n::{?{0}, ?{1} as #{3}, Self}; fun f() { ?{2}(); n::?{0}() } fun g(s: ?{4}) {} }"], &[&[0, 1], &[2, 4]], 3),
    // 2: modules
    T(&["module 0x1::$ { public fun g() {} } module 0x1::$ { public fun g() {} } module 0x1::m { use 0x1::?{0,1}; use 0x1::?{1,0} as #{3}; fun f() { ?{2,4}::g(); } fun g() { { ?{4,2}::g() } } }"], &[&[0, 1], &[2, 4]], 3),
    // 3: types in signatures, fields, type arguments
    T(&["module 0x1::n { public struct $ has copy, drop { x: u8 } public struct $<T> has copy, drop { x: T } } module 0x1::m { use 0x1::n::{?{0,1}, ?{1,0}}; struct S { x: ?{2,3} } fun f(x: &?{3,2}<?{2,3}>): vector<?{2,3}> { let y: ?{3,2}<u8>; vector<?{2,3}>[] } }"], &[&[0, 1], &[2, 3]], 3),
    // 4: imports of a function's body
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::?{0,1}; fun f() { use 0x1::n::?{1,0}; ?{3,2}(); } fun g() { ?{2}(); } fun h() { use 0x1::n::?{0,1}; ?{6,2}() } }"], &[&[0, 1]], 2),
    // 5: specifications, the module's and another file's
    T(&["module 0x1::n { public fun $() {} spec fun $(): bool { true } } module 0x1::m { use 0x1::n::?{0,1}; use 0x1::n::?{1,0}; fun f() { ?{2}(); } spec f { ensures ?{3,2,7}(); } }", "spec 0x1::m { use 0x1::n::?{1,0} as #{6}; spec f { requires ?{7,2,3}(); } }"], &[&[0, 1, 7], &[2, 3]], 3),
    // 6: tests
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::?{0,1}; #[test_only] use 0x1::n::?{1,0}; fun f() { ?{2}(); } #[test] fun g() { ?{3,2}(); } #[test_only] fun h() { ?{3,2}(); } }"], &[&[0, 1]], 3),
    // 7: Self
    T(&["module 0x1::$ { public fun $() {} } module 0x1::m { use 0x1::?{0}::{Self as #{2}, ?{1} as #{4}}; fun f() { ?{3}::?{1}(); } fun g() { ?{5}(); } }"], &[&[3, 5]], 3),
    // 8: scripts
    T(&["module 0x1::n { public fun $() {} public fun $() {} } script { use 0x1::n::{?{0,1}, ?{1,0} as #{3}}; use 0x1::n; fun main() { ?{2,4}(); ?{4,2}(); n::?{0,1}() } }"], &[&[0, 1], &[2, 4]], 3),
    // 9: enums
    T(&["module 0x1::n { public enum $ has drop { A { x: u8 }, B(u8), C } public enum $<T> has drop { A { x: T }, D } } module 0x1::m { use 0x1::n::{?{0,1}, ?{1,0}}; fun f(e: u8) { ?{2,3}::B(1); } fun g(e: 0x1::n::?{1,0}<u8>) { match (e) { ?{3,2}::A { .. } => 1, ?{3,2}<u8>::D => 2 }; } }"], &[&[0, 1], &[2, 3]], 3),
    // 10: structs: literals, patterns, acquires, resources
    T(&["module 0x1::n { public struct $ has key, drop { x: u8 } public struct $ has key, drop { x: u8 } } module 0x1::m { use 0x1::n::{?{0,1}, ?{1,0} as #{3}}; fun f(): u8 acquires ?{2,4} { let ?{2,4} { x } = ?{2,4} { x: 1 }; x } fun g(ad: address): u8 { ?{4,2}[ad].x } }"], &[&[0, 1], &[2, 4]], 3),
    // 11: constants and friends
    T(&["module 0x1::n { public fun $() {} } module 0x1::$ {} module 0x1::m { use 0x1::n::?{0}; use 0x1::?{1}; friend ?{3}; fun f(x: bool) { assert!(x, ?{2}()); } }"], &[&[2, 3]], 3),
    // 12: schemas
    T(&["module 0x1::n { spec schema $ { x: u8; } spec schema $ { x: u8; } } module 0x1::m { use 0x1::n::?{0,1}; use 0x1::n::?{1,0}; spec schema U { include ?{2,3} { x: 1 }; } fun f(x: u8) {} spec f { include ?{3,2}; } spec module { apply ?{3,2} to f; } }"], &[&[0, 1], &[2, 3]], 3),
    // 13: attributes
    T(&["module 0x1::n { public fun $() {} } module 0x1::$ { public fun g() {} } module 0x1::m { use 0x1::n::?{0}; use 0x1::?{1}; #[test] #[expected_failure(abort_code = 1, location = ?{3,2})] fun f() { ?{2}(); } }"], &[&[2, 3]], 3),
    // 14: groups with aliases and tests
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::{?{0,1}, ?{1,0} as #{3}}; fun f() { ?{2,4}(); } #[test] fun g() { ?{4,2}(); } }"], &[&[0, 1], &[2, 4]], 3),
    // 15: `Self` in groups, aliases and tests
    T(&["module 0x1::$ { public fun g() {} } module 0x1::$ { public fun g() {} } module 0x1::m { use 0x1::?{0,1}::{g as gg, Self as #{2}}; #[test_only] use 0x1::?{1,0}::Self as #{4}; fun f() { gg(); } #[test_only] fun h() { ?{3,5}::g(); } #[test] fun k() { ?{5,3}::g() } }"], &[&[0, 1], &[3, 5]], 3),
    // 16: a group of three
    T(&["module 0x1::n { public fun $() {} public fun $() {} public fun $() {} } module 0x1::m { use 0x1::n::{?{0,1,2}, ?{1,0,2}, ?{2,0,1}}; fun f() { ?{3,4,5}(); } #[test] fun g() { ?{4,3,5}(); } }"], &[&[0, 1, 2], &[3, 4, 5]], 4),
    // 17: a group of two, none of it used outside of tests
    T(&["module 0x1::n { public fun $() {} public fun $() {} } module 0x1::m {\n    use 0x1::n::{?{0,1}, ?{1,0}};\n    #[test] fun g() { ?{2,3,6}(); }\n #[test_only] use 0x1::n::{Self, ?{0,1} as #{5}}; #[test] fun h() { ?{6,2,3}(); } }"], &[&[0, 1], &[2, 3, 6]], 4),
    // 18: `Self`, used by tests only
    T(&["module 0x1::$ { public fun g() {} } module 0x1::$ { public fun g() {} } module 0x1::m { use 0x1::?{0}::Self; use 0x1::?{1}::{Self}; use 0x1::n::{}; #[test] fun f() { ?{2,3}::g(); } fun g() { ?{3,2}::g(); } }"], &[&[0, 1], &[2, 3]], 3),
    // 19: four in a group
    T(&["module 0x1::n { public fun $() {} public fun $() {} public fun x() {} public fun y() {} } module 0x1::m {\n    use 0x1::n::{x as p, ?{0,1}, y as q, ?{1,0}};\n    fun f() { ?{2,3}() }\n    #[test_only]\n    fun g() { p(); ?{3,2}(); q() }\n}"], &[&[0, 1], &[2, 3]], 3),
];
/// Types that must agree.
pub const TYPED: &[T] = &[
    // 0: let with a type
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}) { let y: ?{0,1} = x; } }"], &[&[0, 1]], 3),
    // 1: results
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}): ?{0,1} { x } fun g(x: ?{0,1}, c: bool): ?{0,1} { if (c) { return x }; abort 1 } }"], &[&[0, 1]], 3),
    // 2: arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun g(a: u8, x: ?{0,1}) {} fun f(x: ?{0,1}) { g(1, x) } }"], &[&[0, 1]], 3),
    // 3: struct literals
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct T { a: ?{0,1}, b: u8 } fun f(x: ?{0,1}, a: ?{0,1}) { T { a: x, b: 1 }; T { a, b: 1 }; } }"], &[&[0, 1]], 3),
    // 4: positional fields, variants
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct T(u8, ?{0,1}); enum E { A(?{0,1}), B { a: ?{0,1} } } fun f(x: ?{0,1}) { T(1, x); E::A(x); E::B { a: x }; } }"], &[&[0, 1]], 3),
    // 5: assignments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}, y: ?{0,1}) { let z = x; z = y; let w; w = x; w = y; } }"], &[&[0, 1]], 3),
    // 6: branches
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(c: bool, x: ?{0,1}, y: ?{0,1}) { let z = if (c) x else y; } fun g(c: bool, x: ?{0,1}, y: ?{0,1}): ?{0,1} { if (c) { x } else { y } } }"], &[&[0, 1]], 3),
    // 7: match arms
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } enum E { A, B } fun f(e: E, x: ?{0,1}): ?{0,1} { match (e) { E::A => x, E::B => { x } } } }"], &[&[0, 1]], 3),
    // 8: references
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: &?{0,1}): &?{0,1} { x } fun g(x: &mut ?{0,1}): &?{0,1} { x } fun h(x: &mut ?{0,1}) { let y: &mut ?{0,1} = x; g(y); } }"], &[&[0, 1]], 3),
    // 9: borrowing and dereferencing
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}): &?{0,1} { &x } fun g(x: &?{0,1}): ?{0,1} { *x } fun h(x: &mut ?{0,1}, y: ?{0,1}) { *x = y; } }"], &[&[0, 1]], 3),
    // 10: vectors
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}, y: ?{0,1}): vector<?{0,1}> { vector[x, y] } fun g(v: vector<?{0,1}>): ?{0,1} { v[0] } }"], &[&[0, 1]], 3),
    // 11: type arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun id<T>(x: T): T { x } fun f(x: ?{0,1}): ?{0,1} { id(x) } fun g(x: ?{0,1}): ?{0,1} { id<?{0,1}>(x) } }"], &[&[0, 1]], 3),
    // 12: inferred type arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun same<T>(x: T, y: &T) {} fun f(x: ?{0,1}, y: &?{0,1}) { same(x, y) } fun g(x: ?{0,1}, y: ?{0,1}) { same(x, &y) } }"], &[&[0, 1]], 3),
    // 13: generic structs
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct G<T> { v: T } fun f(x: G<?{0,1}>): ?{0,1} { let y = x.v; y } fun g(x: ?{0,1}): G<?{0,1}> { G { v: x } } fun h(x: ?{0,1}): G<?{0,1}> { G<?{0,1}> { v: x } } }"], &[&[0, 1]], 3),
    // 14: generic structs, compared
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct G<T, U> { v: T, w: U } fun g(x: G<?{0,1}, u8>) {} fun f(x: G<?{0,1}, u8>) { g(x) } fun h(x: G<?{0,1}, ?{1,0}>): G<?{0,1}, ?{1,0}> { x } }"], &[&[0, 1]], 3),
    // 15: tuples
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun g(): (?{0,1}, ?{1,0}) { abort 1 } fun f(): (?{0,1}, ?{1,0}) { let (a, b): (?{0,1}, ?{1,0}) = g(); (a, b) } }"], &[&[0, 1]], 3),
    // 16: methods
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct G<T> { v: T } fun m<T>(self: &G<T>, x: T): T { x } fun f(g: G<?{0,1}>, x: ?{0,1}): ?{0,1} { g.m(x) } }"], &[&[0, 1]], 3),
    // 17: functions as arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } inline fun ap(f: |?{0,1}| ?{0,1}, x: ?{0,1}): ?{0,1} { f(x) } fun g(x: ?{0,1}): ?{0,1} { ap(|y| y, x) } }"], &[&[0, 1]], 3),
    // 18: global storage
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(ad: address): ?{0,1} acquires ?{0,1} { move_from<?{0,1}>(ad) } fun g(ad: address): &?{0,1} { borrow_global<?{0,1}>(ad) } fun h(ad: address): &mut ?{0,1} { &mut ?{0,1}[ad] } }"], &[&[0, 1]], 3),
    // 19: comparisons
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}, y: ?{0,1}): bool { x == y } fun g(x: &?{0,1}, y: &?{0,1}): bool { x != y } }"], &[&[0, 1]], 3),
    // 20: fields
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct T { a: ?{0,1} } fun f(t: T): ?{0,1} { t.a } fun g(t: &T): &?{0,1} { &t.a } fun h(t: &mut T, x: ?{0,1}) { t.a = x; } }"], &[&[0, 1]], 3),
    // 21: patterns
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct T { a: ?{0,1} } enum E { A { a: ?{0,1} }, B(?{0,1}) } fun f(t: T): ?{0,1} { let T { a } = t; a } fun g(e: E): ?{0,1} { match (e) { E::A { a: p } => p } } fun h(e: E): ?{0,1} { match (e) { E::B(q) => q } } }"], &[&[0, 1]], 3),
    // 22: blocks, loops
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(c: bool, x: ?{0,1}): ?{0,1} { let y = { let z = x; z }; if (c) y else abort 1 } fun g(x: ?{0,1}): ?{0,1} { loop { return x } } }"], &[&[0, 1]], 3),
    // 23: specifications
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun f(x: ?{0,1}, y: ?{0,1}) {} spec f { ensures x == y; } spec fun s(x: ?{0,1}): ?{0,1} { x } }"], &[&[0, 1]], 3),
    // 24: nested type arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } fun g<T: copy>(x: T, y: vector<T>): T { x } fun f(x: ?{0,1}, y: vector<?{0,1}>): ?{0,1} { g(x, y) } fun h(x: vector<vector<?{0,1}>>): vector<?{0,1}> { x[0] } }"], &[&[0, 1]], 3),
    // 25: fields and vectors
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct T { s: vector<?{0,1}> } fun f(t: &T): &?{0,1} { &t.s[0] } fun g(t: &mut T, x: ?{0,1}) { t.s[1] = x; let y = &mut t.s; *y = vector[x]; } }"], &[&[0, 1]], 3),
    // 26: results' type arguments
    T(&["module 0x1::m { struct $ has copy, drop, store, key { x: u8 } struct $ has copy, drop, store, key { x: u8 } struct G<T> { v: T } fun mk<T>(): G<T> { abort 1 } fun f(): G<?{0,1}> { mk() } fun g() { let x: G<?{0,1}> = mk<?{0,1}>(); } fun h(): ?{0,1} { mk<?{0,1}>().v } }"], &[&[0, 1]], 3),
];
/// The groups of holes of each that must mean the same type.
pub const AGREE: &[&[&[usize]]] = &[
    &[&[2, 3]],
    &[&[2, 3], &[4, 5]],
    &[&[2, 3]],
    &[&[2, 3, 4]],
    &[&[2, 3, 4, 5]],
    &[&[2, 3]],
    &[&[2, 3], &[4, 5, 6]],
    &[&[2, 3]],
    &[&[2, 3], &[4, 5, 6, 7]],
    &[&[2, 3], &[4, 5], &[6, 7]],
    &[&[2, 3, 4], &[5, 6]],
    &[&[2, 3], &[4, 5, 6]],
    &[&[2, 3], &[4, 5]],
    &[&[2, 3], &[4, 5], &[6, 7, 8]],
    &[&[2, 3], &[4, 6], &[5, 7]],
    &[&[2, 4, 6], &[3, 5, 7]],
    &[&[2, 3, 4]],
    &[&[2, 4, 6], &[3, 5, 7]],
    &[&[2, 4], &[5, 6], &[7, 8]],
    &[&[2, 3], &[4, 5]],
    &[&[2, 3], &[2, 4], &[2, 5]],
    &[&[2, 5], &[3, 6], &[4, 7]],
    &[&[2, 3], &[4, 5]],
    &[&[2, 3], &[4, 5]],
    &[&[2, 3, 4], &[5, 6]],
    &[&[2, 3], &[2, 4]],
    &[&[3, 4], &[5, 6]],
];
