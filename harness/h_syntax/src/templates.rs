//! Valid source texts that between them use every production of the grammar, and the words Move treats as keywords
//! only in some places.
pub const WRAP: &[(&str, &str)] = &[
    ("", ""),
    ("module a::m { ", " }"),
    ("script { fun f() { ", " } }"),
    ("spec a::m { ", " }"),
    ("spec a::m { spec f { ", " } }"),
    ("module a::m { spec f { } proof { ", " } }"),
    ("module a::m { fun f(x: ", ") { } }"),
];

pub const TEMPLATES: &[(usize, &str)] = &[
    (0, "address 0x1 { module a { } }"),
    (0, "module 0x1::m { } script { }"),
    (0, "spec a::m { } script { }"),
    (1, "#[test, a::b] fun f() { }"),
    (1, "#[f(g = b\"1\"), h] const A: u8 = 1;"),
    (1, "friend 0x1::b; use 0x1::c;"),
    (1, "use a::c::{Self as d, e}; use a::b as c;"),
    (1, "public(package) inline entry fun f<T: copy + drop, phantom U>() { }"),
    (1, "native fun f(a: &mut T, _: u8): (u8, T) acquires R, S;"),
    (1, "public(friend) fun g(); package fun h() { }"),
    (1, "public struct S<phantom T> has key, drop { f: T, g: u8 } has store;"),
    (1, "struct P(u8, T) has copy; struct Q { }"),
    (1, "enum E<T> has copy { A { f: u8 }, B(u8, u8), C }"),
    (2, "let (a, b): (u8, T) = (1, 2);"),
    (2, "let S { f, g: x, .. } = s;"),
    (2, "let S<T>(y, _) = t;"),
    (2, "match (a) { E::A { f } if (x) => 1, B<u8>(_) => { } C => 3, _ => 4 }"),
    (2, "match (a) { 1..2 => 1, ..-3 => 2, () => 3, (x) => 4, }"),
    (2, "a.b<u8>(1, 2)[3].0.c"),
    (2, "*&mut x as u8 + !y is E | F;"),
    (2, "if (a) { b } else if (c) d else { e };"),
    (2, "while (a) { break 'l; continue } spec { };"),
    (2, "'l: loop { return 1 }; 'm: while (a) b;"),
    (2, "for (i in 0..n spec { }) { }"),
    (2, "S { a, b: 1 }; vector<u8>[1, 2];"),
    (2, "|a, b: u8| a + b; || 1; |_| { }"),
    (2, "abort 1; copy a; move b;"),
    (2, "a | |x| b; a & & b; a - -b;"),
    (2, "a += 1; b <<= 2; a >= b && c"),
    (2, "@0x1; @named; x\"00\"; b\"a\"; true;"),
    (2, "(a, b); (); (a: u8); {1}"),
    (2, "assert!(a, 1); m::f<u8>(); use a::b;"),
    (2, "spec { assert a ==> b; assume [x] c <==> d; };"),
    (3, "spec f(a: u8): u8 { } spec module { }"),
    (3, "spec schema S<T> { local a: T; b: u8; }"),
    (3, "spec fun f<T>(a: num): bool { exists x in a: x }"),
    (3, "spec native fun g(); spec S { invariant f > 0; }"),
    (3, "spec lemma l<T>(a: u8) { requires a; } proof { apply k(a); }"),
    (4, "pragma opaque, v = true;"),
    (4, "aborts_if b with 1; ensures [abstract] result == old(c);"),
    (4, "global g<T>: u8 = 1; invariant<T> update a;"),
    (4, "axiom<T> forall x: T, y in z {a, b} where c: d;"),
    (4, "emits a to b if c; aborts_with 1, 2;"),
    (4, "let post x = 1; update g = 2; modifies g<R>(a);"),
    (4, "include S<T> { a: b, c }; include a ==> S;"),
    (4, "include S && R { }; include if (a) S else R;"),
    (4, "apply S<T> to public *a<T>, internal b* except c;"),
    (4, "ensures choose min x: u8 where x;"),
    (4, "ensures requires_of<f>(a) && g;"),
    (4, "fun f(): u8; lemma l(a: u8) { } proof { }"),
    (5, "forall x: u8 {x} [weight = 1] apply l(x);"),
    (5, "post assert a; split b; calc(a == b);"),
    (6, "&vector<u8>, y: &mut |u8, T|(u8) has drop + copy"),
    (6, "(u8, ()), y: 0x1::m::S<u8, a::b>"),
];

pub const CONTEXTUAL: &[&str] = &[
    "a", "aborts_if", "aborts_of", "aborts_with", "address", "apply", "assert", "assume", "axiom", "choose", "copy", "decreases",
    "emits", "entry", "enum", "except", "exists", "for", "forall", "global", "has", "in", "include",
    "internal", "is", "lemma", "local", "match", "min", "modifies", "package", "phantom", "post", "pragma", "proof",
    "schema", "split", "to", "update", "vector", "weight", "where", "with",
];
