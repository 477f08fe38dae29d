use syntax::verif::{tokenize, RawToken};
use syntax::*;
mod reflex;
mod templates;
mod toks;
use templates::*;
use toks::*;

/// Runs the lexer once on concrete text, so that its lazily built tables exist before the first symbolic byte.
fn warm() {
    let _ = tokenize("x\"0\" b\"1\" 'a");
}

const WIDE: &[&str] = &["\u{e9}", "\u{301}", "\u{20ac}", "\u{200d}", "\u{1f600}", "\u{1f1e6}", "\u{1100}", "\u{94d}", "\u{feff}", "\u{85}", "\u{3000}", "\u{663}", "\u{ff17}", "\u{1d7d8}"];

/// A text of `n` characters, each an arbitrary ASCII character or one of the `wide` ones.
fn text(n: usize, wide: usize, out: &mut Vec<u8>) {
    for _ in 0..n {
        let k = if wide == 0 { 0 } else { sym::choose(wide as u64 + 1, "wide") as usize };
        if k == 0 {
            let b = sym::u8("c");
            sym::assume(b < 128);
            out.push(b);
        } else {
            out.extend_from_slice(WIDE[k - 1].as_bytes());
        }
    }
}

fn lossless(s: &str) -> Vec<RawToken> {
    let (toks, errs) = tokenize(s);
    let mut at = 0usize;
    for t in &toks {
        let l = u32::from(t.len) as usize;
        sym::check(l > 0, "token is not empty");
        at += l;
        sym::check(at <= s.len(), "token lies within the text");
        sym::check(s.is_char_boundary(at), "token ends on a character boundary");
    }
    sym::check(at == s.len(), "tokens cover the whole text");
    sym::check(errs.is_empty(), "no lexer errors");
    for t in &toks {
        sym::observe(&[t.kind as u16 as u8, u32::from(t.len) as u8]);
    }
    toks
}

sym::harnesses! {
    fn C03() {
        warm();
        let pre = sym::pick(&["", "/*", "/* /*", "//", "b\"", "x\"", "'", "0x", "1", "a"], "prefix");
        // one character more where a comment has to be closed
        let n = sym::param("len", 3) as usize - if pre.is_empty() || pre.starts_with("/*") { 0 } else { 1 };
        let n = sym::choose(n as u64 + 1, "n") as usize;
        let mut v = pre.as_bytes().to_vec();
        text(n, sym::param("wide", 9) as usize, &mut v);
        let s = String::from_utf8(v).unwrap();
        lossless(&s);
    }
    fn C04() {
        warm();
        let ascii = |n: usize, v: &mut Vec<u8>| {
            for _ in 0..n {
                let b = sym::u8("c");
                sym::assume((b < 128) & (b != b'\r'));
                v.push(b);
            }
        };
        let mut v = vec![];
        match sym::choose(4, "form") {
            0 => ascii(sym::param("len", 3) as usize, &mut v),
            1 => {
                let pre = sym::pick(&["/*", "/* /*", "/* /* */", "//", "b\"", "b\"\\", "x\"", "'", "0x", "1", "a", "=="], "prefix");
                v.extend_from_slice(pre.as_bytes());
                ascii(sym::param("len", 3) as usize - 1, &mut v);
            }
            2 => {
                // a keyword with one character changed (or not), and one more character
                let w = reflex::WORDS[sym::choose(reflex::WORDS.len() as u64, "word") as usize].0;
                v.extend_from_slice(w.as_bytes());
                let at = sym::choose(w.len() as u64 + 1, "changed") as usize;
                if at < w.len() {
                    v[at] = sym::u8("c");
                    sym::assume(v[at].is_ascii_alphanumeric() | (v[at] == b'_'));
                }
                ascii(1, &mut v);
            }
            _ => {
                let pre = sym::pick(&["0", "10_", "0x", "0xf", "0x1_"], "prefix");
                v.extend_from_slice(pre.as_bytes());
                let w = sym::pick(reflex::SUFFIXES, "suffix");
                let at = sym::choose(w.len() as u64 + 1, "changed") as usize;
                v.extend_from_slice(w.as_bytes());
                if at < w.len() {
                    let c = sym::u8("c");
                    sym::assume((c < 128) & (c != b'\r'));
                    v[pre.len() + at] = c;
                }
                ascii(1, &mut v);
            }
        }
        let s = String::from_utf8(v).unwrap();
        let (toks, _) = tokenize(&s);
        let mut at = 0;
        for t in &toks {
            let (kind, len) = reflex::first(&s.as_bytes()[at..]);
            sym::check(t.kind == kind, "token kind is what the language's rules say");
            sym::check(u32::from(t.len) as usize == len, "token length is what the language's rules say");
            at += len;
        }
        sym::check(at == s.len(), "every token is there");
        sym::observe(&[toks.len() as u8]);
    }
    fn C05() {
        let v = mutated();
        whole(&v);
    }
    fn C05n() {
        let (pre, suf, idents) = CONTEXTS[sym::choose(CONTEXTS.len() as u64, "context") as usize];
        let mut t = Toks::default();
        t.src(pre);
        t.space();
        t.many(sym::param("n", 2) as usize, idents, lexer_kinds());
        t.space();
        t.src(suf);
        whole(&t);
    }
    fn C06() {
        let v = mutated();
        let p = v.parse();
        let root = p.syntax_node();
        let mut bad = 0;
        for e in root.descendants_with_tokens() {
            let k = e.kind();
            if (k == SyntaxKind::ERROR) | (k == SyntaxKind::BAD_CHARACTER) {
                bad += 1;
            }
            sym::check((k != SyntaxKind::TOMBSTONE) & (k != SyntaxKind::EOF), "no placeholder kinds in the tree");
        }
        if bad > 0 {
            sym::cover("error node");
            sym::check(!p.errors().is_empty(), "a tree with an error node comes with an error");
        }
        sym::observe(&[p.errors().len() as u8, bad]);
    }
    fn C08() {
        let n = sym::param("ops", 3) as usize;
        let mut t = Toks::default();
        t.src("script{fun f(){a");
        let mut ops: Vec<(&str, u8)> = vec![];
        for i in 0..n {
            let (o, bp) = OPS[sym::choose(OPS.len() as u64, "op") as usize];
            // `<` after a type, or with a `>` after it, may open type arguments
            if let Some((prev, _)) = ops.last() {
                sym::assume(!(*prev == "as" && o.starts_with('<')) && !(prev.starts_with('<') && o.starts_with('>')));
            }
            ops.push((o, bp));
            t.space();
            t.src(o);
            t.src(if o == "as" { " u8" } else { &" b c d e g"[2 * i..2 * i + 2] });
        }
        t.src("}}");
        let p = t.parse();
        sym::check(p.errors().is_empty(), "an operator expression is well-formed");
        let fun = p.tree().syntax().descendants().find_map(ast::BlockExpr::cast).unwrap();
        let e = fun.tail_expr().unwrap();
        let mut got = String::new();
        shape(e, &mut got);
        let mut i = 0;
        let mut want = String::from("a");
        want = climb(want, &ops, &mut i, 0);
        sym::check(got == want, "operands group by the precedence of their operators");
        sym::observe(got.as_bytes());
    }
    fn C09() {
        let (w, body) = TEMPLATES[sym::choose(TEMPLATES.len() as u64, "template") as usize];
        let toks = split(body);
        // a place with white space, or before the first or after the last token
        let pos = sym::choose(toks.len() as u64 + 1, "position") as usize;
        sym::assume(pos == 0 || pos == toks.len() || toks[pos - 1].ends_with(' '));
        let trivia = sym::pick(&["\n", " ", "  ", "    ", "\t \n\n", "/**/", "/*c*/", "/***/", "//\n", "//c\n", "///c\n", " /** d /* e */ */ ", "\n//!x\n//y\n"], "trivia");
        let (pre, post) = WRAP[w];
        let plain = SourceFile::parse(&format!("{pre}{body}{post}"));
        sym::check(plain.errors().is_empty(), "a well-formed text has no errors");
        let (before, after) = (toks[..pos].concat(), toks[pos..].concat());
        let text = format!("{pre}{}{trivia}{after}{post}", if sym::bool("instead") { before.trim_end_matches(' ') } else { &before });
        let other = SourceFile::parse(&text);
        sym::check(other.errors().is_empty(), "still no errors");
        let (mut a, mut b) = (vec![], vec![]);
        outline(&plain.syntax_node(), &mut a);
        outline(&other.syntax_node(), &mut b);
        sym::check(a == b, "the same tree but for white space and comments");
        sym::check(other.syntax_node().text().to_string() == text, "no text is lost");
        sym::observe(&[a.len() as u8]);
    }
    fn C10() {
        let (pre, suf) = RECOVER[sym::choose(RECOVER.len() as u64, "context") as usize];
        let mut t = Toks::default();
        t.src(pre);
        t.space();
        use SyntaxKind::*;
        let opening = one(L_CURLY) | one(R_CURLY) | one(L_PAREN) | one(L_ANGLE) | one(SPEC_KW);
        const BEFORE: &[&str] = &["", "public ", "entry ", "public entry ", "public(friend) ", "inline ", "#[test] ", "/// doc\n"];
        let m = sym::choose(BEFORE.len() as u64, "modifiers") as usize;
        t.many(sym::param("n", 2) as usize - (m > 1) as usize, ITEM, lexer_kinds() & !opening);
        t.space();
        t.src(suf);
        t.src(BEFORE[m]);
        t.src("fun g() { } }");
        let p = t.parse();
        let found = p.syntax_node().descendants().filter_map(ast::Fun::cast).any(|f| f.syntax().text().to_string().ends_with("fun g() { }"));
        sym::check(found, "the function after it is still there");
    }
    fn templates() {
        for (w, t) in TEMPLATES {
            let p = SourceFile::parse(&format!("{}{t}{}", WRAP[*w].0, WRAP[*w].1));
            for e in p.errors() {
                println!("{t}\n   {e:?}");
            }
        }
        sym::check(true, "");
    }
}

fn whole(t: &Toks) -> Parse {
    let p = t.parse();
    let root = p.syntax_node();
    sym::check(root.text().to_string() == t.text, "the tree's text is the text parsed");
    sym::check(p.tree().syntax().kind() == SyntaxKind::SOURCE_FILE, "the root is a source file");
    let len = TextSize::of(t.text.as_str());
    for e in p.errors() {
        sym::check(e.range().end() <= len, "errors lie within the text");
    }
    sym::observe(&[p.errors().len() as u8, root.descendants().count() as u8]);
    p
}

const ITEM: &[&str] = &["a", "address", "entry", "enum", "package", "has", "schema"];
const EXPR: &[&str] = &["a", "vector", "match", "for", "assert", "is", "copy", "forall", "in"];
const CONTEXTS: &[(&str, &str, &[&str])] = &[
    ("", "", ITEM),
    ("module", "{ fun f() {} }", ITEM),
    ("module 0x1::m {", "}", ITEM),
    ("module 0x1::m { fun f() {", "} }", EXPR),
];

/// The tokens of a text, each with the trivia after it.
fn split(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = vec![];
    let (mut at, mut start) = (0, 0);
    for t in tokenize(s).0 {
        if !t.kind.is_trivia() && at > start {
            v.push(&s[start..at]);
            start = at;
        }
        at += u32::from(t.len) as usize;
    }
    v.push(&s[start..]);
    v
}

/// A valid text with a token at some place replaced by an arbitrary one (or, by the bounds, inserted, deleted, cut off).
fn mutated() -> Toks {
    let (w, body) = TEMPLATES[sym::choose(TEMPLATES.len() as u64, "template") as usize];
    let toks = split(body);
    let pos = sym::choose(toks.len() as u64 + 1, "position") as usize;
    let n = sym::choose(sym::param("n", 1) + 1, "inserted") as usize;
    let max = (toks.len() - pos) as u64;
    let del = if n > 0 && sym::param("insert", 0) == 0 { max.min(1) } else { sym::choose(sym::param("del", 1).min(max) + 1, "deleted") } as usize;
    let cut = (n == 0 || sym::param("cut", 0) == 1) && sym::choose(2, "cut") == 1;
    let mut v = Toks::default();
    v.src(WRAP[w].0);
    v.src(&toks[..pos].concat());
    v.space();
    v.many(n, CONTEXTUAL, lexer_kinds());
    if !cut {
        v.space();
        v.src(&toks[pos + del..].concat());
        v.src(WRAP[w].1);
    }
    v
}

/// Move's binary operators and how tightly they bind.
const OPS: &[(&str, u8)] = &[
    ("as", 1), ("||", 3), ("&&", 4), ("==", 5), ("!=", 5), ("<", 5), (">", 5), ("<=", 5), (">=", 5), ("|", 7), ("^", 8),
    ("&", 9), ("<<", 10), (">>", 10), ("+", 11), ("-", 11), ("*", 12), ("/", 12), ("%", 12), ("==>", 0), ("<==>", 0),
];

fn climb(mut lhs: String, ops: &[(&str, u8)], i: &mut usize, min: u8) -> String {
    while *i < ops.len() && ops[*i].1 >= min {
        let (o, bp) = ops[*i];
        let name = ["b", "c", "d", "e", "g"][*i];
        *i += 1;
        if o == "as" {
            lhs = format!("({lhs} as u8)");
            continue;
        }
        let rhs = climb(name.to_string(), ops, i, bp + 1);
        lhs = format!("({lhs} {o} {rhs})");
    }
    lhs
}

fn shape(e: ast::Expr, out: &mut String) {
    match e {
        ast::Expr::BinExpr(b) => {
            out.push('(');
            shape(b.lhs().unwrap(), out);
            out.push(' ');
            out.push_str(b.op_token().unwrap().text());
            out.push(' ');
            shape(b.rhs().unwrap(), out);
            out.push(')');
        }
        ast::Expr::CastExpr(c) => {
            out.push('(');
            shape(c.expr(), out);
            out.push_str(" as ");
            out.push_str(&c.type_().unwrap().syntax().text().to_string());
            out.push(')');
        }
        e => out.push_str(e.syntax().text().to_string().trim()),
    }
}

const RECOVER: &[(&str, &str)] = &[
    ("module a::m {", ""), ("module a::m { const", ""), ("module a::m { fun f", ""), ("module a::m { use a", ""), ("module a::m { friend", ""),
    ("module a::m { const A: u8 =", ";"), ("module a::m { use a::b::", ";"), ("module a::m { fun f() {", "}"), ("module a::m { fun f() { a", "}"),
    ("module a::m { fun f() { let a", ";}"), ("module a::m { struct S {", "}"), ("module a::m { struct S { a: u8", "}"),
];

/// The tree without white space and comments.
fn outline(n: &SyntaxNode, out: &mut Vec<(SyntaxKind, usize, String)>) {
    for e in n.preorder_with_tokens() {
        match e {
            WalkEvent::Enter(NodeOrToken::Node(n)) => out.push((n.kind(), 1, String::new())),
            WalkEvent::Enter(NodeOrToken::Token(t)) if !t.kind().is_trivia() => out.push((t.kind(), 0, t.text().to_string())),
            WalkEvent::Leave(NodeOrToken::Node(n)) => out.push((n.kind(), 2, String::new())),
            _ => (),
        }
    }
}
