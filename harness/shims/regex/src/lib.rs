//! Stand-in for the `regex` crate: leftmost-first backtracking over the pattern syntax the repository uses
//! (literals, classes, escapes, groups, alternation, greedy and lazy repetition, anchors; `.` excludes `\n`).
use std::{fmt, ops::Range};
#[derive(Clone, Debug)]
enum Node { Char(char), Any, Class(bool, Vec<(char, char)>), Start, End, Group(Option<usize>, Box<Node>), Cat(Vec<Node>), Alt(Vec<Node>), Rep(Box<Node>, usize, usize, bool) }
#[derive(Clone, Debug)]
pub struct Regex { src: String, n: Node, groups: usize, names: Vec<(String, usize)> }
#[derive(Clone, Debug, PartialEq)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
struct P<'a> { c: Vec<char>, i: usize, groups: usize, names: Vec<(String, usize)>, _s: &'a str }
impl P<'_> {
    fn peek(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn eat(&mut self, x: char) -> bool { if self.peek() == Some(x) { self.i += 1; true } else { false } }
    fn err<T>(&self, m: &str) -> Result<T, Error> { Err(Error(format!("{} at {}", m, self.i))) }
    fn alt(&mut self) -> Result<Node, Error> {
        let mut v = vec![self.cat()?];
        while self.eat('|') { v.push(self.cat()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> Result<Node, Error> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let a = self.atom()?;
            v.push(self.rep(a)?);
        }
        Ok(Node::Cat(v))
    }
    fn rep(&mut self, mut a: Node) -> Result<Node, Error> {
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => (0, usize::MAX),
                Some('+') => (1, usize::MAX),
                Some('?') => (0, 1),
                Some('{') => {
                    let j = self.c[self.i..].iter().position(|c| *c == '}').ok_or(Error("brace".into()))? + self.i;
                    let s: String = self.c[self.i + 1..j].iter().collect();
                    self.i = j;
                    let (a, b) = match s.split_once(',') { None => (s.as_str(), s.as_str()), Some(p) => p };
                    let lo = a.parse().map_err(|_| Error("count".into()))?;
                    (lo, if b.is_empty() { usize::MAX } else { b.parse().map_err(|_| Error("count".into()))? })
                }
                _ => return Ok(a),
            };
            self.i += 1;
            let lazy = self.eat('?');
            a = Node::Rep(Box::new(a), lo, hi, !lazy);
        }
    }
    fn esc(&mut self) -> Result<(bool, Vec<(char, char)>), Error> {
        let c = match self.peek() { Some(c) => c, None => return self.err("escape") };
        self.i += 1;
        let one = |c| (false, vec![(c, c)]);
        Ok(match c {
            'n' => one('\n'), 't' => one('\t'), 'r' => one('\r'),
            'd' => (false, vec![('0', '9')]), 'D' => (true, vec![('0', '9')]),
            'w' => (false, vec![('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_')]), 'W' => (true, vec![('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_')]),
            's' => (false, vec![('\t', '\r'), (' ', ' ')]), 'S' => (true, vec![('\t', '\r'), (' ', ' ')]),
            c if c.is_ascii_alphanumeric() => return self.err("unsupported escape"),
            c => one(c),
        })
    }
    fn atom(&mut self) -> Result<Node, Error> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '.' => Node::Any,
            '^' => Node::Start,
            '$' => Node::End,
            '\\' => {
                if self.eat('A') { return Ok(Node::Start); }
                if self.eat('z') { return Ok(Node::End); }
                let (neg, r) = self.esc()?;
                Node::Class(neg, r)
            }
            '(' => {
                let mut cap = true;
                let mut name = None;
                if self.eat('?') {
                    if self.eat(':') { cap = false; } else {
                        self.eat('P');
                        if !self.eat('<') { return self.err("group flags"); }
                        let mut s = String::new();
                        while let Some(c) = self.peek() { self.i += 1; if c == '>' { break; } s.push(c); }
                        name = Some(s);
                    }
                }
                let k = if cap { self.groups += 1; Some(self.groups) } else { None };
                if let (Some(n), Some(k)) = (name, k) { self.names.push((n, k)); }
                let a = self.alt()?;
                if !self.eat(')') { return self.err("unclosed group"); }
                Node::Group(k, Box::new(a))
            }
            '[' => {
                let neg = self.eat('^');
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = match self.peek() { Some(c) => c, None => return self.err("unclosed class") };
                    self.i += 1;
                    if c == ']' && !first { break; }
                    first = false;
                    let lo = if c == '\\' { let (n, r) = self.esc()?; if n { return self.err("negated class in class"); } if r.len() != 1 || r[0].0 != r[0].1 { v.extend(r); continue; } r[0].0 } else { c };
                    if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|c| *c != ']') {
                        self.i += 1;
                        let mut hi = self.peek().unwrap();
                        self.i += 1;
                        if hi == '\\' { hi = self.esc()?.1[0].0; }
                        v.push((lo, hi));
                    } else { v.push((lo, lo)); }
                }
                Node::Class(neg, v)
            }
            '*' | '+' | '?' => return self.err("repetition"),
            c => Node::Char(c),
        })
    }
}
type Caps = Vec<Option<(usize, usize)>>;
fn m(n: &Node, t: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    let mut ch = |f: &dyn Fn(char) -> bool, caps: &mut Caps| match t[i..].chars().next() { Some(c) if f(c) => k(i + c.len_utf8(), caps), _ => false };
    match n {
        Node::Char(x) => ch(&|c| c == *x, caps),
        Node::Any => ch(&|c| c != '\n', caps),
        Node::Class(neg, r) => ch(&|c| r.iter().any(|(a, b)| (*a <= c) & (c <= *b)) != *neg, caps),
        Node::Start => i == 0 && k(i, caps),
        Node::End => i == t.len() && k(i, caps),
        Node::Group(g, a) => match g {
            None => m(a, t, i, caps, k),
            Some(g) => {
                let old = caps[*g];
                if m(a, t, i, caps, &mut |j, c| { let o = c[*g]; c[*g] = Some((i, j)); if k(j, c) { true } else { c[*g] = o; false } }) { true } else { caps[*g] = old; false }
            }
        },
        Node::Cat(v) => cat(v, t, i, caps, k),
        Node::Alt(v) => v.iter().any(|a| m(a, t, i, caps, k)),
        Node::Rep(a, lo, hi, greedy) => rep(a, *lo, *hi, *greedy, t, i, caps, k),
    }
}
fn cat(v: &[Node], t: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v.split_first() { None => k(i, caps), Some((a, rest)) => m(a, t, i, caps, &mut |j, c| cat(rest, t, j, c, k)) }
}
#[allow(clippy::too_many_arguments)]
fn rep(a: &Node, lo: usize, hi: usize, greedy: bool, t: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    if lo > 0 { return m(a, t, i, caps, &mut |j, c| rep(a, lo - 1, hi.saturating_sub(1), greedy, t, j, c, k)); }
    if hi == 0 { return k(i, caps); }
    let h = if hi == usize::MAX { hi } else { hi - 1 };
    if greedy {
        if m(a, t, i, caps, &mut |j, c| j > i && rep(a, 0, h, greedy, t, j, c, k)) { return true; }
        k(i, caps)
    } else {
        if k(i, caps) { return true; }
        m(a, t, i, caps, &mut |j, c| j > i && rep(a, 0, h, greedy, t, j, c, k))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> { h: &'h str, start: usize, end: usize }
impl<'h> Match<'h> {
    pub fn start(&self) -> usize { self.start }
    pub fn end(&self) -> usize { self.end }
    pub fn len(&self) -> usize { self.end - self.start }
    pub fn is_empty(&self) -> bool { self.start == self.end }
    pub fn range(&self) -> Range<usize> { self.start..self.end }
    pub fn as_str(&self) -> &'h str { &self.h[self.start..self.end] }
}
pub struct Captures<'h> { h: &'h str, c: Caps, names: Vec<(String, usize)> }
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> { self.c.get(i).copied().flatten().map(|(start, end)| Match { h: self.h, start, end }) }
    pub fn name(&self, n: &str) -> Option<Match<'h>> { self.get(self.names.iter().find(|x| x.0 == n)?.1) }
    pub fn len(&self) -> usize { self.c.len() }
    pub fn extract<const N: usize>(&self) -> (&'h str, [&'h str; N]) { (self.get(0).unwrap().as_str(), std::array::from_fn(|i| self.get(i + 1).unwrap().as_str())) }
}
impl std::ops::Index<usize> for Captures<'_> { type Output = str; fn index(&self, i: usize) -> &str { self.get(i).unwrap().as_str() } }
impl std::ops::Index<&str> for Captures<'_> { type Output = str; fn index(&self, i: &str) -> &str { self.name(i).unwrap().as_str() } }
impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> {
        let mut p = P { c: s.chars().collect(), i: 0, groups: 0, names: vec![], _s: s };
        let n = p.alt()?;
        if p.i != p.c.len() { return p.err("trailing"); }
        Ok(Regex { src: s.into(), n, groups: p.groups, names: p.names })
    }
    pub fn as_str(&self) -> &str { &self.src }
    fn at(&self, t: &str, from: usize) -> Option<Caps> {
        let mut i = from;
        loop {
            let mut caps: Caps = vec![None; self.groups + 1];
            let mut end = 0;
            if m(&self.n, t, i, &mut caps, &mut |j, _| { end = j; true }) { caps[0] = Some((i, end)); return Some(caps); }
            i += t[i..].chars().next()?.len_utf8();
            if let Node::Cat(v) = &self.n && matches!(v.first(), Some(Node::Start)) { return None; }
        }
    }
    pub fn is_match(&self, t: &str) -> bool { self.at(t, 0).is_some() }
    pub fn find<'h>(&self, t: &'h str) -> Option<Match<'h>> { self.find_at(t, 0) }
    pub fn find_at<'h>(&self, t: &'h str, from: usize) -> Option<Match<'h>> { let (start, end) = self.at(t, from)?[0]?; Some(Match { h: t, start, end }) }
    pub fn captures<'h>(&self, t: &'h str) -> Option<Captures<'h>> { Some(Captures { h: t, c: self.at(t, 0)?, names: self.names.clone() }) }
    pub fn find_iter<'h>(&self, t: &'h str) -> impl Iterator<Item = Match<'h>> {
        let mut from = Some(0);
        let re = self.clone();
        std::iter::from_fn(move || {
            let m = re.find_at(t, from?)?;
            from = if m.is_empty() { t[m.end..].chars().next().map(|c| m.end + c.len_utf8()) } else { Some(m.end) };
            Some(m)
        })
    }
}
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { if r"\.+*?()|[]{}^$#&-~".contains(c) { o.push('\\'); } o.push(c); }
    o
}
