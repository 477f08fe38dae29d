use crate::{green::GreenElement, Direction, GreenNode, GreenNodeData, GreenTokenData, NodeOrToken, SyntaxKind, SyntaxText, TextRange, TextSize, TokenAtOffset, WalkEvent};
use std::{borrow::Cow, cell::{Cell, RefCell}, fmt, hash::{Hash, Hasher}, iter, marker::PhantomData, ops::Range, rc::Rc};

pub trait Language: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash;
    fn kind_from_raw(raw: SyntaxKind) -> Self::Kind;
    fn kind_to_raw(kind: Self::Kind) -> SyntaxKind;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum AnyLang {}
impl Language for AnyLang { type Kind = SyntaxKind; fn kind_from_raw(r: SyntaxKind) -> SyntaxKind { r } fn kind_to_raw(k: SyntaxKind) -> SyntaxKind { k } }

struct Data { parent: RefCell<Option<Rc<Data>>>, index: Cell<u32>, offset: Cell<TextSize>, green: RefCell<GreenElement>, mutable: bool, kids: RefCell<Option<Vec<Rc<Data>>>> }
impl Data {
    fn new(parent: Option<Rc<Data>>, index: u32, offset: TextSize, green: GreenElement, mutable: bool) -> Rc<Data> {
        Rc::new(Data { parent: RefCell::new(parent), index: Cell::new(index), offset: Cell::new(offset), green: RefCell::new(green), mutable, kids: RefCell::new(None) })
    }
    fn parent(&self) -> Option<Rc<Data>> { self.parent.borrow().clone() }
    fn is_node(&self) -> bool { matches!(&*self.green.borrow(), NodeOrToken::Node(_)) }
    fn raw_kind(&self) -> SyntaxKind { self.green.borrow().kind() }
    fn len(&self) -> TextSize { self.green.borrow().text_len() }
    fn offset(&self) -> TextSize {
        if !self.mutable { return self.offset.get(); }
        let mut res = TextSize::from(0);
        let (mut p, mut i) = (self.parent(), self.index.get());
        while let Some(d) = p {
            if let NodeOrToken::Node(g) = &*d.green.borrow() { res += g.slots()[i as usize].0; }
            i = d.index.get();
            p = d.parent();
        }
        res
    }
    fn range(&self) -> TextRange { TextRange::at(self.offset(), self.len()) }
    fn key(&self) -> (usize, TextSize) { (match &*self.green.borrow() { NodeOrToken::Node(n) => n.ptr(), NodeOrToken::Token(t) => t.ptr() }, self.offset()) }
    fn fill(self: &Rc<Self>) {
        if self.kids.borrow().is_some() { return; }
        let base = self.offset();
        let v = match &*self.green.borrow() {
            NodeOrToken::Node(n) => n.slots().iter().enumerate().map(|(i, (o, g))| Data::new(Some(self.clone()), i as u32, base + *o, g.clone(), self.mutable)).collect(),
            NodeOrToken::Token(_) => vec![],
        };
        *self.kids.borrow_mut() = Some(v);
    }
    fn kid(self: &Rc<Self>, i: usize) -> Option<Rc<Data>> { self.fill(); self.kids.borrow().as_ref().unwrap().get(i).cloned() }
    fn n_kids(&self) -> usize { match &*self.green.borrow() { NodeOrToken::Node(n) => n.slots().len(), _ => 0 } }
    fn sib(&self, d: isize) -> Option<Rc<Data>> {
        let p = self.parent()?;
        let i = self.index.get() as isize + d;
        if i < 0 { None } else { p.kid(i as usize) }
    }
    fn sib_node(&self, d: isize) -> Option<Rc<Data>> {
        let p = self.parent()?;
        let mut i = self.index.get() as isize + d;
        loop {
            if i < 0 { return None; }
            let k = p.kid(i as usize)?;
            if k.is_node() { return Some(k); }
            i += d;
        }
    }
    fn root(self: &Rc<Self>) -> Rc<Data> { let mut d = self.clone(); while let Some(p) = d.parent() { d = p; } d }
    fn respine(self: &Rc<Self>) {
        let mut d = self.clone();
        loop {
            let Some(p) = d.parent() else { return };
            let g = match &*p.green.borrow() { NodeOrToken::Node(n) => n.replace_child(d.index.get() as usize, d.green.borrow().clone()), _ => unreachable!() };
            *p.green.borrow_mut() = g.into();
            d = p;
        }
    }
    fn reindex(self: &Rc<Self>) { for (i, k) in self.kids.borrow().as_ref().unwrap().iter().enumerate() { k.index.set(i as u32); } }
    fn detach(self: &Rc<Self>) {
        assert!(self.mutable, "immutable tree");
        let Some(p) = self.parent() else { return };
        let i = self.index.get() as usize;
        p.fill();
        p.kids.borrow_mut().as_mut().unwrap().remove(i);
        p.reindex();
        let g = match &*p.green.borrow() { NodeOrToken::Node(n) => n.remove_child(i), _ => unreachable!() };
        *p.green.borrow_mut() = g.into();
        p.respine();
        *self.parent.borrow_mut() = None;
        self.index.set(0);
    }
    fn attach(self: &Rc<Self>, i: usize, child: Rc<Data>) {
        assert!(self.mutable && child.mutable, "immutable tree");
        child.detach();
        self.fill();
        self.kids.borrow_mut().as_mut().unwrap().insert(i, child.clone());
        *child.parent.borrow_mut() = Some(self.clone());
        self.reindex();
        let g = match &*self.green.borrow() { NodeOrToken::Node(n) => n.insert_child(i, child.green.borrow().clone()), _ => unreachable!() };
        *self.green.borrow_mut() = g.into();
        self.respine();
    }
}

pub struct SyntaxNode<L: Language> { d: Rc<Data>, _p: PhantomData<L> }
pub struct SyntaxToken<L: Language> { d: Rc<Data>, text: *const GreenTokenData, _p: PhantomData<L> }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

impl<L: Language> Clone for SyntaxNode<L> { fn clone(&self) -> Self { node(self.d.clone()) } }
impl<L: Language> Clone for SyntaxToken<L> { fn clone(&self) -> Self { SyntaxToken { d: self.d.clone(), text: self.text, _p: PhantomData } } }
impl<L: Language> PartialEq for SyntaxNode<L> { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.d, &o.d) || self.d.key() == o.d.key() } }
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> Hash for SyntaxNode<L> { fn hash<H: Hasher>(&self, s: &mut H) { self.d.key().hash(s) } }
impl<L: Language> PartialEq for SyntaxToken<L> { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.d, &o.d) || self.d.key() == o.d.key() } }
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> Hash for SyntaxToken<L> { fn hash<H: Hasher>(&self, s: &mut H) { self.d.key().hash(s) } }

fn node<L: Language>(d: Rc<Data>) -> SyntaxNode<L> { SyntaxNode { d, _p: PhantomData } }
fn token<L: Language>(d: Rc<Data>) -> SyntaxToken<L> {
    let text: *const GreenTokenData = match &*d.green.borrow() { NodeOrToken::Token(t) => &**t, _ => unreachable!() };
    SyntaxToken { d, text, _p: PhantomData }
}
fn elem<L: Language>(d: Rc<Data>) -> SyntaxElement<L> { if d.is_node() { NodeOrToken::Node(node(d)) } else { NodeOrToken::Token(token(d)) } }

impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for ev in self.preorder_with_tokens() {
                match ev {
                    WalkEvent::Enter(e) => {
                        for _ in 0..level { f.write_str("  ")?; }
                        match e { NodeOrToken::Node(n) => writeln!(f, "{:?}", n)?, NodeOrToken::Token(t) => writeln!(f, "{:?}", t)? }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            Ok(())
        } else { write!(f, "{:?}@{:?}", self.kind(), self.text_range()) }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &*self.d.green.borrow() { NodeOrToken::Node(n) => fmt::Display::fmt(n, f), _ => Ok(()) } }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.kind(), self.text_range())?;
        if self.text().len() < 25 { return write!(f, " {:?}", self.text()); }
        let text = self.text();
        for idx in 21..25 { if text.is_char_boundary(idx) { let text = format!("{} ...", &text[..idx]); return write!(f, " {:?}", text); } }
        unreachable!()
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.text(), f) } }
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { NodeOrToken::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { NodeOrToken::Token(n) } }

impl<L: Language> SyntaxNode<L> {
    pub fn new_root(green: GreenNode) -> Self { node(Data::new(None, 0, 0.into(), green.into(), false)) }
    pub fn new_root_mut(green: GreenNode) -> Self { node(Data::new(None, 0, 0.into(), green.into(), true)) }
    pub fn kind(&self) -> L::Kind { L::kind_from_raw(self.d.raw_kind()) }
    pub fn text_range(&self) -> TextRange { self.d.range() }
    pub fn index(&self) -> usize { self.d.index.get() as usize }
    pub fn text(&self) -> SyntaxText { SyntaxText::new(node::<AnyLang>(self.d.clone())) }
    pub fn green(&self) -> Cow<'_, GreenNodeData> { match &*self.d.green.borrow() { NodeOrToken::Node(n) => Cow::Owned(n.clone()), _ => unreachable!() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { self.d.parent().map(node) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { iter::successors(Some(self.clone()), SyntaxNode::parent) }
    pub fn children(&self) -> SyntaxNodeChildren<L> { SyntaxNodeChildren { next: self.first_child() } }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> { SyntaxElementChildren { next: self.first_child_or_token() } }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> { let k = self.d.kid(0)?; if k.is_node() { Some(node(k)) } else { k.sib_node(1).map(node) } }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> { let k = self.d.kid(self.d.n_kids().checked_sub(1)?)?; if k.is_node() { Some(node(k)) } else { k.sib_node(-1).map(node) } }
    pub fn first_child_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> { self.children().find(|n| m(n.kind())) }
    pub fn first_child_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> { self.children_with_tokens().find(|n| m(n.kind())) }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { self.d.kid(0).map(elem) }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { self.d.kid(self.d.n_kids().checked_sub(1)?).map(elem) }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> { self.d.sib_node(1).map(node) }
    pub fn next_sibling_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> { iter::successors(self.next_sibling(), |n| n.next_sibling()).find(|n| m(n.kind())) }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> { self.d.sib_node(-1).map(node) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.d.sib(1).map(elem) }
    pub fn next_sibling_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> { iter::successors(self.next_sibling_or_token(), |n| n.next_sibling_or_token()).find(|n| m(n.kind())) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.d.sib(-1).map(elem) }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { self.first_child_or_token()?.first_token() }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { self.last_child_or_token()?.last_token() }
    pub fn siblings(&self, dir: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        iter::successors(Some(self.clone()), move |n| match dir { Direction::Next => n.next_sibling(), Direction::Prev => n.prev_sibling() })
    }
    pub fn siblings_with_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: SyntaxElement<L> = self.clone().into();
        iter::successors(Some(me), move |n| match dir { Direction::Next => n.next_sibling_or_token(), Direction::Prev => n.prev_sibling_or_token() })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.preorder().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.preorder_with_tokens().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn preorder(&self) -> Preorder<L> { Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip: false } }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens<L> { PreorderWithTokens { start: self.clone().into(), next: Some(WalkEvent::Enter(self.clone().into())), skip: false } }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let range = self.text_range();
        assert!(range.start() <= offset && offset <= range.end(), "Bad offset: range {:?} offset {:?}", range, offset);
        if range.is_empty() { return TokenAtOffset::None; }
        let mut children = self.children_with_tokens().filter(|c| { let r = c.text_range(); !r.is_empty() && (r.start() <= offset && offset <= r.end()) });
        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());
        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) { (TokenAtOffset::Single(l), TokenAtOffset::Single(r)) => TokenAtOffset::Between(l, r), _ => unreachable!() }
        } else { left.token_at_offset(offset) }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = self.clone().into();
        loop {
            assert!(res.text_range().contains_range(range), "Bad range: node range {:?}, range {:?}", res.text_range(), range);
            res = match &res { NodeOrToken::Token(_) => return res, NodeOrToken::Node(n) => match n.child_or_token_at_range(range) { Some(it) => it, None => return res } };
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        let base = self.text_range().start();
        let rel = range - base;
        let i = {
            let g = self.d.green.borrow();
            let NodeOrToken::Node(n) = &*g else { return None };
            let s = n.slots();
            let r = |c: &(TextSize, GreenElement)| TextRange::at(c.0, c.1.text_len());
            let i = s.binary_search_by(|c| r(c).ordering(rel)).unwrap_or_else(|i| i.saturating_sub(1));
            let c = s.get(i)?;
            if !r(c).contains_range(rel) { return None; }
            i
        };
        self.d.kid(i).map(elem)
    }
    pub fn clone_subtree(&self) -> SyntaxNode<L> { SyntaxNode::new_root(self.green().into_owned()) }
    pub fn clone_for_update(&self) -> SyntaxNode<L> {
        assert!(!self.d.mutable);
        match self.d.parent() {
            Some(p) => { let p: SyntaxNode<L> = node::<L>(p).clone_for_update(); node(p.d.kid(self.index()).unwrap()) }
            None => SyntaxNode::new_root_mut(self.green().into_owned()),
        }
    }
    pub fn is_mutable(&self) -> bool { self.d.mutable }
    pub fn detach(&self) { self.d.detach() }
    pub fn splice_children(&self, del: Range<usize>, ins: Vec<SyntaxElement<L>>) {
        assert!(self.d.mutable, "immutable tree: {:?}", self);
        for (i, c) in self.children_with_tokens().enumerate() { if del.contains(&i) { c.detach(); } }
        let mut index = del.start;
        for c in ins {
            let d = match c { NodeOrToken::Node(n) => n.d, NodeOrToken::Token(t) => t.d };
            self.d.attach(index, d);
            index += 1;
        }
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        assert_eq!(self.d.raw_kind(), replacement.kind());
        match self.parent() {
            None => replacement,
            Some(p) => { let n = match &*p.d.green.borrow() { NodeOrToken::Node(g) => g.replace_child(self.index(), replacement.into()), _ => unreachable!() }; p.replace_with(n) }
        }
    }
}
impl<L: Language> SyntaxToken<L> {
    pub fn kind(&self) -> L::Kind { L::kind_from_raw(self.d.raw_kind()) }
    pub fn text_range(&self) -> TextRange { self.d.range() }
    pub fn index(&self) -> usize { self.d.index.get() as usize }
    pub fn text(&self) -> &str { unsafe { (*self.text).text() } }
    pub fn green(&self) -> &GreenTokenData { unsafe { &*self.text } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { self.d.parent().map(node) }
    pub fn parent_ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { iter::successors(self.parent(), SyntaxNode::parent) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.parent_ancestors() }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.d.sib(1).map(elem) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.d.sib(-1).map(elem) }
    pub fn siblings_with_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: SyntaxElement<L> = self.clone().into();
        iter::successors(Some(me), move |n| match dir { Direction::Next => n.next_sibling_or_token(), Direction::Prev => n.prev_sibling_or_token() })
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        match self.next_sibling_or_token() { Some(e) => e.first_token(), None => self.parent_ancestors().find_map(|it| it.next_sibling_or_token()).and_then(|e| e.first_token()) }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        match self.prev_sibling_or_token() { Some(e) => e.last_token(), None => self.parent_ancestors().find_map(|it| it.prev_sibling_or_token()).and_then(|e| e.last_token()) }
    }
    pub fn replace_with(&self, t: crate::GreenToken) -> GreenNode {
        assert_eq!(self.d.raw_kind(), t.kind());
        let p = self.parent().unwrap();
        let n = match &*p.d.green.borrow() { NodeOrToken::Node(g) => g.replace_child(self.index(), t.into()), _ => unreachable!() };
        p.replace_with(n)
    }
    pub fn detach(&self) { self.d.detach() }
}
impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
    pub fn text_range(&self) -> TextRange { match self { NodeOrToken::Node(n) => n.text_range(), NodeOrToken::Token(t) => t.text_range() } }
    pub fn index(&self) -> usize { match self { NodeOrToken::Node(n) => n.index(), NodeOrToken::Token(t) => t.index() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { NodeOrToken::Node(n) => n.parent(), NodeOrToken::Token(t) => t.parent() } }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { let f = match self { NodeOrToken::Node(n) => Some(n.clone()), NodeOrToken::Token(t) => t.parent() }; iter::successors(f, SyntaxNode::parent) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { NodeOrToken::Node(n) => n.next_sibling_or_token(), NodeOrToken::Token(t) => t.next_sibling_or_token() } }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { NodeOrToken::Node(n) => n.prev_sibling_or_token(), NodeOrToken::Token(t) => t.prev_sibling_or_token() } }
    pub fn detach(&self) { match self { NodeOrToken::Node(n) => n.detach(), NodeOrToken::Token(t) => t.detach() } }
    fn first_token(&self) -> Option<SyntaxToken<L>> { match self { NodeOrToken::Node(n) => n.first_token(), NodeOrToken::Token(t) => Some(t.clone()) } }
    fn last_token(&self) -> Option<SyntaxToken<L>> { match self { NodeOrToken::Node(n) => n.last_token(), NodeOrToken::Token(t) => Some(t.clone()) } }
    fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        assert!(self.text_range().start() <= offset && offset <= self.text_range().end());
        match self { NodeOrToken::Token(t) => TokenAtOffset::Single(t.clone()), NodeOrToken::Node(n) => n.token_at_offset(offset) }
    }
    fn is(&self, o: &Self) -> bool { match (self, o) { (NodeOrToken::Node(a), NodeOrToken::Node(b)) => Rc::ptr_eq(&a.d, &b.d), (NodeOrToken::Token(a), NodeOrToken::Token(b)) => Rc::ptr_eq(&a.d, &b.d), _ => false } }
}
#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> { next: Option<SyntaxNode<L>> }
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<SyntaxNode<L>> { self.next.take().map(|n| { self.next = n.next_sibling(); n }) }
}
#[derive(Debug, Clone)]
pub struct SyntaxElementChildren<L: Language> { next: Option<SyntaxElement<L>> }
impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<SyntaxElement<L>> { self.next.take().map(|n| { self.next = n.next_sibling_or_token(); n }) }
}
impl<L: Language> SyntaxNodeChildren<L> { pub fn by_kind<F: Fn(L::Kind) -> bool>(self, f: F) -> impl Iterator<Item = SyntaxNode<L>> { self.filter(move |n| f(n.kind())) } }
impl<L: Language> SyntaxElementChildren<L> { pub fn by_kind<F: Fn(L::Kind) -> bool>(self, f: F) -> impl Iterator<Item = SyntaxElement<L>> { self.filter(move |n| f(n.kind())) } }
#[derive(Debug, Clone)]
pub struct Preorder<L: Language> { start: SyntaxNode<L>, next: Option<WalkEvent<SyntaxNode<L>>>, skip: bool }
impl<L: Language> Preorder<L> { pub fn skip_subtree(&mut self) { self.skip = true } }
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip { self.skip = false; self.next = self.next.take().map(|n| match n { WalkEvent::Enter(c) => WalkEvent::Leave(c.parent().unwrap()), l => l }); }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| Some(match n {
            WalkEvent::Enter(n) => match n.first_child() { Some(c) => WalkEvent::Enter(c), None => WalkEvent::Leave(n.clone()) },
            WalkEvent::Leave(n) => {
                if Rc::ptr_eq(&n.d, &self.start.d) { return None; }
                match n.next_sibling() { Some(s) => WalkEvent::Enter(s), None => WalkEvent::Leave(n.parent()?) }
            }
        }));
        next
    }
}
#[derive(Debug, Clone)]
pub struct PreorderWithTokens<L: Language> { start: SyntaxElement<L>, next: Option<WalkEvent<SyntaxElement<L>>>, skip: bool }
impl<L: Language> PreorderWithTokens<L> { pub fn skip_subtree(&mut self) { self.skip = true } }
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip { self.skip = false; self.next = self.next.take().map(|n| match n { WalkEvent::Enter(c) => WalkEvent::Leave(c.parent().unwrap().into()), l => l }); }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| Some(match n {
            WalkEvent::Enter(e) => match e {
                NodeOrToken::Node(n) => match n.first_child_or_token() { Some(c) => WalkEvent::Enter(c), None => WalkEvent::Leave(e.clone()) },
                NodeOrToken::Token(_) => WalkEvent::Leave(e.clone()),
            },
            WalkEvent::Leave(e) => {
                if e.is(&self.start) { return None; }
                match e.next_sibling_or_token() { Some(s) => WalkEvent::Enter(s), None => WalkEvent::Leave(e.parent()?.into()) }
            }
        }));
        next
    }
}
#[allow(dead_code)] fn _r(d: &Rc<Data>) -> Rc<Data> { d.root() }
