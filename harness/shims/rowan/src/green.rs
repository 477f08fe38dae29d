use crate::{NodeOrToken, TextSize};
use std::{borrow::Borrow, fmt, ops::Deref, sync::Arc};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);

pub type GreenElement = NodeOrToken<GreenNode, GreenToken>;

#[derive(PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct GreenNodeData(Inner);
#[derive(PartialEq, Eq, Hash)]
struct Inner { kind: SyntaxKind, len: TextSize, children: Box<[(TextSize, GreenElement)]> }
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct GreenNode(Arc<GreenNodeData>);
#[derive(PartialEq, Eq, Hash)]
pub struct GreenTokenData { kind: SyntaxKind, text: Box<str> }
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct GreenToken(Arc<GreenTokenData>);

impl Deref for GreenNode { type Target = GreenNodeData; #[inline] fn deref(&self) -> &GreenNodeData { &self.0 } }
impl Deref for GreenToken { type Target = GreenTokenData; #[inline] fn deref(&self) -> &GreenTokenData { &self.0 } }
impl Borrow<GreenNodeData> for GreenNode { fn borrow(&self) -> &GreenNodeData { self } }
impl Borrow<GreenTokenData> for GreenToken { fn borrow(&self) -> &GreenTokenData { self } }
impl ToOwned for GreenNodeData {
    type Owned = GreenNode;
    fn to_owned(&self) -> GreenNode { GreenNode(Arc::new(GreenNodeData(Inner { kind: self.0.kind, len: self.0.len, children: self.0.children.clone() }))) }
}
impl ToOwned for GreenTokenData {
    type Owned = GreenToken;
    fn to_owned(&self) -> GreenToken { GreenToken(Arc::new(GreenTokenData { kind: self.kind, text: self.text.clone() })) }
}
impl fmt::Debug for GreenNodeData { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("GreenNode").field("kind", &self.kind()).field("text_len", &self.text_len()).finish() } }
impl fmt::Debug for GreenNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Debug for GreenTokenData { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("GreenToken").field("kind", &self.kind()).field("text", &self.text()).finish() } }
impl fmt::Debug for GreenToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Display for GreenNodeData { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for c in self.children() { match c { NodeOrToken::Node(n) => fmt::Display::fmt(n, f)?, NodeOrToken::Token(t) => f.write_str(t.text())? } } Ok(()) } }
impl fmt::Display for GreenNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
impl fmt::Display for GreenTokenData { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }
impl fmt::Display for GreenToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }

impl GreenTokenData {
    pub fn kind(&self) -> SyntaxKind { self.kind }
    pub fn text(&self) -> &str { &self.text }
    pub fn text_len(&self) -> TextSize { TextSize::of(&*self.text) }
}
impl GreenToken {
    pub fn new(kind: SyntaxKind, text: &str) -> GreenToken { GreenToken(Arc::new(GreenTokenData { kind, text: text.into() })) }
    pub(crate) fn ptr(&self) -> usize { Arc::as_ptr(&self.0) as *const u8 as usize }
}
impl GreenElement {
    pub fn kind(&self) -> SyntaxKind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
    pub fn text_len(&self) -> TextSize { match self { NodeOrToken::Node(n) => n.text_len(), NodeOrToken::Token(t) => t.text_len() } }
}
impl From<GreenNode> for GreenElement { fn from(n: GreenNode) -> Self { NodeOrToken::Node(n) } }
impl From<GreenToken> for GreenElement { fn from(n: GreenToken) -> Self { NodeOrToken::Token(n) } }

impl GreenNodeData {
    pub fn kind(&self) -> SyntaxKind { self.0.kind }
    pub fn text_len(&self) -> TextSize { self.0.len }
    pub fn children(&self) -> Children<'_> { Children { raw: self.0.children.iter() } }
    pub(crate) fn slots(&self) -> &[(TextSize, GreenElement)] { &self.0.children }
    #[must_use]
    pub fn replace_child(&self, index: usize, new: GreenElement) -> GreenNode {
        GreenNode::new(self.kind(), self.0.children.iter().enumerate().map(|(i, c)| if i == index { new.clone() } else { c.1.clone() }))
    }
    #[must_use]
    pub fn insert_child(&self, index: usize, new: GreenElement) -> GreenNode { self.splice_children(index..index, std::iter::once(new)) }
    #[must_use]
    pub fn remove_child(&self, index: usize) -> GreenNode { self.splice_children(index..=index, std::iter::empty()) }
    #[must_use]
    pub fn splice_children<R, I>(&self, range: R, with: I) -> GreenNode where R: std::ops::RangeBounds<usize>, I: IntoIterator<Item = GreenElement> {
        let mut v: Vec<GreenElement> = self.0.children.iter().map(|c| c.1.clone()).collect();
        v.splice(range, with);
        GreenNode::new(self.kind(), v)
    }
}
impl GreenNode {
    pub fn new<I: IntoIterator<Item = GreenElement>>(kind: SyntaxKind, children: I) -> GreenNode {
        let mut len = TextSize::from(0);
        let mut v = Vec::new();
        for c in children { let l = c.text_len(); v.push((len, c)); len += l; }
        GreenNode(Arc::new(GreenNodeData(Inner { kind, len, children: v.into_boxed_slice() })))
    }
    pub(crate) fn ptr(&self) -> usize { Arc::as_ptr(&self.0) as *const u8 as usize }
}
#[derive(Debug, Clone)]
pub struct Children<'a> { raw: std::slice::Iter<'a, (TextSize, GreenElement)> }
impl<'a> Iterator for Children<'a> {
    type Item = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
    fn next(&mut self) -> Option<Self::Item> { self.raw.next().map(conv) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.raw.size_hint() }
}
impl DoubleEndedIterator for Children<'_> { fn next_back(&mut self) -> Option<Self::Item> { self.raw.next_back().map(conv) } }
impl ExactSizeIterator for Children<'_> {}
fn conv(c: &(TextSize, GreenElement)) -> NodeOrToken<&GreenNodeData, &GreenTokenData> {
    match &c.1 { NodeOrToken::Node(n) => NodeOrToken::Node(&**n), NodeOrToken::Token(t) => NodeOrToken::Token(&**t) }
}
#[derive(Default, Debug)]
pub struct NodeCache;
#[derive(Clone, Copy, Debug)]
pub struct Checkpoint(usize);
#[derive(Debug)]
pub struct GreenNodeBuilder<'c> { parents: Vec<(SyntaxKind, usize)>, children: Vec<GreenElement>, _p: std::marker::PhantomData<&'c ()> }
impl Default for GreenNodeBuilder<'_> { fn default() -> Self { GreenNodeBuilder { parents: vec![], children: vec![], _p: Default::default() } } }
impl GreenNodeBuilder<'_> {
    pub fn new() -> GreenNodeBuilder<'static> { GreenNodeBuilder::default() }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) { self.children.push(GreenToken::new(kind, text).into()) }
    pub fn start_node(&mut self, kind: SyntaxKind) { let n = self.children.len(); self.parents.push((kind, n)) }
    pub fn finish_node(&mut self) {
        let (kind, first) = self.parents.pop().unwrap();
        let kids: Vec<GreenElement> = self.children.drain(first..).collect();
        self.children.push(GreenNode::new(kind, kids).into());
    }
    pub fn checkpoint(&self) -> Checkpoint { Checkpoint(self.children.len()) }
    pub fn start_node_at(&mut self, c: Checkpoint, kind: SyntaxKind) {
        let Checkpoint(c) = c;
        assert!(c <= self.children.len(), "checkpoint no longer valid, was finish_node called early?");
        if let Some(&(_, first)) = self.parents.last() { assert!(c >= first, "checkpoint no longer valid, was an unmatched start_node_at called?"); }
        self.parents.push((kind, c));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap() { NodeOrToken::Node(n) => n, NodeOrToken::Token(_) => panic!() }
    }
}
