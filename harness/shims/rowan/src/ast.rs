use crate::{Language, SyntaxNode, TextRange};
use std::{hash::{Hash, Hasher}, iter::successors};
pub trait AstNode {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool where Self: Sized;
    fn cast(node: SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
}
#[derive(Debug)]
pub struct SyntaxNodePtr<L: Language> { kind: L::Kind, range: TextRange }
impl<L: Language> Clone for SyntaxNodePtr<L> { fn clone(&self) -> Self { SyntaxNodePtr { kind: self.kind, range: self.range } } }
impl<L: Language> Copy for SyntaxNodePtr<L> {}
impl<L: Language> PartialEq for SyntaxNodePtr<L> { fn eq(&self, o: &Self) -> bool { self.kind == o.kind && self.range == o.range } }
impl<L: Language> Eq for SyntaxNodePtr<L> {}
impl<L: Language> Hash for SyntaxNodePtr<L> { fn hash<H: Hasher>(&self, s: &mut H) { self.kind.hash(s); self.range.hash(s); } }
impl<L: Language> SyntaxNodePtr<L> {
    pub fn new(node: &SyntaxNode<L>) -> Self { SyntaxNodePtr { kind: node.kind(), range: node.text_range() } }
    pub fn to_node(&self, root: &SyntaxNode<L>) -> SyntaxNode<L> { self.try_to_node(root).unwrap_or_else(|| panic!("can't resolve {self:?} with {root:?}")) }
    pub fn try_to_node(&self, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
        if root.parent().is_some() { return None; }
        successors(Some(root.clone()), |n| n.child_or_token_at_range(self.range).and_then(|it| it.into_node())).find(|it| it.text_range() == self.range && it.kind() == self.kind)
    }
    pub fn kind(&self) -> L::Kind { self.kind }
    pub fn text_range(&self) -> TextRange { self.range }
}
