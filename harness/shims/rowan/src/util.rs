#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<T> { match self { NodeOrToken::Token(t) => Some(t), _ => None } }
    pub fn as_node(&self) -> Option<&N> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&T> { match self { NodeOrToken::Token(t) => Some(t), _ => None } }
    pub fn as_ref(&self) -> NodeOrToken<&N, &T> { match self { NodeOrToken::Node(n) => NodeOrToken::Node(n), NodeOrToken::Token(t) => NodeOrToken::Token(t) } }
}
impl<N: Clone, T: Clone> NodeOrToken<&N, &T> {
    pub fn cloned(&self) -> NodeOrToken<N, T> { match *self { NodeOrToken::Node(n) => NodeOrToken::Node(n.clone()), NodeOrToken::Token(t) => NodeOrToken::Token(t.clone()) } }
}
impl<N: std::fmt::Display, T: std::fmt::Display> std::fmt::Display for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { NodeOrToken::Node(n) => n.fmt(f), NodeOrToken::Token(t) => t.fmt(f) } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Direction { Next, Prev }
#[derive(Debug, Copy, Clone)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> { match self { WalkEvent::Enter(t) => WalkEvent::Enter(f(t)), WalkEvent::Leave(t) => WalkEvent::Leave(f(t)) } }
}
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }
impl<T> TokenAtOffset<T> {
    pub fn map<F: Fn(T) -> U, U>(self, f: F) -> TokenAtOffset<U> {
        match self { TokenAtOffset::None => TokenAtOffset::None, TokenAtOffset::Single(t) => TokenAtOffset::Single(f(t)), TokenAtOffset::Between(a, b) => TokenAtOffset::Between(f(a), f(b)) }
    }
    pub fn right_biased(self) -> Option<T> { match self { TokenAtOffset::None => None, TokenAtOffset::Single(t) => Some(t), TokenAtOffset::Between(_, b) => Some(b) } }
    pub fn left_biased(self) -> Option<T> { match self { TokenAtOffset::None => None, TokenAtOffset::Single(t) => Some(t), TokenAtOffset::Between(a, _) => Some(a) } }
}
impl<T> Iterator for TokenAtOffset<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match std::mem::replace(self, TokenAtOffset::None) {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(t) => Some(t),
            TokenAtOffset::Between(a, b) => { *self = TokenAtOffset::Single(b); Some(a) }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = match self { TokenAtOffset::None => 0, TokenAtOffset::Single(_) => 1, _ => 2 }; (n, Some(n)) }
}
impl<T> ExactSizeIterator for TokenAtOffset<T> {}
