//! Stand-in for the `rowan` crate (0.15): lossless green trees plus a red cursor layer, the same public behaviour
//! with a plain reference-counted representation and no node deduplication.
mod green;
mod text;
mod util;
pub mod api;
pub mod ast;
pub use api::{Language, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken};
pub use green::{Checkpoint, Children, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, NodeCache, SyntaxKind};
pub use text::SyntaxText;
pub use text_size::{TextLen, TextRange, TextSize};
pub use util::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
