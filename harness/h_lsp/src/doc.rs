//! A client's document and what the server makes of it.
use crate::config::Config;
use crate::global_state::GlobalState;
use crate::handlers::notification::*;
use crate::line_index::{LineIndex, PositionEncoding};
use crate::lsp::utils::apply_document_changes;
use crate::lsp::{from_proto, semantic_tokens, to_proto};
use ide::HlRange;
use ide::syntax_highlighting::tags::{Highlight, HlPunct, HlTag};
use ide_db::text_edit::{TextChange, TextEdit};
use line_index::{TextRange, TextSize, WideEncoding};
use lsp_types::*;
use std::sync::Arc;
use stdext::line_endings::LineEndings;

/// What a document is made of: the positions of the protocol lie between these.
#[derive(Clone, Copy, PartialEq)]
pub enum E {
    Letter(u8),
    Nl,
    CrLf,
    Two,
    Three,
    Four,
}
impl E {
    fn push(self, s: &mut String) {
        match self {
            E::Letter(b) => s.push(b as char),
            E::Nl => s.push('\n'),
            E::CrLf => s.push_str("\r\n"),
            E::Two => s.push('é'),
            E::Three => s.push('→'),
            E::Four => s.push('😀'),
        }
    }
    fn is_line_end(self) -> bool {
        matches!(self, E::Nl | E::CrLf)
    }
    /// How many units of the encoding it takes.
    fn units(self, e: PositionEncoding) -> u32 {
        match (self, e) {
            (E::Two, PositionEncoding::Utf8) => 2,
            (E::Three, PositionEncoding::Utf8) => 3,
            (E::Four, PositionEncoding::Utf8) => 4,
            (E::Four, PositionEncoding::Wide(WideEncoding::Utf16)) => 2,
            _ => 1,
        }
    }
}
pub fn text(d: &[E]) -> String {
    let mut s = String::new();
    for e in d {
        e.push(&mut s);
    }
    s
}
/// With Unix line ends, as the server keeps it.
pub fn normal(d: &[E]) -> String {
    let d: Vec<E> = d.iter().map(|e| if let E::CrLf = e { E::Nl } else { *e }).collect();
    text(&d)
}
pub fn position(d: &[E], k: usize, enc: PositionEncoding) -> Position {
    let mut p = Position::new(0, 0);
    for e in &d[..k] {
        if e.is_line_end() {
            p = Position::new(p.line + 1, 0);
        } else {
            p.character += e.units(enc);
        }
    }
    p
}
fn letter() -> u8 {
    let b = sym::var(8, "letter") as u8;
    let b = if cfg!(symex) { b } else { b'a' + b.wrapping_sub(b'a') % 26 };
    sym::assume(b.is_ascii_lowercase());
    b
}
/// An element; `kinds` of them, line ends first.
fn elem(kinds: u64) -> E {
    match sym::choose(kinds, "element") {
        0 => E::Letter(letter()),
        1 => E::Nl,
        2 => E::Four,
        3 => E::CrLf,
        4 => E::Two,
        _ => E::Three,
    }
}
fn elems(max: u64, kinds: u64) -> Vec<E> {
    let n = sym::choose(max + 1, "length");
    (0..n).map(|_| elem(kinds)).collect()
}
fn encoding() -> PositionEncoding {
    match sym::choose(3, "encoding") {
        0 => PositionEncoding::Utf8,
        1 => PositionEncoding::Wide(WideEncoding::Utf16),
        _ => PositionEncoding::Wide(WideEncoding::Utf32),
    }
}
/// A change of the client's document, made to it and returned as the client reports it.
fn change(d: &mut Vec<E>, enc: PositionEncoding, max: u64, kinds: u64) -> TextDocumentContentChangeEvent {
    let n = d.len() as u64;
    let a = sym::choose(n + 2, "from") as usize;
    let new = elems(max, kinds);
    if a as u64 == n + 1 {
        *d = new;
        sym::cover("whole document");
        return TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument { text: text(d) });
    }
    let b = a + sym::choose(n - a as u64 + 1, "to") as usize;
    let range = Range::new(position(d, a, enc), position(d, b, enc));
    let t = text(&new);
    d.splice(a..b, new);
    TextDocumentContentChangeEvent::TextDocumentContentChangePartial(TextDocumentContentChangePartial { range, text: t, ..Default::default() })
}

/// The changes of one notification make of the server's text what they made of the client's.
pub fn changes() {
    let enc = encoding();
    let kinds = sym::param("kinds", 4);
    let mut d = elems(sym::param("len", 2), kinds);
    let t = text(&d);
    let mut cs = vec![];
    for _ in 0..sym::param("changes", 2) {
        cs.push(change(&mut d, enc, sym::param("new", 1), kinds));
    }
    let got = apply_document_changes(enc, &t, cs);
    sym::check(got == text(&d), "the server has the client's text");
    sym::observe(got.as_bytes());
}

fn uri() -> Uri {
    Uri::parse("file:///f.move").unwrap()
}
/// What is opened, changed, closed and opened again is what the server analyses.
pub fn sync() {
    let mut s = GlobalState::new(Config { encoding: PositionEncoding::Utf8 });
    let enc = encoding();
    s.config = Arc::new(Config { encoding: enc });
    let kinds = sym::param("kinds", 4);
    let mut d: Option<Vec<E>> = None;
    let mut last = vec![];
    let mut version = 1;
    for step in 0..sym::param("steps", 4) {
        let did = if step == 0 { 0 } else { 1 + sym::choose(3, "step") };
        match (did, &mut d) {
            (0, _) | (3, None) => {
                let new = elems(sym::param("len", 2), kinds);
                handle_did_open_text_document(&mut s, DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: uri(), language_id: String::new(), version, text: text(&new) } }).unwrap();
                d = Some(new);
                sym::cover(if step == 0 { "opened" } else { "opened again" });
            }
            (1, Some(d)) => {
                version += 1;
                let c = change(d, enc, 1, kinds);
                let text_document = VersionedTextDocumentIdentifier { version, text_document_identifier: TextDocumentIdentifier { uri: uri() } };
                handle_did_change_text_document(&mut s, DidChangeTextDocumentParams { text_document, content_changes: vec![c] }).unwrap();
                sym::cover("changed");
            }
            (2, _) => {
                s.process_pending_file_changes();
                sym::cover("analysed");
            }
            (3, Some(_)) => {
                handle_did_close_text_document(&mut s, DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: uri() } }).unwrap();
                sym::check(s.vfs_loader.handle.invalidated.len() > 0, "a closed file is read from disk again");
                d = None;
                sym::cover("closed");
            }
            _ => {}
        }
        if let Some(d) = &d {
            last = d.clone();
        }
    }
    s.process_pending_file_changes();
    let snap = s.snapshot();
    let file = snap.url_to_file_id(&uri()).unwrap();
    let got = snap.analysis.file_text(file).unwrap().to_string();
    sym::check(got == normal(&last), "what is analysed is the client's text");
    sym::check(snap.file_version(file) == d.is_some().then_some(version), "the version is the client's");
    let index = snap.file_line_index(file).unwrap();
    sym::check((index.endings == LineEndings::Dos) == last.contains(&E::CrLf), "the line ends are the client's");
    let k = sym::choose(last.len() as u64 + 1, "position") as usize;
    let at = TextSize::from(normal(&last[..k]).len() as u32);
    let p = position(&last, k, enc);
    sym::check(from_proto::offset(&index, p).ok() == Some(at), "a client's position is the same place for the server");
    sym::check(to_proto::lsp_position(&index, at) == p, "a server's place is the same position for the client");
    sym::observe(got.as_bytes());
}

fn line_index(d: &[E], enc: PositionEncoding) -> LineIndex {
    let (t, endings) = LineEndings::normalize(text(d));
    LineIndex { index: Arc::new(line_index::LineIndex::new(&t)), endings, encoding: enc }
}
fn bytes(d: &[E]) -> u32 {
    normal(d).len() as u32
}

/// What the client colors, from the numbers it is sent.
fn decode(ts: &[SemanticToken]) -> Vec<(u32, u32, u32, u32)> {
    let (mut line, mut start) = (0, 0);
    let mut res = vec![];
    for t in ts {
        line += t.delta_line;
        start = if t.delta_line > 0 { t.delta_start } else { start + t.delta_start };
        if t.length > 0 {
            res.push((line, start, t.length, t.token_type));
        }
    }
    res
}
fn tags() -> [(HlTag, &'static str); 5] {
    [
        (HlTag::Comment, "comment"),
        (HlTag::Keyword, "keyword"),
        (HlTag::Symbol(ide_db::SymbolKind::Function), "function"),
        (HlTag::Punctuation(HlPunct::Comma), "comma"),
        (HlTag::UnresolvedReference, "unresolvedReference"),
    ]
}
/// The colors of the server's ranges are shown at the same places by the client.
pub fn tokens() {
    let enc = encoding();
    let d = elems(sym::param("len", 4), sym::param("kinds", 4));
    let index = line_index(&d, enc);
    let t = normal(&d);
    let mut highlights = vec![];
    let mut want = vec![];
    let mut from = 0;
    for _ in 0..sym::param("ranges", 2) {
        let a = from + sym::choose((d.len() - from) as u64 + 1, "from") as usize;
        let b = a + sym::choose((d.len() - a) as u64 + 1, "to") as usize;
        let k = sym::choose(sym::param("tags", 2), "tag") as usize;
        from = b;
        if a == b {
            continue;
        }
        let (tag, name) = tags()[k];
        highlights.push(HlRange { range: TextRange::new(bytes(&d[..a]).into(), bytes(&d[..b]).into()), highlight: tag.into() });
        // a token of the protocol does not span lines
        let mut lo = a;
        for k in a..=b {
            if k == b || d[k].is_line_end() {
                if lo < k {
                    let p = position(&d, lo, enc);
                    want.push((p.line, p.character, position(&d, k, enc).character - p.character, name));
                }
                lo = k + 1;
            }
        }
        if want.len() > highlights.len() {
            sym::cover("several lines");
        }
    }
    let legend: Vec<String> = semantic_tokens::SupportedType::iter().map(|t| t.to_string()).collect();
    let got = to_proto::semantic_tokens(&t, &index, highlights);
    let got = decode(&got.data);
    sym::check(got.len() == want.len(), "every line of a range is colored, and nothing else");
    for (g, w) in got.iter().zip(&want) {
        sym::check((g.0, g.1, g.2) == (w.0, w.1, w.2), "the same place is colored");
        sym::check(legend[g.3 as usize] == w.3, "with the color it has");
    }
    if want.len() > 1 {
        sym::cover("two tokens");
    }
}
fn token(b: u8) -> SemanticToken {
    SemanticToken { delta_line: b as u32 & 3, delta_start: b as u32 >> 2, length: 1, token_type: 0, token_modifiers_bitset: 0 }
}
/// The difference of two answers, applied to the first, gives the second.
pub fn delta() {
    let some = |what: &str| -> Vec<SemanticToken> {
        let n = sym::choose(sym::param("tokens", 3) + 1, "number");
        (0..n).map(|_| token(sym::var(8, "token") as u8)).collect()
    };
    let old = some("old");
    let new = some("new");
    let flat = |ts: &[SemanticToken]| -> Vec<u32> { ts.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect() };
    let edits = semantic_tokens::diff_tokens(&old, &new);
    let mut got = flat(&old);
    sym::check(edits.len() <= 1, "the edits do not shift one another");
    for e in edits {
        let (a, n) = (e.start as usize, e.delete_count as usize);
        sym::check(a + n <= got.len(), "the edit lies within the old tokens");
        got.splice(a..a + n, flat(&e.data.unwrap_or_default()));
        sym::cover("edited");
    }
    sym::check(got == flat(&new), "the client has the new tokens");
}

/// An edit of the server's text does the same to the client's document.
pub fn edits() {
    let enc = encoding();
    let kinds = sym::param("kinds", 4);
    let d = elems(sym::param("len", 3), kinds);
    let index = line_index(&d, enc);
    let n = d.len();
    let mut parts: Vec<(usize, usize, Vec<E>)> = vec![];
    let mut from = 0;
    for _ in 0..sym::param("changes", 2) {
        let a = from + sym::choose((n - from) as u64 + 1, "from") as usize;
        let b = a + sym::choose((n - a) as u64 + 1, "to") as usize;
        // the server writes Unix line ends
        let new: Vec<E> = elems(sym::param("new", 1), kinds).into_iter().map(|e| if e.is_line_end() { E::Nl } else { e }).collect();
        parts.push((a, b, new));
        from = b;
    }
    let range = |a: usize, b: usize| TextRange::new(bytes(&d[..a]).into(), bytes(&d[..b]).into());
    // what it should be
    let crlf = d.contains(&E::CrLf);
    let mut want = d.clone();
    for (a, b, new) in parts.iter().rev() {
        want.splice(*a..*b, new.iter().map(|e| if crlf && *e == E::Nl { E::CrLf } else { *e }));
    }
    // the way the server makes it
    let last_first = parts.len() > 1 && (sym::choose(2, "reversed") == 1) && parts[0].1 < parts[1].0;
    let union = (sym::choose(2, "union") == 1);
    let mut edit = TextEdit::default();
    let mut builder = TextEdit::builder();
    let order: Vec<usize> = if last_first { (0..parts.len()).rev().collect() } else { (0..parts.len()).collect() };
    for k in order {
        let (a, b, new) = &parts[k];
        let t = text(new);
        if union {
            let same = parts.iter().filter(|p| (p.0, p.1) == (*a, *b)).count() > 1;
            sym::assume(!same);
            sym::check(edit.union(TextEdit::replace(range(*a, *b), t)).is_ok(), "edits that do not overlap go together");
        } else if a == b {
            builder.insert(range(*a, *b).start(), t);
        } else if new.is_empty() {
            builder.delete(range(*a, *b));
        } else {
            builder.replace(range(*a, *b), t);
        }
    }
    if !union {
        edit = builder.finish();
    }
    let mut server = normal(&d);
    edit.apply(&mut server);
    sym::check(server == normal(&want), "the edit changes the server's text at its ranges");
    // the client's side
    let mut client = d.clone();
    let mut last = None;
    for e in to_proto::text_edit_vec(&index, edit).into_iter().rev() {
        let find = |p: Position| (0..=n).find(|k| position(&d, *k, enc) == p);
        let (a, b) = (find(e.range.start), find(e.range.end));
        sym::check(a.is_some() && a <= b && (last.is_none() || b <= last), "the ranges are ranges of the document, in order");
        last = a;
        client.splice(a.unwrap()..b.unwrap(), read(&e.new_text));
    }
    sym::check(text(&client) == text(&want), "the client's document is changed the same way, with its line ends");
    sym::observe(text(&client).as_bytes());
}
fn read(t: &str) -> Vec<E> {
    let mut res = vec![];
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let (e, n) = match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => (E::CrLf, 2),
            b'\n' => (E::Nl, 1),
            x if x < 0x80 => (E::Letter(x), 1),
            x if x < 0xe0 => (E::Two, 2),
            x if x < 0xf0 => (E::Three, 3),
            _ => (E::Four, 4),
        };
        res.push(e);
        i += n;
    }
    res
}
