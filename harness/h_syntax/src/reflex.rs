//! Move's lexical rules, written from the language's description, over ASCII text without carriage returns.
use syntax::SyntaxKind::{self, *};

pub const WORDS: &[(&str, SyntaxKind)] = &[
    ("abort", ABORT_KW), ("acquires", ACQUIRES_KW), ("as", AS_KW), ("break", BREAK_KW), ("const", CONST_KW), ("continue", CONTINUE_KW),
    ("else", ELSE_KW), ("false", FALSE_KW), ("friend", FRIEND_KW), ("fun", FUN_KW), ("if", IF_KW), ("inline", INLINE_KW),
    ("invariant", INVARIANT_KW), ("let", LET_KW), ("loop", LOOP_KW), ("module", MODULE_KW), ("move", MOVE_KW), ("mut", MUT_KW),
    ("native", NATIVE_KW), ("public", PUBLIC_KW), ("return", RETURN_KW), ("script", SCRIPT_KW), ("spec", SPEC_KW), ("struct", STRUCT_KW),
    ("true", TRUE_KW), ("use", USE_KW), ("while", WHILE_KW), ("_", UNDERSCORE),
];
/// Longest first among those with a common beginning.
const PUNCT: &[(&str, SyntaxKind)] = &[
    ("==>", IMPLIES), ("==", EQ_EQ), ("=>", FAT_ARROW), ("=", EQ), ("!=", NOT_EQ), ("!", BANG), ("&=", AMP_EQ), ("&", AMP),
    ("|=", PIPE_EQ), ("|", PIPE), ("<", L_ANGLE), (">", R_ANGLE), ("::", COLON_COLON), (":", COLON), ("%=", PERCENT_EQ),
    ("%", PERCENT), ("(", L_PAREN), (")", R_PAREN), ("[", L_BRACK), ("]", R_BRACK), ("{", L_CURLY), ("}", R_CURLY),
    ("*=", STAR_EQ), ("*", STAR), ("+=", PLUS_EQ), ("+", PLUS), (",", COMMA), ("-=", MINUS_EQ), ("-", MINUS), ("..", DOT_DOT),
    (".", DOT), ("/=", SLASH_EQ), ("/", SLASH), (";", SEMICOLON), ("^=", CARET_EQ), ("^", CARET), ("#", POUND), ("@", AT),
];
pub const SUFFIXES: &[&str] = &["u8", "u16", "u32", "u64", "u128", "u256", "i8", "i16", "i32", "i64", "i128", "i256"];

fn run(s: &[u8], f: impl Fn(u8) -> bool) -> usize {
    let mut n = 0;
    while n < s.len() && f(s[n]) {
        n += 1;
    }
    n
}
fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() | (b == b'_')
}

/// Kind and length of the first token of `s`.
pub fn first(s: &[u8]) -> (SyntaxKind, usize) {
    let line = run(s, |b| b != b'\n');
    if s.starts_with(b"//") {
        return (COMMENT, line);
    }
    if s.starts_with(b"/*") {
        let (mut i, mut depth) = (2, 1);
        while i < s.len() {
            if s[i..].starts_with(b"/*") {
                depth += 1;
                i += 2;
            } else if s[i..].starts_with(b"*/") {
                depth -= 1;
                i += 2;
                if depth == 0 {
                    return (COMMENT, i);
                }
            } else {
                i += 1;
            }
        }
        return (COMMENT, s.len());
    }
    let ws = run(s, |b| (b == b' ') | (b == b'\t') | (b == b'\n'));
    if ws > 0 {
        return (WHITESPACE, ws);
    }
    if s[0].is_ascii_digit() {
        let mut n;
        if s.starts_with(b"0x") {
            n = 2 + run(&s[2..], |b| b.is_ascii_hexdigit() | (b == b'_'));
            if n == 2 && !SUFFIXES.iter().any(|x| s[2..].starts_with(x.as_bytes())) {
                return (INT_NUMBER, 1);
            }
        } else {
            n = run(s, |b| b.is_ascii_digit() | (b == b'_'));
        }
        for x in SUFFIXES {
            if s[n..].starts_with(x.as_bytes()) {
                n += x.len();
                break;
            }
        }
        return (INT_NUMBER, n);
    }
    if s.starts_with(b"x\"") {
        let n = 2 + run(&s[2..], |b| b.is_ascii_alphanumeric());
        return (HEX_STRING, n + (s[n..].starts_with(b"\"") as usize));
    }
    if s.starts_with(b"b\"") {
        let mut i = 2;
        while i < line {
            if s[i] == b'"' {
                return (BYTE_STRING, i + 1);
            }
            i += if s[i] == b'\\' { 2 } else { 1 };
        }
        return (BYTE_STRING, line);
    }
    if word(s[0]) {
        let n = run(s, word);
        for (w, k) in WORDS {
            if *w.as_bytes() == s[..n] {
                return (*k, n);
            }
        }
        return (IDENT, n);
    }
    if s[0] == b'\'' {
        let n = run(&s[1..], word);
        if n == 0 || s[1].is_ascii_digit() {
            return (BAD_CHARACTER, 1);
        }
        return (QUOTE_IDENT, 1 + n);
    }
    for (t, k) in PUNCT {
        if s.starts_with(t.as_bytes()) {
            return (*k, t.len());
        }
    }
    (BAD_CHARACTER, 1)
}
