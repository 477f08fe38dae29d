//! Token sequences with arbitrary tokens in them.
//! Under the engine the parser is handed the tokens themselves, kinds symbolic, through the `given_tokens` hook
//! (the arbitrary ones stand in the text as `?`); natively the real text goes through the real lexer.
use syntax::SyntaxKind::{self, *};
use syntax::verif::{given_tokens, tokenize, RawToken};
use syntax::*;

/// Every kind the lexer produces, except identifiers and trivia, and a text that lexes to it.
pub const KINDS: &[(SyntaxKind, &str)] = &[
    (SEMICOLON, ";"), (COMMA, ","), (L_PAREN, "("), (R_PAREN, ")"), (L_CURLY, "{"), (R_CURLY, "}"), (L_BRACK, "["),
    (R_BRACK, "]"), (L_ANGLE, "<"), (R_ANGLE, ">"), (AT, "@"), (POUND, "#"), (AMP, "&"), (PIPE, "|"), (PLUS, "+"),
    (STAR, "*"), (SLASH, "/"), (CARET, "^"), (PERCENT, "%"), (UNDERSCORE, "_"), (DOT, "."), (DOT_DOT, ".."), (COLON, ":"),
    (COLON_COLON, "::"), (EQ, "="), (EQ_EQ, "=="), (FAT_ARROW, "=>"), (IMPLIES, "==>"), (BANG, "!"), (NOT_EQ, "!="),
    (MINUS, "-"), (PLUS_EQ, "+="), (MINUS_EQ, "-="), (PIPE_EQ, "|="), (AMP_EQ, "&="), (CARET_EQ, "^="), (SLASH_EQ, "/="),
    (STAR_EQ, "*="), (PERCENT_EQ, "%="), (MODULE_KW, "module"), (SCRIPT_KW, "script"), (SPEC_KW, "spec"), (FUN_KW, "fun"),
    (STRUCT_KW, "struct"), (CONST_KW, "const"), (FRIEND_KW, "friend"), (USE_KW, "use"), (PUBLIC_KW, "public"),
    (NATIVE_KW, "native"), (IF_KW, "if"), (ELSE_KW, "else"), (TRUE_KW, "true"), (FALSE_KW, "false"), (LOOP_KW, "loop"),
    (WHILE_KW, "while"), (CONTINUE_KW, "continue"), (BREAK_KW, "break"), (AS_KW, "as"), (RETURN_KW, "return"),
    (MOVE_KW, "move"), (LET_KW, "let"), (MUT_KW, "mut"), (ABORT_KW, "abort"), (INVARIANT_KW, "invariant"),
    (ACQUIRES_KW, "acquires"), (INLINE_KW, "inline"), (INT_NUMBER, "1"), (BYTE_STRING, "b\"\""), (HEX_STRING, "x\"\""),
    (BAD_CHARACTER, "`"), (QUOTE_IDENT, "'a"),
];

pub fn lexer_kinds() -> u128 {
    let mut m = 0u128;
    for (k, _) in KINDS {
        m |= 1 << (*k as u16);
    }
    m
}
pub fn one(k: SyntaxKind) -> u128 {
    1 << (k as u16)
}

#[derive(Default)]
pub struct Toks {
    pub text: String,
    raw: Vec<RawToken>,
}

impl Toks {
    /// Concrete source text.
    pub fn src(&mut self, s: &str) {
        if cfg!(symex) {
            self.raw.extend(tokenize(s).0);
        }
        self.text.push_str(s);
    }
    fn put(&mut self, kind: SyntaxKind, text: &str) {
        self.raw.push(RawToken { kind, len: TextSize::new(text.len() as u32) });
        self.text.push_str(text);
    }
    pub fn space(&mut self) {
        self.put(WHITESPACE, " ");
    }
    /// One token of any kind in `kinds`, returned as its number.
    pub fn any_of(&mut self, kinds: u128) -> u8 {
        let b = sym::u8("kind");
        sym::assume((b < 128) & ((kinds >> (b & 127)) & 1 == 1));
        let kind = SyntaxKind::from(b as u16);
        if cfg!(symex) {
            self.put(kind, "?");
        } else {
            let t = KINDS.iter().find(|k| k.0 == kind).unwrap().1;
            self.put(kind, t);
        }
        b
    }
    /// One arbitrary token: one of the identifiers, or any other kind.
    pub fn any(&mut self, idents: &[&str], kinds: u128) -> u8 {
        let c = sym::choose(idents.len() as u64 + 1, "ident") as usize;
        if c > 0 {
            self.put(IDENT, idents[c - 1]);
            return IDENT as u16 as u8;
        }
        self.any_of(kinds)
    }
    /// `n` arbitrary tokens, some of them adjacent to the next one.
    pub fn many(&mut self, n: usize, idents: &[&str], kinds: u128) {
        let mut prev = 0u8;
        for i in 0..n {
            let joined = i > 0 && sym::bool("joined");
            if i > 0 && !joined {
                self.space();
            }
            let k = self.any(idents, kinds);
            if joined {
                let (lt, gt, amp, pipe) = (L_ANGLE as u16 as u8, R_ANGLE as u16 as u8, AMP as u16 as u8, PIPE as u16 as u8);
                let next_ok = (k == amp) | (k == pipe);
                sym::assume((prev == lt) | (prev == gt) | ((prev == amp) | (prev == pipe)) & next_ok);
            }
            prev = k;
        }
    }
    pub fn parse(&self) -> Parse {
        if cfg!(symex) {
            given_tokens::set(self.raw.clone());
        }
        sym::note(&self.text);
        SourceFile::parse(&self.text)
    }
}
