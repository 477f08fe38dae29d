//! Validation of the stand-ins: the mirrored parser on the repository's own parser corpus (crates/syntax/tests).
use std::fs;
use syntax::{AstNode, SourceFile, TextRange, algo, ast, pretty_print::{SourceMark, apply_source_marks}};
fn main() {
    let (mut ok, mut bad) = (0, 0);
    for d in ["complete", "partial"] {
        let mut fs_: Vec<_> = fs::read_dir(format!("/repo/crates/syntax/tests/{d}")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "move")).collect();
        fs_.sort();
        for p in fs_ {
            let input = fs::read_to_string(&p).unwrap();
            let parse = SourceFile::parse(&input);
            let file = parse.tree();
            let tree = format!("{:#?}", file.syntax());
            let want = fs::read_to_string(p.with_extension("txt")).unwrap_or_default();
            let errs = parse.errors();
            let marks = errs.iter().map(|e| match algo::find_node_at_offset::<ast::AstError>(file.syntax(), e.range().start()) {
                Some(n) => SourceMark::at_range(n.syntax().text_range(), e.to_string()),
                None => SourceMark::at_range(e.range(), e.to_string()),
            }).collect();
            let eo = apply_source_marks(&input, marks);
            let we = fs::read_to_string(p.with_extension("exp"));
            let good = tree == want && (errs.is_empty() || we.map(|w| w == eo).unwrap_or(false)) && file.syntax().text() == input.as_str();
            for o in 0..=input.len() { if input.is_char_boundary(o) { let _ = file.syntax().token_at_offset((o as u32).into()); let _ = file.syntax().covering_element(TextRange::empty((o as u32).into())); } }
            if good { ok += 1 } else { bad += 1; println!("DIFFERS {}", p.display()); }
        }
    }
    println!("{ok} corpus files agree with the expected trees and errors, {bad} differ");
}
