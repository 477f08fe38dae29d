pub mod prog;
#[path = "../../h_syntax/src/reflex.rs"]
pub mod reflex;
pub mod world;
use ide_db::assists::AssistResolveStrategy;
use ide_diagnostics::config::DiagnosticsConfig;
use ide_diagnostics::diagnostic::Diagnostic;
use prog::*;
use syntax::{TextRange, TextSize};
use world::*;

/// A template (any, or the one the bound `prog` names), one of its holes, and the program: the declarations' names and the
/// name at that hole are symbolic, the other uses name their innermost candidate.
fn program(w: &mut World, progs: &[T]) -> (Prog, usize) {
    let only = sym::param("prog", 999) as usize;
    let k = if only < 999 { only } else { sym::choose(progs.len() as u64, "program") as usize };
    // the bound `mask`: which programs
    sym::assume(sym::param("mask", u64::MAX) >> k & 1 == 1);
    let i = sym::choose(Prog::count(&progs[k]) as u64, "hole") as usize;
    let mut p = Prog::new(&progs[k], Some(i));
    p.cover = COVERS[k];
    p.template = k;
    if !cfg!(symex) {
        sym::note(&format!("key {k} {i}"));
    }
    for (f, t) in p.files() {
        w.set(f, t);
    }
    (p, i)
}

/// The same where the hole only says which use is free: the first of the holes that are not uses stands for all of them.
fn free_use(w: &mut World, progs: &[T]) -> Option<(Prog, usize)> {
    let (p, i) = program(w, progs);
    let is_use = |h: &Hole| matches!(h, Hole::Use(..));
    (is_use(&p.holes[i]) || p.holes.iter().position(|h| !is_use(h)) == Some(i)).then_some((p, i))
}

const COVERS: [&str; 30] = [
    "program 0", "program 1", "program 2", "program 3", "program 4", "program 5", "program 6", "program 7", "program 8", "program 9",
    "program 10", "program 11", "program 12", "program 13", "program 14", "program 15", "program 16", "program 17", "program 18", "program 19",
    "program 20", "program 21", "program 22", "program 23", "program 24", "program 25", "program 26", "program 27", "program 28", "program 29",
];

/// Goto definition at a hole agrees with the scoping the template gives.
fn resolves(progs: &[T]) {
    let mut w = World::new(3);
    let (p, i) = program(&mut w, progs);
    if let Hole::Alias(_) | Hole::Same(_) | Hole::Both(..) = p.holes[i] {
        return;
    }
    if p.label[i] && matches!(p.holes[i], Hole::Decl) {
        return; // goto definition does nothing on a label's declaration
    }
    let d = goto(&w.an(), pos(p.file[i], p.at[i]));
    let want = p.meaning(i);
    if !cfg!(symex) {
        sym::note(&format!("file {} offset {}: want {:?} got {:?}", p.file[i], p.at[i], want.map(|j| (p.file[j], p.at[j])), d));
    }
    sym::cover(if want.is_some() { "defined" } else { "undefined" });
    match (d, want) {
        (None, None) => (),
        (Some((f, r)), Some(j)) => sym::check((f == p.file[j]) & (usize::from(r.start()) == p.at[j]) & (usize::from(r.len()) == p.len[j]), "goto definition goes to the declaration scoping gives"),
        (None, Some(_)) => sym::check(false, "goto definition finds the declaration"),
        (Some((f, r)), None) => sym::check(p.tolerated(i, f, usize::from(r.start())), "goto definition finds nothing for an undeclared name"),
    }
    sym::cover(p.cover);
    sym::observe(&[i as u8, want.map(|j| j as u8).unwrap_or(255)]);
}

/// A declaration the hole `i` can mean.
fn declaration(p: &Prog, i: usize) -> Option<usize> {
    let mut i = i;
    loop {
        match &p.holes[i] {
            Hole::Decl => return Some(i),
            Hole::Same(j) => i = *j,
            Hole::Alias(_) | Hole::Both(..) => return None,
            Hole::Use(c, _) => i = if c.len() < 2 { *c.first()? } else { c[sym::choose(c.len() as u64, "declaration") as usize] },
        }
    }
}

/// Find-references on the declaration of a hole, or on the hole itself, gives exactly the uses of that declaration.
fn references(progs: &[T]) {
    let mut w = World::new(3);
    let (p, i) = program(&mut w, progs);
    let Some(mut d) = declaration(&p, i) else { return };
    if p.label[i] {
        return; // labels
    }
    // what follows a wrong name in an import or a chain of calls has no meaning either
    let stray = sym::param("stray", 0) == 0 && p.meaning(i).is_none();
    if stray {
        return;
    }
    let mut q = d;
    if q != i && matches!(p.holes[i], Hole::Use(..)) && sym::choose(2, "from") == 1 {
        match p.meaning(i) {
            Some(m) if p.names[m] == p.names[i] => (q, d) = (i, m),
            _ => return,
        }
    }
    let r = w.an().find_all_refs(pos(p.file[q], p.at[q]), None).unwrap();
    let mut got: Vec<(u32, TextRange)> = vec![];
    if let Some(r) = &r {
        let n = r.declaration.as_ref().map(|n| (n.file_id.index(), n.focus_or_full_range()));
        sym::check(n == Some((p.file[d], p.range(d))), "the declaration is found");
        for (f, rs) in &r.references {
            got.extend(rs.iter().map(|r| (f.index(), *r)));
        }
    } else {
        sym::check(false, "the declaration is found");
    }
    if !cfg!(symex) {
        sym::note(&format!("queried {} declaration {:?} got {:?}", p.at[q], p.range(d), got));
    }
    let mut n = 0;
    for j in 0..p.holes.len() {
        if j != d && p.refers(j, d) {
            n += 1;
            sym::check(got.contains(&(p.file[j], p.range(j))), "every use of a declaration is among its references");
        }
    }
    sym::check(n == got.len(), "references are uses of the declaration");
    sym::cover(p.cover);
    sym::cover(if n > 0 { "used" } else { "unused" });
    sym::observe(&[d as u8, n as u8]);
}

/// Renaming a declaration to a fresh name, asked for on it or on a use of it, edits it and its uses, and nothing else.
fn renames(progs: &[T]) {
    let mut w = World::new(3);
    let only = sym::param("prog", 999) as usize;
    let k = if only < 999 { only } else { sym::choose(progs.len() as u64, "program") as usize };
    let mut p = Prog::new(&progs[k], None);
    p.cover = COVERS[k];
    for (f, t) in p.files() {
        w.set(f, t);
    }
    let q = sym::choose(p.holes.len() as u64, "hole") as usize;
    let d = match p.holes[q] {
        Hole::Decl | Hole::Same(_) => q,
        Hole::Use(..) => match p.meaning(q) {
            Some(d) if p.names[d] == p.names[q] => d,
            _ => return,
        },
        Hole::Alias(_) => return,
        Hole::Both(_, v) => v,
    };
    if p.label[d] {
        return; // labels
    }
    let at = w.an().prepare_rename(pos(p.file[q], p.at[q])).unwrap();
    sym::check(at.is_ok_and(|it| it.range == p.range(q)), "the name under the cursor is offered for renaming");
    let r = w.an().rename(pos(p.file[q], p.at[q]), "zz").unwrap();
    let Ok(change) = r else {
        sym::check(false, "a declaration can be renamed");
        return;
    };
    let want = p.replaced(|j| {
        let old = || (p.names[j] as char).to_string();
        if j == d {
            // the variable of a shorthand pattern keeps the field's name
            return Some(if let Hole::Same(_) = p.holes[j] { old() + ": zz" } else { "zz".into() });
        }
        if !p.refers(j, d) {
            return None;
        }
        Some(match p.holes[j] {
            Hole::Same(_) => "zz: ".to_string() + &old(),
            Hole::Both(f, _) if f == d => "zz: ".to_string() + &old(),
            Hole::Both(..) => old() + ": zz",
            _ => "zz".into(),
        })
    });
    sym::check(change.file_system_edits.is_empty(), "no file is renamed");
    let mut same = true;
    for (k, (f, t)) in p.files().into_iter().enumerate() {
        let mut t = t.to_string();
        if let Some(e) = change.source_file_edits.get(&vfs::FileId::from_raw(f)) {
            e.apply(&mut t);
        }
        sym::note(&t);
        same &= t.len() == want[k].len() && t.as_bytes() == &want[k][..];
    }
    sym::check(same, "renaming changes the declaration and its uses and nothing else");
    sym::cover(p.cover);
    sym::observe(&[d as u8]);
}

/// A new name is accepted exactly when it is an identifier.
fn new_name() {
    let mut w = World::new(1);
    w.set(1, "module 0x1::m { fun foo() { foo() } }");
    let n = sym::choose(3, "form");
    let name = if n < 2 {
        sym::ascii(n as usize + 1, "name")
    } else {
        let k = sym::choose(reflex::WORDS.len() as u64, "word") as usize;
        let mut s = reflex::WORDS[k].0.as_bytes().to_vec();
        let at = sym::choose(s.len() as u64 + 1, "at") as usize;
        if at < s.len() {
            s[at] = sym::range(0, 127, "char") as u8;
        }
        unsafe { String::from_utf8_unchecked(s) }
    };
    sym::note(&name);
    let b = name.as_bytes();
    let mut ident = !(b'0'..=b'9').contains(&b[0]);
    for c in b {
        ident &= c.is_ascii_alphanumeric() | (*c == b'_');
    }
    if name == "_" {
        return;
    }
    ident &= !reflex::WORDS.iter().any(|w| w.0 == name);
    let r = w.an().rename(pos(1, 20), &name).unwrap();
    sym::check(r.is_ok() == ident, "a new name is accepted exactly when it is an identifier");
    sym::cover(if ident { "accepted" } else { "refused" });
    if let Ok(c) = r {
        let mut t = w.text(1);
        c.source_file_edits[&vfs::FileId::from_raw(1)].apply(&mut t);
        sym::check(t == format!("module 0x1::m {{ fun {name}() {{ {name}() }} }}"), "the new name replaces the old");
    }
    sym::observe(&[ident as u8]);
}

/// Diagnostics with a code, of all files.
fn diagnostics(w: &World, p: &Prog, code: &str) -> Vec<Diagnostic> {
    let config = DiagnosticsConfig::test_sample();
    let mut r = vec![];
    for (f, _) in p.files() {
        let ds = w.an().full_diagnostics(&config, AssistResolveStrategy::All, vfs::FileId::from_raw(f)).unwrap();
        for d in ds {
            if !cfg!(symex) {
                sym::note(&format!("{} {}:{:?} {}", d.code.as_str(), d.range.file_id.index(), d.range.range, d.message));
            }
            if d.code.as_str() == code {
                r.push(d);
            }
        }
    }
    r
}

/// A name is reported as unresolved exactly when it means nothing.
fn unresolved(progs: &[T], types: bool) {
    let mut w = World::new(3);
    let Some((p, i)) = free_use(&mut w, progs) else { return };
    let ds = diagnostics(&w, &p, "unresolved-reference");
    let mut hit = false;
    let stray = (0..p.holes.len()).any(|j| matches!(p.holes[j], Hole::Use(..)) && p.meaning(j).is_none());
    // another item or member than the one the template was written for: the rest need not be well-typed
    let stray = stray || types && matches!(&p.holes[i], Hole::Use(c, _) if c.is_empty() || p.meaning(i) != p.meaning(c[0]) && p.meaning(i) != Some(c[0]));
    for d in &ds {
        let (f, r) = (d.range.file_id.index(), d.range.range);
        let j = (0..p.holes.len()).find(|j| p.file[*j] == f && p.range(*j) == r);
        let Some(j) = j else {
            // what is asked of something unknown is unknown as well
            sym::check(stray, "only names that mean nothing are reported");
            continue;
        };
        hit |= i == j;
        if i != j && types && stray {
            continue;
        }
        sym::check(p.meaning(j).is_none(), "only names that mean nothing are reported");
    }
    let undefined = matches!(p.holes[i], Hole::Use(..)) && p.meaning(i).is_none();
    if undefined && !hit && !p.label[i] && !(p.texts[0][p.at[i] + 1] == b':' && p.texts[0][..p.at[i]].ends_with(b"S { ")) {
        let Hole::Use(_, others) = &p.holes[i] else { return };
        sym::check(others.iter().any(|&j| p.names[j] == p.names[i]), "a name that means nothing is reported");
    }
    sym::cover(if undefined { "undefined" } else { "defined" });
    sym::cover(p.cover);
    sym::observe(&[ds.len() as u8]);
}

/// A variable is reported as unused exactly when nothing uses it; the fix puts an underscore before its name.
fn unused(progs: &[T]) {
    let mut w = World::new(3);
    let Some((p, i)) = free_use(&mut w, progs) else { return };
    let k = p.template;
    let ds = diagnostics(&w, &p, "unused-variable");
    let mut n = 0;
    for j in 0..p.holes.len() {
        if !matches!(p.holes[j], Hole::Decl | Hole::Same(_)) || QUIET[k].contains(&j) {
            continue;
        }
        let used = (0..p.holes.len()).any(|u| u != j && p.refers(u, j));
        let d = ds.iter().find(|d| d.range.file_id.index() == p.file[j] && d.range.range == p.range(j));
        let Some(d) = d else {
            sym::check(used, "an unused variable is reported");
            continue;
        };
        sym::check(!used, "a used variable is not reported");
        n += 1;
        if matches!(p.holes[i], Hole::Use(..)) {
            continue;
        }
        let fix = d.fixes.as_ref().and_then(|f| f.first()).and_then(|f| f.source_change.as_ref());
        let Some(c) = fix else {
            sym::check(false, "an unused variable can be given an underscore");
            continue;
        };
        let mut t = w.text(p.file[j]);
        c.source_file_edits[&vfs::FileId::from_raw(p.file[j])].apply(&mut t);
        let want = p.replaced(|h| {
            let name = p.names[h] as char;
            (h == j).then(|| if let Hole::Same(_) = p.holes[h] { format!("{name}: _{name}") } else { format!("_{name}") })
        });
        sym::check(t.as_bytes() == &want[0][..], "the fix puts an underscore before the variable's name");
    }
    for d in &ds {
        let at = (0..p.holes.len()).find(|j| p.file[*j] == d.range.file_id.index() && p.range(*j) == d.range.range);
        sym::check(at.is_none_or(|j| matches!(p.holes[j], Hole::Decl | Hole::Same(_)) && !QUIET[k].contains(&j)), "only variables are reported as unused");
    }
    sym::cover(p.cover);
    sym::cover(if n > 0 { "unused" } else { "all used" });
    sym::observe(&[n as u8]);
}

/// Is a hole in something that is compiled for tests only?
fn in_test(p: &Prog, j: usize) -> bool {
    let Some((_, t)) = p.files().into_iter().find(|t| t.0 == p.file[j]) else { return false };
    let t = &t.as_bytes()[..p.at[j]];
    let mut start = 0;
    for k in 0..t.len() {
        let ends = |s: &[u8]| t[..=k].ends_with(s);
        if t[k] == b'}' || t[k] == b';' || ends(b"module 0x1::m {") || ends(b"script {") {
            start = k + 1;
        }
    }
    let item = &t[start..];
    (0..item.len()).any(|k| item[k..].starts_with(b"#[test"))
        || (0..t.len()).rev().find(|&k| t[k..].starts_with(b"fun ")).is_some_and(|k| t[..k].trim_ascii_end().ends_with(b"#[test]") || t[..k].trim_ascii_end().ends_with(b"#[test_only]") || t[..k].trim_ascii_end().ends_with(b")]")) && !(0..item.len()).any(|k| item[k..].starts_with(b"use "))
}

/// An import is reported as unused exactly when no name is found through it; removing it leaves the other names' meaning.
fn imports(progs: &[T]) {
    let mut w = World::new(3);
    let Some((p, _)) = free_use(&mut w, progs) else { return };
    let holes = 0..p.holes.len();
    if holes.clone().any(|j| p.is_import(j) && matches!(p.holes[j], Hole::Use(..)) && p.meaning(j).is_none()) {
        return;
    }
    let ds = diagnostics(&w, &p, "unused-import");
    let over = |ds: &[Diagnostic], j: usize| ds.iter().any(|d| d.range.file_id.index() == p.file[j] && d.range.range.contains_range(p.range(j)));
    let broad = diagnostics(&w, &p, "too-broad-scoped-import");
    let mut kept = 0;
    for j in holes.clone() {
        if !p.is_import(j) {
            continue;
        }
        let used = holes.clone().any(|i| p.through(i) == Some(j));
        let named = holes.clone().any(|i| i > j && !p.is_import(i) && p.names[i] == p.names[j]);
        sym::check(!(used && over(&ds, j)), "an import that is used is not reported");
        sym::check(used || named || over(&ds, j), "an unused import is reported");
        let in_main = holes.clone().any(|i| p.through(i) == Some(j) && !in_test(&p, i));
        sym::check(over(&broad, j) == (used && !in_main && !in_test(&p, j)), "an import is reported as wider than needed exactly when only tests use it");
        kept += used as usize;
        sym::cover(if used { "used" } else { "unused" });
    }
    sym::cover(p.cover);
    sym::observe(&[ds.len() as u8, kept as u8]);
}

/// Where the text that is neither space nor part of an import is.
fn outside_imports(t: &[u8]) -> Vec<usize> {
    let mut r = vec![];
    let mut i = 0;
    while i < t.len() {
        let attr: &[u8] = b"#[test_only]";
        let mut j = i + if t[i..].starts_with(attr) { attr.len() } else { 0 };
        while j < t.len() && t[j] <= b' ' {
            j += 1;
        }
        if t[j..].starts_with(b"use ") {
            while t[i] != b';' {
                i += 1;
            }
        } else if t[i] > b' ' {
            r.push(i);
        }
        i += 1;
    }
    r
}

/// Organizing imports leaves no unused import, and every other name its meaning.
fn organized(progs: &[T]) {
    let mut w = World::new(3);
    let (p, i) = program(&mut w, progs);
    let before: Vec<_> = p.files().iter().map(|(f, t)| (*f, outside_imports(t.as_bytes()))).collect();
    let rank = |j: usize| before.iter().find(|b| b.0 == p.file[j]).and_then(|b| b.1.iter().position(|&x| x == p.at[j]));
    if (0..p.holes.len()).any(|j| rank(j).is_none() && p.meaning(j).is_none()) {
        return;
    }
    if rank(i).is_none() || !matches!(p.holes[i], Hole::Use(..)) {
        return;
    }
    let mut edits = vec![];
    for (f, _) in p.files() {
        let file = vfs::FileId::from_raw(f);
        if let Some(e) = w.an().organize_imports(file).unwrap().and_then(|a| a.source_change).and_then(|c| c.source_file_edits.get(&file).cloned()) {
            edits.push((f, e));
        }
    }
    for (f, e) in &edits {
        let mut t = w.text(*f);
        e.apply(&mut t);
        w.set(*f, &t);
    }
    let place = |j: usize| (p.file[j], rank(j).and_then(|k| outside_imports(w.text(p.file[j]).as_bytes()).get(k).copied()).unwrap_or(usize::MAX));
    for (f, b) in &before {
        sym::check(b.len() == outside_imports(w.text(*f).as_bytes()).len(), "only imports are changed");
    }
    let from = place(i);
    let to = p.meaning(i).filter(|&d| rank(d).is_some()).map(|d| place(d));
    let free = to.is_none() && p.meaning(i).is_some();
    sym::cover(if edits.is_empty() { "as it was" } else { "organized" });
    if !free {
        let r = goto(&w.an(), pos(from.0, from.1)).map(|(f, r)| (f, usize::from(r.start())));
        sym::check(r == to, "a name keeps its meaning when imports are organized");
    }
    let config = DiagnosticsConfig::test_sample();
    for (f, _) in p.files() {
        let file = vfs::FileId::from_raw(f);
        for d in w.an().full_diagnostics(&config, AssistResolveStrategy::None, file).unwrap() {
            sym::check(d.code.as_str() != "unused-import", "no unused import is left");
            sym::check(d.code.as_str() != "too-broad-scoped-import", "no import is left outside of the tests using it");
            sym::check(d.code.as_str() != "syntax-error", "the organized file is well-formed");
        }
    }
    sym::cover(p.cover);
    sym::observe(&[edits.len() as u8]);
}

/// A type error is reported exactly when two types that must agree do not.
fn typed(progs: &[T]) {
    let mut w = World::new(3);
    let Some((p, _)) = free_use(&mut w, progs) else { return };
    let ds = diagnostics(&w, &p, "type-error");
    let groups = AGREE[p.template];
    // nothing is known of an unknown type
    let unknown = groups.iter().any(|g| g.iter().any(|&j| p.meaning(j).is_none()));
    let wrong = |g: &[usize]| g.iter().any(|&j| p.names[j] != p.names[g[0]]);
    let bad = !unknown && groups.iter().any(|g| wrong(g));
    sym::check(bad || ds.is_empty(), "types that agree are not reported");
    sym::check(!bad || !ds.is_empty(), "types that do not agree are reported");
    sym::cover(if bad { "wrong" } else { "right" });
    sym::cover(p.cover);
    sym::observe(&[ds.len() as u8]);
}

sym::harnesses! {
fn C29() {
    typed(TYPED);
}
fn C28() {
    organized(IMPORTS);
}
fn C25() {
    unresolved(LOCALS, false);
}
fn C25i() {
    unresolved(ITEMS, true);
}
fn C25m() {
    unresolved(MEMBERS, true);
}
fn C26() {
    unused(LOCALS);
}
fn C27() {
    imports(IMPORTS);
}
fn C24() {
    renames(LOCALS);
}
fn C24i() {
    renames(ITEMS);
}
fn C24m() {
    renames(&MEMBERS[..10]);
}
fn C24n() {
    new_name();
}
fn C24s() {
    renames(SHORTHANDS);
}
fn C20() {
    resolves(LOCALS);
}
fn C21() {
    resolves(ITEMS);
}
fn C22() {
    resolves(MEMBERS);
}
fn C23() {
    references(LOCALS);
}
fn C23i() {
    references(ITEMS);
}
fn C23m() {
    references(&[MEMBERS[0], MEMBERS[1], MEMBERS[9]]);
}
}
