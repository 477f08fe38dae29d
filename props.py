"""Properties and the harness runs that decide them."""

ASSUME_COMMON = [
    "LLVM IR produced by rustc nightly for riscv64gc (64-bit little-endian, generic non-SIMD code paths) at opt-level 2 followed by llvm-link and opt -O2 without vectorization; the x86-64 build shares the source, and sampled paths are replayed on it",
    "memory allocation never fails; hash maps use one fixed seed; no threads other than the harness",
]

PROPS = {
    "C01": dict(
        crates=["stdext"],
        bounds="every well-formed UTF-8 text of at most `len` - 1 bytes",
        harness=[dict(crate="h_stdext", entry="C01", params=dict(len=9), thorough=dict(len=12), covers=["crlf", "no crlf"])],
    ),
    "C02": dict(
        crates=["stdext"],
        bounds="every well-formed UTF-8 text of at most `len` - 1 bytes whose newlines are all CRLF, or none of them",
        harness=[dict(crate="h_stdext", entry="C02", params=dict(len=7), thorough=dict(len=9), covers=["dos", "unix"])],
    ),
}
TOK = ["under the engine the parser is handed token kinds directly (hook given_tokens); the lexer itself is decided by C03 and C04, and replays go through the real lexer",
       "stand-ins for rowan, text-size, drop_bomb and regex; the corpus binary checks them on the 124 files of the repository's parser corpus"]
MUT = "53 texts covering every production; at every token boundary of each, %s the text cut off there, the next token removed, or the next token replaced by any token (every kind the lexer produces, 43 words that are keywords somewhere)%s; thorough also inserts the token"
S = lambda e, **k: dict(crate="h_syntax", entry=e, **k)
PROPS.update({
    "C03": dict(crates=["syntax"], bounds="every text of at most `len` characters, each any ASCII character or one of `wide` multi-byte ones (2 to 4 bytes, combining, joining and regional-indicator characters), alone or after one of ten beginnings (unclosed comments, strings, numbers); after an opening beginning other than a comment one character less",
                harness=[S("C03", params=dict(len=3, wide=14), thorough=dict(len=4))], assume=TOK[1:]),
    "C04": dict(crates=["syntax"], bounds="every ASCII text (no CR) of `len` characters; of `len` - 1 characters after each of twelve beginnings; every keyword and every integer-type suffix (after five number beginnings) with any one character changed and any character after it",
                harness=[S("C04", params=dict(len=3), thorough=dict(len=4))], assume=TOK[1:]),
    "C05": dict(crates=["syntax"], bounds=MUT % ("", ", the text cut off after it as well") + "; and any two tokens (thorough: three) at four places", assume=TOK,
                harness=[S("C05", params=dict(n=1, cut=1), max_errors=60, thorough=dict(insert=1)), S("C05n", max_errors=60, params=dict(n=2), thorough=dict(n=3))]),
    "C06": dict(crates=["syntax"], bounds=MUT % ("", ""), assume=TOK, harness=[S("C06", params=dict(n=1), max_errors=60, thorough=dict(insert=1, cut=1), covers=["error node"])]),
    "C08": dict(crates=["syntax"], bounds="every chain of `ops` operators over 21 operators", assume=TOK[1:], harness=[S("C08", params=dict(ops=3), thorough=dict(ops=4))]),
    "C09": dict(crates=["syntax"], bounds="53 texts covering every production, every place between tokens separated by white space, seven kinds of trivia", assume=TOK[1:], harness=[S("C09")]),
    "C10": dict(crates=["syntax"], bounds="any `n` stray tokens at twelve places", assume=TOK, harness=[S("C10", params=dict(n=2), thorough=dict(n=3))]),
})
IDE = ["the incremental-computation framework (salsa), the virtual file system (vfs), line-index and the other third-party crates of the IDE are the stand-ins in harness/shims (salsa: memoized, revision-counted, single-threaded); the repository's own IDE tests are run against the stand-ins (fidelity/)",
       "programs are the listed templates with one-letter names; every declaration's name and the queried name are symbolic"]
IC = ["lang", "ide", "ide_db", "base_db", "syntax"]
I = lambda e, **k: dict(crate="h_ide", entry=e, **k)
LESS = "; quick leaves one letter fewer, thorough all"
ASYM = "; quick takes one of the namings that differ only in the letters used, thorough all of them"
pc = lambda n, *skip: ["program %d" % k for k in range(n) if k not in skip]
PROPS.update({
    "C20": dict(crates=IC, bounds="27 programs, every name in them one of 3 or 4 letters, every use of a name in them", assume=IDE, harness=[I("C20", covers=["defined", "undefined"] + pc(27))]),
    "C21": dict(crates=IC, bounds="19 programs of one to four modules in one or two files, every name in them one of 3 to 5 letters, every use of a name in them", assume=IDE, harness=[I("C21", covers=["defined", "undefined"] + pc(19))]),
    "C22": dict(crates=IC, bounds="17 programs, the names of the members of their types any of 3 or 4 letters, each of about 290 uses of members" + LESS, assume=IDE, harness=[I("C22", deep=16, params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["defined", "undefined"] + pc(17))]),
    "C23": dict(crates=IC, bounds="49 programs, every name in them one of 3 to 5 letters, find-references asked for on every declaration and every use" + LESS + " (labels aside, which the feature does not cover)", assume=IDE,
                harness=[I("C23", params=dict(less=1, stray=1), thorough=dict(less=0), covers=["used", "unused"] + pc(27, 6)), I("C23i", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["used", "unused"] + pc(19)), I("C23m", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["used"] + pc(3))]),
    "C24": dict(crates=IC, bounds="62 programs, every declaration's name in them one of 3 to 5 letters, renaming asked for on every declaration and every use" + LESS + " (labels aside, which the feature does not cover); new names: every ASCII text of one or two characters, every keyword with any one character replaced or as it is", assume=IDE,
                harness=[I("C24", params=dict(less=1), thorough=dict(less=0), covers=pc(26, 6)), I("C24i", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=pc(19)), I("C24m", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=pc(10)), I("C24s", params=dict(any=0), thorough=dict(any=1), covers=pc(6)), I("C24n", covers=["accepted", "refused"])]),
})
LSP = ["lsp-types, lsp-server, crossbeam-channel's users, vfs, salsa and line-index are the stand-ins in harness/shims; the server's state is reduced to what its document handlers use (harness/h_lsp/src/state.rs, config.rs); no file watcher, no threads"]
L = lambda e, **k: dict(crate="h_lsp", entry=e, **k)
LC = ["h_lsp::lsp", "h_lsp::handlers", "h_lsp::line_index", "h_lsp::opened_files", "ide_db", "stdext"]
EL = "letters, LF, a four-byte character, CRLF (with `kinds` 5 and 6 also a two-byte and a three-byte one)"
PROPS.update({
    "C11": dict(crates=LC, assume=LSP, bounds="documents of at most `len` elements (" + EL + ") in the three encodings; a notification of two changes, each of any range or the whole document, putting in at most `new` elements; `steps` notifications of opening, changing, closing, or analyses in between, then every position",
                harness=[L("C11", params=dict(len=2, new=1, changes=2, kinds=6), thorough=dict(len=3), covers=["whole document"]), L("C11s", params=dict(len=1, steps=3, kinds=3), thorough=dict(kinds=4), covers=["opened", "opened again", "changed", "analysed", "closed"])]),
    "C12": dict(crates=LC, assume=LSP, bounds="documents of `len` elements at most (" + EL + ") in the three encodings, `ranges` disjoint ranges with any of `tags` tags; lists of at most `tokens` tokens, any positions",
                harness=[L("C12", params=dict(len=3, ranges=2, tags=2, kinds=4), thorough=dict(tags=5, kinds=6), covers=["several lines", "two tokens"]), L("C12d", params=dict(tokens=5), thorough=dict(tokens=7), covers=["edited"])]),
    "C13": dict(crates=LC, assume=LSP, bounds="documents of at most `len` elements (" + EL + ") in the three encodings, two disjoint changes putting in at most `new` elements each, in either order, in a builder or as a union",
                harness=[L("C13", params=dict(len=2, new=1, changes=2, kinds=4), thorough=dict(len=3))]),
    "C25": dict(crates=IC + ["ide_diagnostics"], bounds="C20's and C21's programs and six (thorough: all) of C22's, their names and uses" + LESS, assume=IDE,
                harness=[I("C25", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["defined", "undefined"]), I("C25i", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["defined", "undefined"]), I("C25m", max_steps=400000000, params=dict(less=1, any=0, mask=66315), thorough=dict(less=0, mask=(1 << 17) - 1), covers=["defined", "undefined"])]),
    "C26": dict(crates=IC + ["ide_diagnostics"], bounds="27 programs, every name in them one of 3 or 4 letters" + LESS, assume=IDE,
                harness=[I("C26", params=dict(less=1, any=0), thorough=dict(less=0, any=1), covers=["unused", "all used"] + pc(27))]),
    "C27": dict(crates=IC + ["ide_diagnostics"], bounds="20 programs of one to four modules, scripts or specification files, every name in them one of 2 or 3 letters" + LESS, assume=IDE,
                harness=[I("C27", params=dict(any=0), thorough=dict(any=1), covers=["used", "unused"] + pc(20))]),
    "C28": dict(crates=IC + ["ide_diagnostics"], bounds="20 programs of one to four modules, scripts or specification files, every name in them one of 2 or 3 letters" + LESS, assume=IDE,
                harness=[I("C28", params=dict(any=0), thorough=dict(any=1), covers=["as it was", "organized"] + pc(20))]),
    "C29": dict(crates=IC + ["ide_diagnostics"], bounds="27 programs with two types, every name of a type one of 3 letters, any one of the types written in them another", assume=IDE,
                harness=[I("C29", params=dict(any=0), thorough=dict(any=1), covers=["right", "wrong"] + pc(27))]),
})
for _k, _p in PROPS.items():
    if any(h["params"].get("any") == 0 for h in _p["harness"] if "params" in h):
        _p["bounds"] += ASYM
