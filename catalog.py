"""The properties (source of properties.jsonl and, with props.py, of MANIFEST.json; run gen.py)."""

LS = "crates/aptos-language-server/src/"
SY = "crates/syntax/src/"
DB = "crates/ide-db/src/"
LANG = "crates/lang/src/"


def P(id, title, statement, over, text, why, files, mech, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    return d, na


PROPS = [
    P("C01", "CRLF normalization is exact",
      "Loading a text replaces every CRLF by LF and changes nothing else, whatever the text: lone CR, lone LF, CRs before a CRLF and CRLF at either end included. The line-ending flag returned with it says CRLF exactly when at least one CRLF was replaced.",
      ["inputs"], "every well-formed UTF-8 text", "Four fixed strings are tested; the in-place gap-shifting copy can go wrong only at particular positions and adjacencies of CR and LF.",
      ["crates/stdext/src/line_endings.rs"], [("LineEndings::normalize", "crates/stdext/src/line_endings.rs")]),
    P("C02", "Line endings survive load and save",
      "A text whose newlines are all CRLF, or which contains no CRLF, is unchanged byte for byte after being normalized on load and mapped back with the line endings recorded for it.",
      ["inputs"], "every well-formed UTF-8 text with one line-ending convention", "No test composes the two directions.",
      ["crates/stdext/src/line_endings.rs"], [("LineEndings::normalize", "crates/stdext/src/line_endings.rs"), ("LineEndings::map", "crates/stdext/src/line_endings.rs")]),
    P("C03", "The lexer is total and lossless",
      "Tokenizing any text terminates without panicking and yields non-empty tokens whose lengths sum to exactly the text's length, every boundary between tokens falling on a character boundary, so that the text is recovered by concatenating the tokens.",
      ["inputs"], "every text, non-ASCII characters, unterminated comments and strings included", "Corpus files sample a few dozen texts; slicing at a wrong byte or a miscounted length needs a particular adjacency of characters.",
      [SY + "parse/lexer.rs", SY + "parse/lexer/move_model.rs"], [("tokenize", SY + "parse/lexer.rs"), ("find_token", SY + "parse/lexer/move_model.rs")]),
    P("C04", "Tokens are classified by Move's lexical rules",
      "Over ASCII text without carriage returns, every token has the kind and the length Move's lexical rules give it: keywords only as whole words, longest-match punctuation (<, >, & and | stay single except before = in &= and |=), decimal and hexadecimal numbers with underscores and an optional integer-type suffix (u8..u256, i8..i256), hex and byte strings ended by a quote on the same line, nested block comments, line comments, labels, and a bad-character token for anything else.",
      ["inputs"], "every ASCII text", "Misclassification shows only at particular combinations of neighbouring characters.",
      [SY + "parse/lexer.rs", SY + "parse/lexer/move_model.rs"], [("find_token", SY + "parse/lexer/move_model.rs"), ("aptos_token_kind_to_syntax_kind", SY + "parse/lexer.rs")]),
    P("C05", "The parser is total and its tree is lossless",
      "Parsing any token sequence, however malformed or cut off, terminates without panicking; the tree's root is a source file, its text is exactly the text parsed, and every reported error range lies within the text.",
      ["inputs"], "every token sequence: any token of a program replaced, removed or added, the text cut off anywhere", "A panic or lost token needs a particular wrong token at a particular place of one production; the corpus has one file per production at best.",
      [SY + "parse.rs", SY + "parse/parser.rs", SY + "parse/grammar.rs", SY + "parse/grammar/expressions.rs", SY + "parse/grammar/specs/schemas.rs", SY + "parse/text_tree_sink.rs"],
      [("SourceFile::parse", SY + "lib.rs"), ("Parser", SY + "parse/parser.rs"), ("grammar", SY + "parse/grammar.rs"), ("TextTreeSink", SY + "parse/text_tree_sink.rs")]),
    P("C06", "Malformed input never parses silently",
      "A tree that contains an error node or a bad-character token always comes with at least one reported syntax error, and no placeholder kind (TOMBSTONE, EOF) ever appears in a tree.",
      ["inputs"], "every token sequence", "Only combinations of broken productions produce an error node without a message.",
      [SY + "parse/parser.rs", SY + "parse/event.rs", SY + "parse/text_tree_sink.rs"], [("error_and_bump", SY + "parse/parser.rs"), ("Marker::abandon", SY + "parse/parser.rs")]),
    P("C08", "Binary operators group by Move's precedence",
      "In any chain of binary operators and casts, operands group by Move's precedence, loosest first: ==> and <==>, then as, ||, &&, comparisons, |, ^, &, shifts, + and -, and *, / and %; operators of one level group to the left.",
      ["inputs"], "every sequence of the operators (chains where < and > would read as type arguments aside)", "There are thousands of three-operator chains; the corpus has a handful.",
      [SY + "parse/grammar/expressions.rs", SY + "ast/node_ext/bin_expr.rs"], [("expr_bp", SY + "parse/grammar/expressions.rs"), ("current_op", SY + "parse/grammar/expressions.rs")]),
    P("C09", "White space and comments do not change the parse",
      "A well-formed text parses without errors, and putting white space, newlines, line comments, doc comments or nested block comments between any two tokens separated by white space, or at either end, changes nothing in the tree but that trivia.",
      ["inputs"], "every production of the grammar and every place between its tokens", "The corpus never varies trivia.",
      [SY + "parse/text_token_source.rs", SY + "parse/text_tree_sink.rs", SY + "parse/parser.rs"], [("TextTokenSource", SY + "parse/text_token_source.rs"), ("TextTreeSink", SY + "parse/text_tree_sink.rs")]),
    P("C10", "A broken declaration does not swallow the next function",
      "When a declaration or a statement is incomplete or wrong, but its stray tokens contain no brace, opening parenthesis, `<` or `spec`, the function declared right after it (or after the body it stands in) is still in the tree.",
      ["inputs"], "any two stray tokens at the start of a module item, after const, fun, use, friend, in a const or use, in a function body, in a struct body", "Recovery depends on the exact stray token; tests sample a few.",
      [SY + "parse/grammar/items.rs", SY + "parse/grammar/expressions/blocks.rs", SY + "parse/parser.rs", SY + "parse/recovery_set.rs"],
      [("error_and_recover", SY + "parse/parser.rs"), ("RecoverySet", SY + "parse/recovery_set.rs"), ("item_list", SY + "parse/grammar/items.rs")]),
    P("C20", "Local names resolve lexically",
      "Goto definition on a use of a local name (variable, parameter, lambda or quantifier variable, loop label, type parameter, match-arm or pattern binding, `let` in a spec) goes to the declaration lexical scoping gives it: the innermost enclosing one, a later `let` of the same block shadowing an earlier one and not seen by its own initializer or by what precedes it, a variable shadowing a constant; nothing leaks out of its block, arm, lambda, quantifier or function. A name declared nowhere in scope has no definition.",
      ["inputs"], "every program: every assignment of equal or different names to the declarations and to the use", "Tests fix one set of names per program; a wrong scope shows only when particular names coincide.",
      [LANG + "nameres/resolve_scopes.rs", LANG + "nameres/blocks.rs", LANG + "nameres/scope_entries_owner.rs", LANG + "nameres/labels.rs", LANG + "nameres/path_resolution.rs"],
      [("process_block_stmts / get_entries_in_block", LANG + "nameres/blocks.rs"), ("get_entries_in_scope", LANG + "nameres/resolve_scopes.rs"), ("resolve_path", LANG + "nameres/path_resolution.rs"), ("goto_definition", "crates/ide/src/goto_definition.rs")]),
    P("C21", "Items, paths and imports resolve by Move's rules",
      "Goto definition on the name of a function, constant, struct, enum, variant, schema or module, alone or at the end of a path, goes to the item that name means there: one of the kind the place asks for, declared in the module itself, or in the module the path names (at the right address, in any file of the package), or brought in by a `use` of the module or of the enclosing block, under its alias where it has one. An import names the item it imports, and what is declared in another module and not imported is not found by its bare name.",
      ["inputs"], "every program: every assignment of equal or different names to items, aliases and uses", "Confusion of namespaces, addresses or aliases shows only when names coincide across modules or kinds.",
      [LANG + "nameres/path_resolution.rs", LANG + "nameres/path_kind.rs", LANG + "nameres/use_speck_entries.rs", LANG + "nameres/namespaces.rs", LANG + "nameres/scope.rs", LANG + "item_scope.rs"],
      [("resolve_path", LANG + "nameres/path_resolution.rs"), ("use_speck entries", LANG + "nameres/use_speck_entries.rs"), ("namespaces", LANG + "nameres/namespaces.rs")]),
    P("C22", "Fields and methods resolve through the receiver's type",
      "Goto definition on a field or a receiver-style function after a dot, or on a field of a struct literal or pattern, goes to that field or function of the type the expression before the dot has (references seen through; vector elements, type arguments and their instances followed; the types of calls, blocks, branches, match arms, lambdas, tuples, patterns, resources and specification expressions inferred), and finds nothing when that type has no such member.",
      ["inputs"], "every program: every assignment of equal or different names to the fields and methods of several types", "A wrongly inferred type shows only if another type's member has the looked-up name.",
      [LANG + "types/inference/ast_walker.rs", LANG + "types/inference.rs", LANG + "types/inference/combine_types.rs", LANG + "types/patterns.rs", LANG + "types/ty_db/path.rs", LANG + "types/substitution.rs"],
      [("infer_expr", LANG + "types/inference/ast_walker.rs"), ("combine_types", LANG + "types/inference/combine_types.rs"), ("collect_bindings", LANG + "types/patterns.rs")]),
    P("C23", "Find references gives exactly the uses",
      "Find references, asked for on a declaration (of a variable, parameter, type parameter, function, constant, struct, enum, variant, field, schema or module) or on any use of it, reports that declaration and exactly its uses under its own name: every one in every file of the package (bodies, specifications, specification files, imports, patterns, shorthand fields), and none of a different declaration of the same name.",
      ["inputs"], "every program: every assignment of equal or different names to its declarations and uses", "A missed or foreign reference shows only when names coincide across scopes, kinds, modules or files.",
      [DB + "search.rs", DB + "defs.rs", "crates/ide/src/references.rs"], [("FindUsages::search", DB + "search.rs"), ("SearchScope", DB + "search.rs"), ("NameRefClass / NameClass", DB + "defs.rs")]),
    P("C24", "Rename changes the declaration and its uses, and nothing else",
      "Renaming a variable, parameter, type parameter, function, constant, struct, enum, variant, field, schema or module, asked for on its declaration or any use, to a name not used in the program, offers the name under the cursor for editing and edits exactly the declaration and its uses in every file; a shorthand field or pattern is expanded, so that the other of the two names it stands for stays as it was. A new name is accepted exactly when it is an identifier and no keyword (`_` aside).",
      ["inputs"], "every program: every assignment of equal or different names to its declarations and uses; every short new name", "A rename that changes meaning needs names coinciding in particular places (shorthands, shadowing, other files).",
      [DB + "rename.rs", "crates/ide/src/rename.rs", DB + "search.rs"], [("source_edit_from_def / source_edit_from_references", DB + "rename.rs"), ("rename", "crates/ide/src/rename.rs")]),
    P("C11", "The server's copy of a document is the client's",
      "Whatever sequence of opening, incremental or whole-document changes (several in one notification included), closing and reopening the client reports, with positions counted in UTF-8, UTF-16 or UTF-32 units as negotiated, the text the server keeps for the file and analyses is the client's text (with CRLF normalized to LF, and the line endings recorded), its version is the last one sent, and every position maps to the same place and back.",
      ["inputs", "histories"], "every document, every sequence of changes, every position, every encoding", "Positions go wrong at particular combinations of multi-byte characters, line ends, several changes in one notification and several notifications before the next analysis.",
      [LS + "lsp/utils.rs", LS + "handlers/notification.rs", LS + "lsp/from_proto.rs", LS + "lsp/to_proto.rs", LS + "line_index.rs", LS + "opened_files.rs"],
      [("apply_document_changes", LS + "lsp/utils.rs"), ("handle_did_change_text_document", LS + "handlers/notification.rs"), ("from_proto::offset", LS + "lsp/from_proto.rs"), ("to_proto::lsp_position", LS + "lsp/to_proto.rs")]),
    P("C12", "Semantic tokens color the highlighted places",
      "Decoding the semantic tokens sent to the client (relative positions, lengths in the negotiated encoding, one token per line) gives exactly the ranges that were highlighted, line by line, each with the type of its highlight according to the announced legend; and the edits sent instead of a full answer turn the tokens the client has into the new ones.",
      ["inputs"], "every document, every set of disjoint highlighted ranges, every two token lists", "An offset counted in bytes or relative to the wrong token shows only for particular combinations of multi-line ranges, wide characters and several tokens on a line.",
      [LS + "lsp/to_proto.rs", LS + "lsp/semantic_tokens.rs"], [("semantic_tokens", LS + "lsp/to_proto.rs"), ("SemanticTokensBuilder", LS + "lsp/semantic_tokens.rs"), ("diff_tokens", LS + "lsp/semantic_tokens.rs")]),
    P("C13", "Edits do to the client's document what they do to the server's text",
      "A text edit built from disjoint changes (in one builder, in any order, or as the union of several edits) applies to the server's text as the changes one by one from the end; and sent to the client, in its encoding and with its line endings, changes the client's document in the same way.",
      ["inputs"], "every document, every set of disjoint changes", "A wrong shift or order shows only with several changes of different lengths at particular distances.",
      ["crates/ide-db/src/text_edit.rs", LS + "lsp/to_proto.rs"], [("TextEdit::apply", "crates/ide-db/src/text_edit.rs"), ("TextEdit::union", "crates/ide-db/src/text_edit.rs"), ("text_edit_vec", LS + "lsp/to_proto.rs")]),
    P("C25", "Exactly the names that mean nothing are reported as unresolved",
      "A name (of a variable, function, type, module, field, method, variant, constant, schema, spec function or import) is reported as an unresolved reference exactly when the scoping rules of Move give it no meaning; what is asked of something unknown need not be reported.",
      ["inputs"], "every program: every assignment of equal or different names to its declarations and uses", "A missing or wrong report needs names coinciding or differing in particular scopes and kinds of name.",
      ["crates/ide-diagnostics/src/handlers/unresolved_reference.rs", LANG + "nameres.rs"], [("find_unresolved_references", "crates/ide-diagnostics/src/handlers/unresolved_reference.rs")]),
    P("C26", "Exactly the unused variables are reported",
      "A variable, parameter or binding is reported as unused exactly when no name in the program means it and it is neither `_` nor begins with an underscore (declarations the feature leaves out, as the parameters of specification functions and of functions without a body, aside); the offered fix puts an underscore before that name, writing a shorthand pattern out, and changes nothing else.",
      ["inputs"], "every program: every assignment of equal or different names to its declarations and uses", "A wrong report needs shadowing or a use in an unusual place (a nested block, a specification, a lambda, a shorthand).",
      ["crates/ide-diagnostics/src/handlers/unused_variables.rs", "crates/syntax/src/ast/syntax_factory/exprs.rs"], [("check_unused_ident_pat", "crates/ide-diagnostics/src/handlers/unused_variables.rs")]),
    P("C27", "Exactly the unused imports are reported",
      "In a program whose imports all resolve, an imported name is reported as unused exactly when no other name of the program is found through that import, and as wider than needed exactly when it is found only from code compiled for tests: modules, items, `Self`, aliases, groups, imports inside functions, in scripts and specification files, test-only imports included.",
      ["inputs"], "every program: every assignment of equal or different names to its imports and uses", "A wrong report needs names coinciding across imports, kinds, scopes or files.",
      ["crates/ide-diagnostics/src/handlers/unused_import.rs", "crates/ide-diagnostics/src/handlers/unused_import/use_items.rs"], [("find_unused_imports", "crates/ide-diagnostics/src/handlers/unused_import.rs"), ("find_use_items_hit_with_scopes", "crates/ide-diagnostics/src/handlers/unused_import/use_items.rs")]),
    P("C28", "Organizing imports removes the unused ones and keeps every meaning",
      "Organizing the imports of a file changes nothing but its imports, leaves the file well-formed, leaves no unused or too widely scoped import in it, and leaves every other name in every file its meaning.",
      ["inputs"], "every program: every assignment of equal or different names to its imports and uses", "Removing one of several imports of a group or alias, or narrowing an import's scope, changes meaning only for particular combinations of used and unused names.",
      ["crates/ide-diagnostics/src/handlers/unused_import.rs", "crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs", "crates/ide-diagnostics/src/handlers/reduced_scope_import.rs"], [("organize_imports_in_file", "crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs"), ("find_unused_imports", "crates/ide-diagnostics/src/handlers/unused_import.rs")]),
    P("C29", "Type errors are reported exactly where types disagree",
      "In a program whose types are all known, a type error is reported exactly when two types that must agree are different: initializers, assignments, results, arguments of calls and methods, fields of literals and patterns, branches, vector elements, references and dereferences, comparisons, global storage, tuples, functions as arguments, explicit and inferred type arguments. Nothing is reported where a type is unknown.",
      ["inputs"], "every program: every assignment of equal or different types to its declarations", "Inference goes wrong for particular combinations of generics, references and expected types, with types that differ.",
      [LANG + "types/inference/ast_walker.rs", LANG + "types/inference/combine_types.rs", "crates/ide-diagnostics/src/handlers/type_checking.rs"], [("infer_expr", LANG + "types/inference/ast_walker.rs"), ("combine_types", LANG + "types/inference/combine_types.rs"), ("type_check", "crates/ide-diagnostics/src/handlers/type_checking.rs")]),
]
