"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "A TOML document is accepted iff TOML allows it, and yields its tree",
     "Reading a document made of table headers, array-of-tables headers, dotted keys, inline tables and arrays "
     "succeeds exactly when the TOML specification allows that sequence of definitions, however keys are quoted and "
     "lines are spaced. When it succeeds, the resulting tree of tables, arrays and values is the one TOML prescribes; "
     "in particular every header or dotted key below an array of tables lands in its most recent element. "
     "The parser/deserializer and the linter give the same verdict.",
     ["inputs"], "every sequence of definition lines (all orders, repetitions, depths)",
     "Tests hold a few hundred fixed documents; the rules are about every order in which tables can be opened, "
     "reopened and extended, which is combinatorial.",
     ["crates/tombi-document-tree/src/value/table.rs", "crates/tombi-document-tree/src/value/array.rs",
      "crates/tombi-document-tree/src/root.rs", "crates/tombi-ast/src/impls/table.rs",
      "crates/tombi-ast/src/impls/array_of_table.rs", "crates/tombi-parser/src"],
     [("Table::merge / Table::insert, table kinds", "crates/tombi-document-tree/src/value/table.rs"),
      ("parent array-of-tables search", "crates/tombi-ast/src/impls/table.rs"),
      ("Array::merge", "crates/tombi-document-tree/src/value/array.rs")],
     [("TableKind", "how a table was defined so far", "crates/tombi-document-tree/src/value/table.rs")],
     ["serde_tombi::from_str_async", "tombi_linter::Linter::lint", "tombi_document::Document"])

prop("C02", "Every scalar literal is accepted iff TOML allows it, with TOML's value",
     "An integer, float, boolean, date, time or string literal is accepted exactly when the TOML version in force "
     "allows it, and then has the type and the value the TOML specification gives it. Literals that are only in "
     "TOML v1.1.0 (\\e and \\x escapes, times without seconds, inline tables over several lines) are rejected under v1.0.0.",
     ["inputs"], "every literal over the alphabet of its grammar, under both TOML versions",
     "Tests check sample literals; boundaries (leading zeros, underscores, signs, ranges, calendar, escapes) are products "
     "of choices.",
     ["crates/tombi-lexer/src", "crates/tombi-toml-text/src", "crates/tombi-document-tree/src/value",
      "crates/tombi-date-time/src"],
     [("lexer number/date/string rules", "crates/tombi-lexer/src/lib.rs"),
      ("literal conversion", "crates/tombi-toml-text/src")],
     observe=["tombi_document::Value", "serde_tombi::from_str_async"])

prop("C03", "Parsing any text is total and keeps every character",
     "Parsing never panics or hangs, whatever the text. The syntax tree reproduces the text exactly: its tokens, in order, "
     "are consecutive and cover the whole input, and every node's range covers exactly its own text. Exactly the texts that the "
     "grammar of the TOML version in force derives are accepted (what only v1.1.0 allows inside braces is refused by the "
     "linter), every other text is reported as such, and however deep values, dotted keys or headers nest, an answer "
     "comes in time.",
     ["inputs"], "every text: every sequence of tokens and token fragments, complete or broken off anywhere",
     "Tests parse chosen snippets; recovery has to work for every broken prefix and mixture.",
     ["crates/tombi-lexer/src", "crates/tombi-parser/src", "crates/tombi-rg-tree/src", "crates/tombi-text/src"],
     [("event based parser and lossless tree builder", "crates/tombi-parser/src"),
      ("green tree", "crates/tombi-rg-tree/src/green")],
     observe=["tombi_parser::parse(..).syntax_node()"])

prop("C04", "Formatting never changes what a document means",
     "Formatting a valid document yields a document with the same data: the same keys, the same values and types, and the "
     "same order of array elements and of arrays of tables, for every combination of format options, TOML version and "
     "line ending. Items move only where the schema or a comment directive asks for an order, or to bring together the "
     "tables, or the dotted keys, of one parent.",
     ["inputs", "configurations"], "every valid document and every combination of format options",
     "Tests compare fixed input/output pairs under mostly default options.",
     ["crates/tombi-formatter/src", "crates/tombi-ast-editor/src"],
     [("Format impls", "crates/tombi-formatter/src/format"), ("ast editor", "crates/tombi-ast-editor/src")],
     observe=["tombi_formatter::Formatter::format", "tombi format"])

prop("C05", "Formatting never loses, duplicates or reattaches a comment",
     "Every comment of a valid document is in the formatted document exactly once, and no comment appears that was not "
     "there. A comment keeps its place relative to the item it belongs to: a leading comment stays above its item, a "
     "trailing comment stays on its line, a dangling comment stays between the same items in the same container.",
     ["inputs", "configurations"], "every placement of comments in every kind of container",
     "Comment placement is a product of positions, containers and blank lines; tests hold samples.",
     ["crates/tombi-formatter/src", "crates/tombi-ast/src", "crates/tombi-ast-editor/src", "crates/tombi-parser/src"],
     [("leading/trailing/dangling comment collection", "crates/tombi-ast/src/impls")],
     observe=["tombi_formatter::Formatter::format"])

prop("C06", "Formatting is idempotent and follows the configured style",
     "Formatting an already formatted document changes nothing, and the result of formatting is always a valid document "
     "without syntax errors. The output uses the configured line ending everywhere outside multi-line strings, ends with "
     "exactly one line ending unless empty, and a document that is invalid TOML syntax is refused rather than rewritten.",
     ["inputs", "configurations"], "every valid document and every combination of format options",
     "Idempotence is a relation over all documents; tests check it on samples under mostly default options.",
     ["crates/tombi-formatter/src", "crates/tombi-config/src/format.rs"],
     [("Format impls", "crates/tombi-formatter/src/format"),
      ("format definitions", "crates/tombi-formatter/src/formatter/definitions.rs")],
     observe=["tombi_formatter::Formatter::format", "tombi format --check"])

prop("C07", "Automatic sorting gives the documented order and moves whole items",
     "When a schema, a comment directive or a schema override asks for an order, keys, tables and array values come out in "
     "exactly that order within each group of items (groups are separated by blank lines), as a permutation of the input: "
     "each item moves with its leading and trailing comments and nothing crosses a group boundary. A directive wins over an "
     "override, and that over the schema; what stands at the root is about its keys and headers, not about the contents of "
     "tables. Dotted keys and tables of the same parent come together even when no order is asked for; otherwise the order "
     "is then unchanged. Sorting twice is the same as sorting once.",
     ["inputs", "configurations"], "every arrangement of items, comments and blank lines under every order",
     "Tests hold sample documents per order; the claim is about all permutations with comments.",
     ["crates/tombi-ast-editor/src", "crates/tombi-version-sort/src", "crates/tombi-x-keyword/src"],
     [("table keys order", "crates/tombi-ast-editor/src/rule"),
      ("version sort", "crates/tombi-version-sort/src")],
     observe=["tombi_formatter::Formatter::format"])

prop("C08", "Validation reports a document exactly when its JSON Schema rejects it",
     "For a document with an associated JSON Schema, linting reports at least one schema violation exactly when the "
     "document, read as JSON data, is not valid under that schema's keywords for its draft (07, 2019-09 or 2020-12), "
     "references and combinations of keywords included. Strict mode adds only that a schema that does not mention "
     "additionalProperties is read as if it said additionalProperties: false. (What stands beside $ref under draft-07 is "
     "not promised; the key of a dependent schema counts as evaluated.)",
     ["inputs", "configurations"], "every instance and every schema built from the supported keywords",
     "Keywords compose (combinators, references, conditionals, unevaluated*); tests hold a sample schema per keyword.",
     ["crates/tombi-validator/src", "crates/tombi-schema-store/src/schema"],
     [("keyword validation", "crates/tombi-validator/src/validate"),
      ("schema compilation", "crates/tombi-schema-store/src/schema")],
     observe=["tombi_linter::Linter::lint"])

prop("C09", "A lint suppression silences exactly the rule and place it names",
     "A comment directive that disables a rule removes exactly that rule's diagnostics of exactly the value or key that its "
     "comment belongs to: not those of values inside of it, of its neighbours or of other rules, and none appears for it but "
     "a remark on a directive that is useless or unknown (and that a value is deprecated, which is told only of what there "
     "is nothing else to tell of). A document-level disable silences the document; the rules on order and empty keys report "
     "exactly the tables and keys that are out of order or empty, at the level of the file's override, else of the "
     "configuration, else as a warning.",
     ["inputs", "configurations"], "every combination of violations, directives and their positions",
     "Tests check single directives on single violations.",
     ["crates/tombi-validator/src", "crates/tombi-linter/src", "crates/tombi-comment-directive/src"],
     [("comment directive lookup", "crates/tombi-validator/src/comment_directive.rs")],
     observe=["tombi_linter::Linter::lint"])

prop("C10", "The language server's documents equal the editor's after any message history",
     "After any history of open, change, save, close and file-watch notifications, however their handling overlaps, the "
     "server's text and version of every open document are those of the editor's last message for it, and requests are "
     "answered from that text. A closed document is not treated as open, and messages for one document never affect another.",
     ["schedules", "histories"], "every sequence of notifications for several documents and every interleaving of their handlers",
     "Tests drive single requests on one document, one at a time.",
     ["crates/tombi-lsp/src/backend.rs", "crates/tombi-lsp/src/document.rs", "crates/tombi-lsp/src/handler"],
     [("document_sources map and its lock", "crates/tombi-lsp/src/backend.rs"),
      ("did_open/did_change/did_close handlers", "crates/tombi-lsp/src/handler")],
     [("document_sources", "text and version per URI", "crates/tombi-lsp/src/backend.rs")],
     ["Backend handlers", "formatting response"])

prop("C11", "The last published diagnostics of an open document are those of its text",
     "Once the server is quiet, the diagnostics last published (or returned on request) for an open document are exactly "
     "those that linting the document's current text from scratch would give, with the document's current version. A "
     "closed document ends with the diagnostics of its file, or none if the file is gone, never with those of an older text.",
     ["schedules", "histories"], "every history of edits, saves, closes and requests",
     "Tests ask for diagnostics once per document.",
     ["crates/tombi-lsp/src/diagnostic.rs", "crates/tombi-lsp/src/handler/diagnostic.rs",
      "crates/tombi-lsp/src/handler/did_change.rs"],
     [("version-keyed diagnostic cache", "crates/tombi-lsp/src/backend.rs")],
     observe=["publishDiagnostics", "textDocument/diagnostic"])

prop("C12", "Positions and edits sent to the editor apply to the text the editor has",
     "For every text and every negotiated position encoding, converting a position to the editor's coordinates and back is "
     "the identity for every column, and positions follow the LSP definition for that encoding: the server agrees on the "
     "first offered encoding that it knows (UTF-16 if none was offered), and tells semantic tokens, symbols, links and "
     "diagnostics at the units where these are in the editor's text. Applying the edits of a formatting request "
     "to the editor's text gives exactly the formatted text.",
     ["inputs", "configurations"], "every text (multi-byte, combining, surrogate pairs, CRLF) and every encoding",
     "Tests use ASCII documents and a single encoding.",
     ["crates/tombi-text/src", "crates/tombi-lsp/src/handler/formatting.rs"],
     [("LineIndex, encoding conversions", "crates/tombi-text/src")],
     observe=["textDocument/formatting", "textDocument/semanticTokens/full", "textDocument/documentSymbol",
              "textDocument/documentLink", "textDocument/diagnostic", "textDocument/hover", "tombi_text::FromLsp/IntoLsp"])

prop("C13", "Schemas come from network or cache exactly as the cache options say",
     "A schema fetched once is served from the cache without network access until its time to live has passed, and then "
     "fetched again; without a time to live it never expires. With caching disabled every load goes to the network; "
     "offline, the network is never used. What the cache returns is what was fetched, and distinct URLs never share an entry.",
     ["histories", "fault_sequences", "configurations"], "every history of loads, clock advances, failures and refreshes per option set",
     "Tests load embedded schemas once.",
     ["crates/tombi-cache/src/lib.rs", "crates/tombi-schema-store/src/store.rs"],
     [("read_from_cache/save_to_cache", "crates/tombi-cache/src/lib.rs"),
      ("fetch path", "crates/tombi-schema-store/src/store.rs")],
     [("cache file", "bytes and modification time per URL", "crates/tombi-cache/src/lib.rs")],
     ["SchemaStore::try_get_document_schema", "HttpClient"])

prop("C14", "TOML version, schema and strictness follow the documented precedence",
     "The TOML version in force is that of the document directive, else the matching schema entry, else the schema, else "
     "the configuration, else v1.0.0. The schema of a document is that of its directive, else the first matching "
     "configured entry, else the catalog; strictness follows directive, sub-schema entry, root schema entry, global "
     "setting, in that order. In a running language server this stays so after every change of a configuration, a "
     "schema or the editor's settings, and associations (tombi/associateSchema) hold from then on: forced ones before, "
     "the others after everything configured.",
     ["configurations", "histories"], "every combination of sources being set, unset and contradicting, and every order of changes",
     "Tests set one source at a time.",
     ["crates/tombi-schema-store/src/store.rs", "crates/tombi-validator/src/comment_directive.rs",
      "rust/serde_tombi/src/de.rs", "crates/tombi-linter/src/linter.rs", "crates/tombi-formatter/src/formatter.rs"],
     [("resolve_source_schema_from_ast", "crates/tombi-schema-store/src/store.rs")],
     observe=["Linter::lint", "Formatter::format", "Deserializer::from_str_async"])

prop("C15", "The configuration used is the nearest valid one, in documented order",
     "From a starting directory the configuration is the first usable one of .tombi.toml, tombi.toml, .config/tombi.toml "
     "and pyproject.toml with a [tool.tombi] table, in that order, in the directory itself, then in each parent; failing "
     "that the user's and then the system's configuration, else the defaults. A pyproject.toml without that table is passed over.",
     ["configurations"], "every arrangement of configuration files over a directory chain",
     "Tests look at the repository's own configuration.",
     ["rust/serde_tombi/src/config.rs"], [("load_with_path_and_level", "rust/serde_tombi/src/config.rs")],
     observe=["serde_tombi::config::load_with_path"])

prop("C16", "The files processed are exactly those the patterns select",
     "Searching files from arguments and configuration processes exactly the TOML files below the given directories that match "
     "an include pattern and no exclude pattern (relative to the configuration's directory) and are not ignored, each once; "
     "files named explicitly are processed unless excluded. Version-control directories are never entered.",
     ["configurations", "inputs"], "every tree of files and every combination of patterns and arguments",
     "Tests use a handful of patterns.",
     ["crates/tombi-glob/src"], [("FileSearch", "crates/tombi-glob/src/lib.rs"), ("WalkDir", "crates/tombi-glob/src/walk_dir.rs")],
     observe=["tombi format/lint", "tombi_glob::FileSearch::new"])

prop("C17", "A batch run treats each file on its own and reports what it did",
     "Whatever mixture of formatted, unformatted, invalid, unreadable and unwritable files is given, each file ends either "
     "completely formatted or untouched, --check writes nothing, and one file's failure does not affect another. The exit code is "
     "non-zero exactly when some file failed (or, with --check, needs formatting; for lint, has errors or, with "
     "--error-on-warnings, warnings), and the counts in the summary are the true ones.",
     ["inputs", "fault_sequences", "schedules"], "every multiset of file states, flags and failing operations",
     "Tests run the command on single well-formed files.",
     ["rust/tombi-cli/src/app/command/format.rs", "rust/tombi-cli/src/app/command/lint.rs"],
     [("format task per file", "rust/tombi-cli/src/app/command/format.rs")],
     observe=["tombi format", "tombi lint"])

prop("C18", "Serializing and deserializing with serde_tombi is the identity",
     "Any value that serializes to TOML deserializes from that text to an equal value, and the text is valid TOML that "
     "tombi itself reads. Values TOML cannot express are refused with an error instead of being written wrongly.",
     ["inputs"], "every serde value tree",
     "Tests round-trip a few fixed structs.",
     ["rust/serde_tombi/src/ser.rs", "rust/serde_tombi/src/de.rs", "crates/tombi-document/src"],
     [("Serializer", "rust/serde_tombi/src/ser.rs")],
     observe=["serde_tombi::to_string_async", "serde_tombi::from_str_async"])

prop("C19", "Per-file overrides apply exactly to the files they name",
     "The format (lint) options of a file are those of the first override entry whose patterns match it, laid over the "
     "global options key by key, and otherwise the global ones; an override that disables formatting or linting makes the "
     "file be skipped. Overrides never affect files they do not match.",
     ["configurations"], "every list of overrides and every file",
     "Tests use one override.",
     ["crates/tombi-glob/src"], [("get_format_options/get_lint_options", "crates/tombi-glob/src")],
     observe=["tombi_glob::get_format_options", "tombi_glob::get_lint_options", "tombi format/lint"])

prop("C22", "Version and natural sort order is a total order",
     "Comparing version strings is a total order: reflexive, antisymmetric up to equal keys, transitive and total, and it "
     "orders numeric components by value rather than by digits. Sorting therefore gives the same result for every input "
     "permutation.",
     ["inputs"], "every pair and triple of strings",
     "Tests compare sample pairs.",
     ["crates/tombi-version-sort/src"], [("version_sort", "crates/tombi-version-sort/src/lib.rs")],
     observe=["tombi_version_sort::version_sort"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
