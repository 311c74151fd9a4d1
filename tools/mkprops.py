#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Parsing damaged stored text never crashes, hangs or stalls",
  "Whatever text survives on disk after crashes, torn, lost, short, reordered or bit-flipped writes, loading it returns a document or an error in both position-tracking modes. It never panics, aborts or overflows an arithmetic operation, and the work done is bounded by a small polynomial of the text length, provided braces and block comments nest less than 48 deep. A process that has met any number of such texts goes on loading intact ones.",
  ["inputs", "fault_sequences", "crash_points"],
  "every text up to a few KiB reachable by damaging an edit history of a KDL file, plus arbitrary Unicode text; nesting below 48",
  "The suite parses about 80 hand-written snippets, almost all intact; none is cut or damaged at an arbitrary byte, none measures work, and exponential behaviour needs a specific repeated opener.",
  ["src/grammar.rs", "src/errors.rs", "src/span.rs", "src/wrappers.rs"],
  [("backtracking combinators with error merging", "src/grammar.rs"), ("merge of candidate errors", "src/errors.rs: ParseError::merge"), ("span arithmetic with saturating_sub", "src/span.rs")],
  observe=["knuffel::parse_ast::<Span>", "knuffel::parse_ast::<LineSpan>", "allocation-step clock"])

p("C02", "Loading yields exactly what the surviving text means, or rejects it",
  "After any history of edits, saves, crashes, write faults and reloads of one file, loading it returns exactly the nodes, type names, arguments, last-written property values and children that the surviving text denotes under KDL 1.0 (slash-dashed elements absent, numbers with radix, sign and digits kept, strings with escapes resolved); text that is not a KDL 1.0 document is rejected. A load never returns anything left over from an earlier version, and a clean save followed by a load returns exactly what was saved.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every edit/save/crash/reload history of a KDL file on a faulty disk; text nested below 48",
  "Tests compare a few fixed snippets with hand-written values; they reach no mixed old/new content, no boundary between accepted and rejected text, and no sequence of reloads.",
  ["src/grammar.rs", "src/ast.rs", "src/wrappers.rs", "src/convert.rs"],
  [("KDL grammar", "src/grammar.rs: document, nodes, prop_or_arg, value, ident, string, number"), ("property map: last write wins", "src/grammar.rs: nodes"), ("numeric text conversion", "src/convert.rs: TryFrom<&Integer>, TryFrom<&Decimal>"), ("type-name interning", "src/ast.rs: TypeName, BuiltinType")],
  observe=["knuffel::parse_ast", "knuffel::ast::*", "TryFrom<&Integer>/<&Decimal>"])

p("C03", "Reported positions are exact and both position modes agree",
  "For every accepted text the position of each node, name, type name, value, property name and children block is exactly the byte range that element occupies, and with line tracking also its line and column (CR LF is one break; CR, LF, FF, NEL, LS and PS break lines; a tab is eight columns; other characters have their display width). The two modes accept the same texts, give the same values and the same byte ranges, and after a tear everything in front of the damaged node keeps its value and position.",
  ["inputs", "histories", "fault_sequences"],
  "every text produced by an edit history on a faulty disk, with every line-break kind, wide and zero-width characters",
  "Tests look at spans of a handful of ASCII snippets and at two LineSpan examples; exactness for every element, break kind and width is never checked.",
  ["src/span.rs", "src/grammar.rs", "src/traits.rs"],
  [("byte-offset tracker", "src/span.rs: OffsetTracker::next_span"), ("line tracker", "src/span.rs: LineTracker::next_span"), ("element spans", "src/grammar.rs: spanned")],
  observe=["Spanned::span()", "Span", "LineSpan"])

p("C04", "Damage is diagnosed at the damage, with the source attached",
  "When damaged text is rejected, the report holds at least one error, carries the file name and the exact text, and every label lies inside the text on character boundaries. Every error points into the first damaged top-level node or behind it, never at intact nodes in front of it, and at least one error reaches the point where the text stops being KDL or the bracket left open there. Text cut inside a string, raw string, block comment or children block is reported as unclosed, with a label on exactly the opening delimiter. An error that names the character, word or end of input it found points at exactly that.",
  ["inputs", "crash_points", "fault_sequences"],
  "every cut or damage point of every generated document, both position modes",
  "About 25 tests pin individual messages for fixed snippets; no test cuts a document at every byte or places damage behind intact nodes.",
  ["src/grammar.rs", "src/errors.rs", "src/span.rs", "src/wrappers.rs"],
  [("unclosed-construct reporting", "src/grammar.rs: map_err_with_span in ml_comment, raw_string, escaped_string, braced_nodes"), ("furthest-error merge", "src/errors.rs: merge"), ("label spans", "src/span.rs: at_start, before_start, at_end")],
  observe=["miette::Diagnostic::labels/related/source_code"])

p("C05", "Every error a decoder raises is reported exactly once, in order",
  "Whatever combination of user decoders returns an error or emits one into the context, at any call and in any order, the final report contains each raised error exactly once, in the order raised, with its own message and position. Decoding succeeds if and only if nothing at all was raised, by user code or by the library, and decoders that were not called raise nothing.",
  ["fault_sequences", "inputs", "programs"],
  "every fault script over the calls the library makes into user code (scalar, node, partial, string-parse, type-check and span decoders), for every annotated type shape in the catalogue",
  "Tests provoke one built-in error at a time; no test injects failures into decoders at arbitrary calls or combines emitted with returned errors.",
  ["src/decode.rs", "src/wrappers.rs", "src/containers.rs", "src/convert_ast.rs", "derive/src/node.rs", "derive/src/variants.rs"],
  [("error accumulation", "src/decode.rs: Context::emit_error, into_errors"), ("finalisation", "src/wrappers.rs: parse_with_context; src/decode.rs: node"), ("list recovery", "src/containers.rs: Vec<T>::decode_children"), ("derived propagation", "derive/src/node.rs")],
  state=[("Context.errors", "errors raised so far", "src/decode.rs")],
  observe=["knuffel::parse_with_context", "knuffel::decode::node", "Error::related"])

p("C06", "Typed reload gives the declared meaning of the annotations or every error",
  "For every type built from the documented annotations (argument(s), property/ies, child(ren), unwrap, flatten, str, bytes, default, node_name, type_name, span, enums, newtypes, options, collections), loading any surviving text gives exactly the value the annotations declare for it, or fails with exactly the errors that the text's mismatches call for, each located at the offending element. Absent, null, duplicate, unexpected and out-of-range elements follow the documented rules; no argument, property or child is silently dropped or defaulted (type names in front of flag nodes, unwrapped children and enum variants without named fields carry no meaning and are ignored).",
  ["programs", "inputs", "histories", "fault_sequences"],
  "a catalogue of hand-written and generated annotated types times every generated (and damaged) document, with user string parsers and scalars failing at arbitrary calls",
  "Derive tests feed one or two inputs to each annotation in isolation; combinations of annotations with duplicate, null, misplaced and damaged elements are not reached.",
  ["derive/src/node.rs", "derive/src/variants.rs", "derive/src/scalar.rs", "derive/src/definition.rs", "src/convert.rs", "src/containers.rs", "src/decode.rs"],
  [("generated decoders", "derive/src/node.rs: decode_args, decode_props, decode_children, insert_child, insert_property, unwrap_fn"), ("enum dispatch", "derive/src/variants.rs"), ("scalar enums", "derive/src/scalar.rs"), ("scalar conversion and type checks", "src/convert.rs"), ("bytes and flags", "src/decode.rs: bytes, check_flag_node")],
  observe=["knuffel::parse", "knuffel::parse_with_context", "knuffel::decode::node"])

p("C07", "One failing top-level node never hides, repeats or reorders its siblings",
  "When a document is decoded as a list of nodes, every top-level node is attempted exactly once and in document order, however many of the others fail. The errors reported are exactly the concatenation, in document order, of what each node reports when decoded alone; if none fails, the values are exactly those of the nodes decoded alone, in order.",
  ["fault_sequences", "inputs", "programs"],
  "every subset and order of failing nodes, failing by returned error, emitted error or both, for every node type in the catalogue",
  "One test has two failing nodes; arbitrary failure patterns mixing emitted and returned errors are not covered.",
  ["src/containers.rs", "src/decode.rs", "src/wrappers.rs"],
  [("per-node recovery", "src/containers.rs: Vec<T>::decode_children"), ("single-node decoding", "src/decode.rs: node")],
  observe=["knuffel::parse_with_context::<Vec<T>>", "knuffel::decode::node"])

p("C08", "The decoding context is a typed store private to one decode",
  "During a decode, reading a type from the context gives the value most recently set for exactly that type in the same decode (before it starts or by an earlier decoder), or nothing; values of other types, earlier, later, nested or concurrent decodes never show through. Whether errors were emitted can be observed at every point and is true exactly when one has been emitted in this decode.",
  ["histories", "schedules", "fault_sequences"],
  "every history of set/get/emit calls from setup and from decoders at every level, across sequential, nested and interleaved decodes",
  "One test sets one value and reads it back; no history of overwrites, several types, nested decodes or failing decodes is exercised.",
  ["src/decode.rs", "src/wrappers.rs"],
  [("type-indexed map", "src/decode.rs: Context::set, get"), ("fresh context per decode", "src/wrappers.rs: parse_with_context; src/decode.rs: node"), ("error flag", "src/decode.rs: has_errors")],
  state=[("Context.extensions", "values by type", "src/decode.rs"), ("Context.errors", "errors emitted in this decode", "src/decode.rs")],
  observe=["Context::set/get/has_errors", "parse_with_context"])

p("C09", "Loads are independent of interleaving, nesting and unwinding decoders",
  "Any number of loads running on different threads, started inside one another's decoders, or abandoned by a panicking decoder, produce for each load exactly the values, positions and errors it produces alone, under every interleaving. A load suspended at any point, or stalled inside a user decoder, never keeps the others from finishing, and after a panic or failure the next loads on the same thread behave as in a fresh process.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving (at allocation and decoder-call granularity) of up to four threads, each running a sequence of loads, re-entrant loads and panicking loads",
  "Every test runs one load to completion on one thread; no schedule, re-entrancy or unwinding is exercised.",
  ["src/wrappers.rs", "src/decode.rs", "src/grammar.rs", "src/errors.rs", "src/span.rs", "src/ast.rs", "derive/src/node.rs"],
  [("no shared mutable state; parser, tracker and context built per call", "src/wrappers.rs: parse_ast, parse_with_context"), ("Send + Sync error values", "src/errors.rs")],
  observe=["knuffel::parse_ast", "knuffel::parse_with_context", "cooperative scheduler at allocation points"])

p("C10", "A stored binary snapshot restores the same document, across releases",
  "Encoding any loaded document to CBOR and decoding it, from any mix of intermediate saves and restores, gives back a document identical in every name, type name, value, property, child and position, in both position modes. The byte format is fixed: snapshots written by the released version are read identically by later builds and the other way round, and fields unknown to a reader are skipped.",
  ["inputs", "histories", "configurations"],
  "every generated document, every chain of encode/store/decode steps, writer and reader of different versions (the released format is a hand-written reference encoder/decoder)",
  "No existing test exercises the binary format at all.",
  ["src/ast.rs", "src/span.rs"],
  [("field and variant indices", "src/ast.rs, src/span.rs: n(..) attributes"), ("type name codec", "src/ast.rs: mod cbor")],
  observe=["minicbor::Encode/Decode for ast::Document, Node, Value, Literal, TypeName, Span, LineSpan"])

p("C11", "Snapshot write and read faults are reported; a cut never yields a document",
  "When the sink fails after any number of bytes, encoding returns that failure and what reached the sink is a prefix of the full encoding. Decoding a snapshot cut at any point returns an error, and decoding one with flipped, lost, duplicated or stale bytes returns an error or a document, without panicking, without work or memory out of proportion to the bytes; a document decoded from intact bytes is unaffected by earlier failures.",
  ["fault_sequences", "crash_points", "inputs"],
  "every byte position of a sink failure, short write or cut; every generated corruption of every generated snapshot",
  "No existing test exercises the binary format or any sink failure.",
  ["src/ast.rs", "src/span.rs"],
  [("error propagation in the type-name codec", "src/ast.rs: mod cbor"), ("derived codecs", "src/ast.rs, src/span.rs")],
  observe=["minicbor::encode into a faulty writer", "minicbor::decode"])

p("C12", "Copies of a document decode like the document itself",
  "Decoding into document types (nodes, values, literals, spanned and boxed or shared wrappers, optional values) reproduces every element, value, type name and position of the source, with positions passed through the chosen span conversion. Decoding a typed value from such a copy, from a snapshot restored after a restart, or from a single node gives the same value or the same errors as decoding it from the original text.",
  ["inputs", "histories", "programs"],
  "every generated document, every chain of copy/snapshot/restore steps, every node type in the catalogue",
  "Two tests decode one AST node each; wrappers, conversions and chains of copies are not compared with the source.",
  ["src/convert_ast.rs", "src/containers.rs", "src/span.rs", "src/decode.rs", "src/traits.rs"],
  [("AST copies", "src/convert_ast.rs"), ("wrapper delegation", "src/containers.rs"), ("span conversion", "src/span.rs: clone_as, DecodeSpan")],
  observe=["Decode for Node/SpannedNode", "DecodeScalar for Value/Literal/Spanned/Box/Arc/Rc/Option", "knuffel::decode::node"])

p("C13", "A failing output sink never loses, garbles or panics an error report",
  "Displaying any parse or decode error, position or type name into a sink that fails after any number of bytes or writes returns the sink's failure; what was written is a prefix of the complete message. The same error can be displayed again afterwards, completely and identically, and rendering a full report never panics.",
  ["fault_sequences", "inputs"],
  "every failure point of the sink for every error produced by the simulated loads",
  "Tests format errors into growing strings only; no failing or short sink is used.",
  ["src/errors.rs", "src/span.rs", "src/ast.rs", "src/decode.rs"],
  [("Display implementations", "src/errors.rs: TokenFormat, FormatUnexpected, ExpectedType, ExpectedKind; src/span.rs: Span; src/ast.rs: TypeName; src/decode.rs: Kind")],
  observe=["fmt::Write sink", "Display for Error and every related error", "miette report handlers"])

p("C14", "Contradictory annotations are rejected when the user's crate is compiled",
  "A type whose annotations contradict one another (two modes on one field, fields after a catch-all, decode modes where none applies, unknown attributes) is rejected at compile time with an error at the offending attribute, and every consistent combination compiles.",
  ["programs"],
  "every annotated Rust type",
  "No compile-fail tests exist; the derive tests only contain valid types.",
  ["derive/src/definition.rs", "derive/src/lib.rs"],
  [("attribute parsing and conflict checks", "derive/src/definition.rs: StructBuilder::add_field, FieldAttrs::update")],
  observe=["rustc diagnostics"])

p("C15", "Optional features only add to what the library does",
  "Building without derive, base64, line-numbers or minicbor removes exactly that feature. Programs built with any of the sixteen sets of features that share files and snapshots agree on everything they can see: the same texts are accepted with the same values, positions and reports, the same decoders give the same values and errors, and snapshots written by one are read alike by all. When base64 is off, every base64-typed value is reported as unsupported, at the value, instead of being misread, and nothing else is.",
  ["configurations", "inputs", "fault_sequences"],
  "all sixteen feature combinations; every text, snapshot and script of decoder failures, damaged or not",
  "The suite runs with all features on only.",
  ["Cargo.toml", "src/lib.rs", "src/decode.rs", "src/span.rs", "src/ast.rs"],
  [("cfg gates", "src/decode.rs: bytes; src/span.rs; src/ast.rs; src/lib.rs")],
  observe=["build outcome", "decode::bytes", "parse_ast, parse, parse_with_context, decode::node and error reports of each build"])

p("C16", "Comparing reloads finds what changed, never what only moved",
  "Spanned names, type names and values, from one load or from different loads of a file's history and in either position mode, compare, order and hash exactly like the values they carry, whatever their positions. So a program that compares its configuration before and after a reload sees a change if and only if a value changed, sets and maps of spanned values gathered over many reloads merge, sort and look up like those of plain values, and a property is always found by its plain name.",
  ["histories", "inputs", "fault_sequences"],
  "every history of edits, moves, faults and reloads of a file; all pairs of spanned values out of its loads",
  "No test compares spanned values with different positions or from different loads.",
  ["src/span.rs", "src/ast.rs"],
  [("value-only Eq/Ord/Hash/Borrow", "src/span.rs: impls for Spanned"), ("property map keyed by spanned names", "src/ast.rs: Node::properties")],
  observe=["PartialEq/Ord/Hash/Borrow for Spanned", "Node::properties", "derived comparisons of decoded types"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
