#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Generated Rust code round-trips every message of every schema",
"For every schema the compiler accepts and every value of every type in it, deserializing what the generated Rust code serialized succeeds, consumes the whole message and yields exactly the value the outgoing message converts into: every field intact, bit for bit (F64 including negative zero, infinities and NaN payloads), and choice fallbacks kept exactly where the reader may need them. The size the code predicts for a message is the number of bytes it writes.",
["programs","inputs"],"All accepted schemas (any mix of structs, choices, rules, nesting, imports between files, deleted indices, small and large field indices) times all values of their types.",
"The integration tests use one fixed set of schemas with a few dozen hand-written values; the generator is one big case split over (container, rule, type, array depth, local or imported, index size) of which they compile a single sample.",
["src/generate_rust.rs","README.md"],
[("per-type code for size computation (atlas), serialization and deserialization","src/generate_rust.rs: write_atlas_calculation, write_serialization_invocation, write_deserialization_invocation"),("conversion of outgoing to incoming messages","src/generate_rust.rs: write_into_invocation"),("field headers derived from the atlas","src/generate_rust.rs: write_field_header_* in the emitted prelude")],
[("atlas","the precomputed sizes of a message and its parts; must describe exactly what serialization writes","generated code: XAtlas")],
["bytes written by serialize","value returned by size","value returned by deserialize and bytes left in the reader"])

p("C02","Generated Rust code speaks the documented binary encoding",
"For every accepted schema and value, the bytes written by the generated Rust serializer are exactly the encoding the README specifies (bijective variable-width integers, ZigZag, size modes, omitted zero values, array layouts, fields in declaration order), and every message so encoded is decoded to that value. In particular names, declaration order, imports and file layout never influence which index, size mode or payload layout a field gets.",
["programs","inputs"],"All accepted schemas times all values, judged against an independent implementation of the README's encoding section.",
"The byte-level expectations in the repository are one recorded file of messages of one schema; a generator path that writes consistently wrong bytes and reads them back is invisible to round-trip tests.",
["src/generate_rust.rs","README.md"],
[("variable-width integer and field header routines in the emitted prelude","src/generate_rust.rs: generate"),("special behaviour of integer, Bool, F64 and [Unit] values in field position","src/generate_rust.rs: is_field handling in write_*_invocation")],
None,["bytes written by serialize","value returned by deserialize for independently encoded bytes"])

p("C03","Generated TypeScript round-trips and is byte-identical to the Rust encoding",
"For every accepted schema and value, the generated TypeScript code serializes to exactly the documented encoding (hence the same bytes as the Rust code), its size function returns the length of that message, and deserializing it, from any kind of buffer or view at any offset, yields the same value without throwing. Strings with any Unicode content, the full 64-bit integer ranges, and all non-NaN doubles survive exactly, and optional or asymmetric fields that were absent come back as undefined.",
["programs","inputs"],"All accepted schemas times all values (strings not starting with U+FEFF, see known findings), in Node, against an independent encoder and the generated Rust code.",
"No TypeScript test runs in the pinned suite at all beyond comparing generated text for one schema.",
["src/generate_typescript.rs","README.md"],
[("atlas/serialize/deserialize generators","src/generate_typescript.rs: write_atlas_calculation, write_serialization_invocation, write_deserialization_invocation"),("DataView based integer and header routines in the emitted prelude","src/generate_typescript.rs: generate")],
None,["ArrayBuffer returned by serialize","number returned by size","object returned by deserialize"])

p("C04","The documented schema changes are compatible in both directions",
"Between two versions of a schema related by changes the README calls safe, any number of them at once (renaming or reordering types and fields, moving each field by at most one step between optional, asymmetric and required, adding or removing optional or asymmetric fields and reserving removed indices, adding choice fields with fallbacks, changing a one-field struct into a choice or back), every message written with one version's generated code is read by the other's. Each field both versions know arrives unchanged, fields unknown to the reader are ignored, and a choice a reader does not know falls back to the first fallback it does know.",
["programs","histories","inputs"],"All histories of safe schema changes, all values, both directions, both target languages.",
"The repository's schema evolution tests cover one struct and one choice with single String fields per rule pair.",
["src/generate_rust.rs","src/generate_typescript.rs","README.md"],
[("unknown fields skipped by size mode","generated deserializers' default arm"),("asymmetric and optional fallback chains of choices","generated choice (de)serializers"),("field identity by index only","both generators")],
None,["value returned by one version's deserialize for the other version's bytes"])

p("C05","Decoders obey the documented rules on any well-formed message",
"For every accepted schema and every well-formed message, including ones no generated serializer would write (fields in any order, unknown fields of every size mode anywhere, non-minimal field representations such as an integer zero sent as a varint), deserialization in Rust and in TypeScript follows the README: unrecognized fields are ignored, a struct missing a required field is an error while missing optional and asymmetric fields are absent, and a choice takes the first field the reader recognizes or is an error if there is none. Nothing else about the message changes the decoded value.",
["programs","inputs"],"All accepted schemas times all well-formed field streams, at every nesting level, judged by an independent decoder of the README's rules. (A struct never carries the same recognized index twice: the README gives that no meaning.)",
"Unit and integration tests only ever feed decoders what the same generator's encoders wrote.",
["src/generate_rust.rs","src/generate_typescript.rs","README.md"],
[("required-field check after the field loop","generated struct deserializers"),("first recognized field wins and the rest of the message is consumed","generated choice deserializers"),("header decoding by size mode","deserialize_field_header / deserializeFieldHeader in the emitted preludes")],
None,["result of deserialize"])

p("C06","Decoders survive arbitrary bytes",
"For every accepted schema, deserializing any byte string terminates with a value or an error: generated Rust code never panics, overflows, aborts or loops, and generated TypeScript code never throws, loops or returns anything but a value of the declared type or an Error (apart from the memory taken by enormous [Unit] arrays, which the README warns of). A value that was accepted can be walked completely, and bytes rejected by one call never affect the next call.",
["programs","inputs"],"All accepted schemas times all byte strings, except the classes listed in known_findings.txt (truncated unknown fields, payload sizes beyond the message, [Unit] counts, very long fallback chains).",
"No test decodes malformed input.",
["src/generate_rust.rs","src/generate_typescript.rs","README.md"],
[("sub-readers limited to the payload size","generated Rust deserializers (Read::take)"),("DataView bounds and the catch in deserialize","generated TypeScript deserializers"),("wrapping arithmetic on 9-byte varints","deserialize_varint / deserializeVarint")],
None,["result of deserialize, panics, exceptions, progress of the reader, memory requested"])

p("C07","Rust (de)serialization is independent of I/O chunking and propagates I/O errors",
"The generated Rust code writes the same bytes through any writer, including one that accepts a few bytes at a time or reports interruptions, and reads the same value from any buffered reader, however the stream is cut into buffers. If the reader or writer fails at any point with an error other than interruption or end of file, the call returns that error instead of a value or a success.",
["programs","inputs","fault_sequences"],"All accepted schemas, messages, partitions of the stream into reads and writes, and all positions and kinds of injected I/O errors.",
"All tests use in-memory slices and vectors, which never deliver short reads, short writes, interruptions or errors.",
["src/generate_rust.rs"],
[("write_all for every write, read_exact / read_to_end / fill_buf for reads","emitted prelude and per-type code"),("skip and finish loops over fill_buf/consume","emitted prelude"),("only UnexpectedEof ends a struct's field loop","generated struct deserializers")],
None,["calls on an instrumented Read/BufRead/Write"])

p("C08","Generated Rust code has no undefined behaviour or arithmetic overflow",
"Whatever messages it builds, writes or reads, valid or malformed, code generated for any accepted schema never performs an invalid memory access, never exhibits undefined behaviour and never overflows in arithmetic.",
["programs","inputs"],"All accepted schemas, values and byte strings (same excluded classes as C06), under AddressSanitizer, Miri and overflow checks.",
"The emitted code contains unsafe transmutes and casts; no test runs under a sanitizer.",
["src/generate_rust.rs"],
[("transmute in zigzag_encode/zigzag_decode","emitted prelude"),("wrapping_add for the 9-byte varint","emitted prelude"),("usize conversions of sizes read from the wire","emitted prelude")],
None,["sanitizer and interpreter reports"])

p("C09","Every accepted schema yields Rust code that compiles and has the documented API",
"For every schema the compiler accepts, the single Rust file it generates compiles, and offers under the schema's module path, in Rust naming conventions, an In and an Out type for every declaration with exactly its fields: required fields plain, optional fields optional, asymmetric fields plain in Out but optional in In, choice variants carrying a fallback exactly where the documentation says. Names that are Rust keywords, names differing from what the generated code uses internally, empty declarations, circular imports between files and any directory layout are all fine.",
["programs"],"All accepted schemas whose file and directory names are usable as module names (see known findings for reserved module names).",
"One schema's output is compiled by the integration tests; names there are tame.",
["src/generate_rust.rs","src/identifier.rs"],
[("keyword escaping and case conversion","src/generate_rust.rs: write_identifier; src/identifier.rs"),("relative module paths between schemas","src/generate_rust.rs: write_supers, write_custom_type; src/schema.rs: relativize_namespace")],
None,["rustc's verdict on the generated file together with a client that names every type, field and variant"])

p("C10","Every accepted schema yields TypeScript that type-checks with the documented API",
"For every schema the compiler accepts, the single TypeScript file it generates type-checks under strict mode and exports, under the schema's namespace path in TypeScript naming conventions, In and Out types and size, serialize and deserialize functions for every declaration. Their shapes match the documentation: required fields mandatory, optional fields possibly undefined but not omissible in Out, asymmetric fields mandatory in Out and possibly undefined in In, choices discriminated by $field with $fallback exactly where documented and exhaustively matchable with unreachable.",
["programs"],"All accepted schemas whose file and directory names are usable as namespace names and do not shadow each other (see known findings).",
"The pinned suite never runs the TypeScript compiler.",
["src/generate_typescript.rs","src/identifier.rs"],
[("keyword escaping and case conversion","src/generate_typescript.rs: write_identifier"),("namespace paths between schemas","src/generate_typescript.rs: write_custom_type; src/schema.rs: relativize_namespace")],
None,["tsc --strict verdict on the generated file together with clients that must and must not type-check"])

p("C11","Generated code depends on nothing but the schema's meaning",
"The generated Rust and TypeScript are a deterministic function of the loaded schemas' meaning: comments, whitespace, line endings, spelling of names in another case convention, optional $ sigils, redundant ': Unit' types, order of imports, of deleted indices, import path spelling and alias choice, the working directory, whether paths are absolute, relative or through symbolic links, the output location and previous contents, which other outputs are requested, and repetition never change a byte. Conversely a change of a field's index, rule, type or (beyond case) name, or of a declaration's name or kind, always changes both outputs.",
["programs","configurations"],"All accepted multi-file schemas times all meaning-preserving rewritings and invocation variants, and all single meaning-changing edits.",
"Tests generate once from one spelling of one schema.",
["src/main.rs","src/schema_loader.rs","src/generate_rust.rs","src/generate_typescript.rs","src/parser.rs"],
[("ordered maps keyed by case-folded identifiers","src/schema.rs, src/identifier.rs"),("paths canonicalized before becoming namespaces","src/schema_loader.rs: load_schemas")],
None,["output files of typical generate"])

p("C12","Formatting never changes what a schema means",
"For every accepted schema, after 'typical format' the schema and all its dependencies are still accepted and generate byte-identical Rust and TypeScript, whatever names (including keywords written with $), types, rules, indices, deleted indices, import paths, aliases and comments they contain.",
["programs"],"All accepted multi-file schemas in any textual form, over identifiers whose letters have one-to-one case mappings (see known findings).",
"Four already formatted schemas are checked to be fixed points; nothing compares meaning before and after.",
["src/schema.rs","src/main.rs","src/parser.rs","src/tokenizer.rs"],
[("Display implementation of the syntax tree","src/schema.rs: write"),("file rewriting","src/main.rs: format_schema")],
None,["files after typical format; output of typical generate before and after"])

p("C13","Formatting is canonical, idempotent and agrees with --check",
"Formatting depends only on a schema's meaning, comments and order of declarations and fields: all spellings of a schema that differ in whitespace, line endings, letter case or redundant syntax are formatted to the same text, formatting again changes nothing, and no comment line exceeds 79 columns unless a single word does. 'typical format --check' succeeds exactly when formatting would change no file, and never writes; 'typical format' writes exactly the files that were not already formatted and covers the schema and all of its transitive imports.",
["programs","inputs"],"All accepted multi-file schemas times all spellings of them.",
"The tests format a handful of fixed syntax trees.",
["src/schema.rs","src/main.rs"],
[("pretty printer","src/schema.rs: write, write_comment"),("comparison of old and new contents","src/main.rs: format_schema")],
None,["file contents and modification times around typical format and format --check; exit codes"])

p("C14","Formatting preserves every comment and what it is attached to",
"After formatting, every comment is still attached to the same item (file, declaration or field) and consists of the same words in the same order and the same paragraphs; no word is split, joined, altered, lost or moved. Text that looks like schema syntax inside a comment has no effect, and comments never leak into neighbouring items.",
["programs","inputs"],"All accepted schemas with arbitrary comment text (any Unicode, hyphenated and very long words, multiple paragraphs, # characters, CRLF) in all documented positions.",
"The formatter tests contain a few short ASCII comments.",
["src/schema.rs","src/tokenizer.rs","src/parser.rs"],
[("comment tokenization into paragraphs","src/tokenizer.rs: tokenize"),("attachment rules","src/parser.rs: parse_schema, parse_field"),("comment wrapping","src/schema.rs: write_comment")],
None,["file contents before and after typical format"])

p("C15","Exactly the documented grammar is accepted, and no input crashes the compiler",
"A file is accepted syntactically if and only if it follows the documented schema syntax (imports before declarations; declarations with rule, name, type and index per field and a trailing deleted list; comments only where documented; identifiers that start with a letter, that is an alphabetic and non-numeric character, and continue with letters, digits and underscores; decimal integers below 2^64; paths in single quotes), and what is accepted is understood as written. Any other file, including arbitrary bytes, is rejected with an error report and exit status 1; no input makes the compiler panic, hang or exit otherwise.",
["inputs"],"All byte strings as schema files (nesting of brackets up to 200), decided by an independent recognizer.",
"The parser tests try some thirty inputs.",
["src/tokenizer.rs","src/parser.rs","src/token.rs"],
[("tokenizer","src/tokenizer.rs: tokenize"),("recursive descent parser with error recovery","src/parser.rs")],
None,["exit status and error report of typical generate/format; formatted text of accepted files"])

p("C16","Invalid schemas are rejected and valid ones are not",
"A syntactically correct schema is rejected if and only if, somewhere in it or its transitive imports, there is a duplicate declaration, field or import name (names that differ only in case convention count as equal, and so do names that could not be told apart in generated code), a repeated, deleted, gapped or oversized field index, a repeated deleted index, a reference to a missing import or type, or a type that contains itself through any chain of fields, arrays and imports. Rejected schemas produce no output, and no combination of several problems masks the rejection.",
["programs","inputs"],"All syntactically correct multi-file schemas.",
"The validator tests cover each rule with one minimal example, never combinations, depth, or crossing files.",
["src/validator.rs","src/parser.rs","src/schema_loader.rs"],
[("per-declaration checks","src/validator.rs: validate"),("type resolution","src/validator.rs: validate_type"),("cycle detection","src/validator.rs: check_declaration_for_cycles")],
None,["exit status and output files of typical generate"])

p("C17","Every problem is reported, at the right place",
"When a schema is rejected, the report contains one entry for every independent lexical error of a file, at least the first syntax error of every lexically correct but syntactically wrong file, every unresolvable import of the syntactically correct ones and, if all files load, every semantic violation in every file. If cycles are the only problem, every set of types that contain each other is reported with a chain that really is a cycle of the schema. Where two files share a namespace, only the problems of the given schema and a conflict are promised. Each entry located in a file names that file as reached from the schema's directory and shows, with correct line numbers and highlighting, exactly the source lines of the offending item, also in files with CRLF line endings, tabs, very long lines or non-ASCII text, with or without colors.",
["programs","inputs"],"All rejected multi-file schemas, with any number and combination of problems.",
"The tests look for one message fragment per error kind and never at positions, multiple errors or other files' errors.",
["src/error.rs","src/error_merger.rs","src/validator.rs","src/parser.rs","src/tokenizer.rs","src/schema_loader.rs"],
[("source ranges carried by tokens and syntax nodes","src/parser.rs: span_tokens; src/tokenizer.rs"),("listing with line numbers and overlines","src/error.rs: listing"),("merging of all errors","src/error_merger.rs: merge_errors")],
None,["standard error of typical"])

p("C18","Imports resolve relative to the importing file, once, inside the base directory",
"An import path is resolved relative to the directory of the schema containing it, through '.', '..', symbolic links and absolute spellings, and names exactly the file the operating system would open; diamonds and circular imports load each file once, and --list-schemas prints exactly the schema and its transitive imports. (The given schema itself is expected under its own name, not through a symbolic link to a file of another name, see known_findings.txt.) Imports of missing, unreadable or non-UTF-8 files and of files outside the directory of the given schema are errors, and so are two different files that would share a namespace; none of these is ever silently ignored or replaced by another file.",
["programs","configurations"],"All directory trees, import graphs and path spellings.",
"One two-directory example is loaded by the tests.",
["src/schema_loader.rs","src/main.rs"],
[("canonicalization and base-relative paths","src/schema_loader.rs: load_schemas"),("visited set and frontier","src/schema_loader.rs: load_schemas")],
None,["--list-schemas output, exit status, generated namespaces"])

p("C19","The command line acts all-or-nothing on errors and touches only what it should",
"'typical generate' exits with 0 only if every requested output was written completely, and if the schemas are invalid it exits with 1 having created or changed nothing; it creates missing parent directories, replaces previous output entirely and never modifies schemas. 'typical format' changes no file when any involved schema fails to load, touches nothing but the schemas, and exits with 0 only if all of them are formatted on disk afterwards; a failing file system operation that keeps a command from completing its work makes it exit with 1 and a report, while short reads and writes have no effect, and shell-completion prints a script for exactly the five documented shells in any letter case.",
["configurations","fault_sequences","inputs"],"All invocations, prior states of the output locations, and failures of individual file system operations.",
"Nothing in the suite checks exit codes, outputs on failure, or file system errors.",
["src/main.rs","src/schema_loader.rs"],
[("load and validate before writing","src/main.rs: generate_code, format_schema"),("errors mapped to exit status 1","src/main.rs: main")],
None,["exit status, directory tree before and after, standard output and error; libc file operations via an interposed shim"])

p("C20","Names mean the same in every case convention",
"Two spellings of a name that split into the same words (at underscores, and before capital letters) denote the same type, field or import everywhere: references resolve, duplicates are detected, aliases equal to the inferred name are recognised, and the same generated names result. Generated names are the words joined in the target's convention (snake_case, camelCase, PascalCase) with keywords escaped, and two names that are accepted side by side never collide in either target language.",
["programs","inputs"],"All accepted schemas times all case-convention respellings of each occurrence of each name, over ASCII and other letters with one-to-one case mappings.",
"The identifier tests check a few words; nothing checks agreement between parser, validator, formatter and both generators.",
["src/identifier.rs","src/validator.rs","src/generate_rust.rs","src/generate_typescript.rs","src/schema.rs"],
[("word splitting and case conversion","src/identifier.rs"),("equality and ordering on the folded form","src/identifier.rs: PartialEq, Ord, Hash")],
None,["outputs of typical generate and format; verdicts of rustc/tsc"])

p("C21","Generated code means the same on every platform",
"The generated code has no dependency on where it runs. Generated Rust compiles in every edition from 2018 on, is self-contained, and computes the same sizes, bytes, values and errors whatever the optimization level, overflow checks, word size and byte order of the machine. Generated TypeScript is one self-contained file that works in Node and in browsers (no Node built-ins, no console output, no change to global objects, no reflection and no code created at run time, so it works under a content security policy that forbids it), type-checked or merely stripped of types file by file, as an ECMAScript or CommonJS module, bundled and minified or not, with the same results everywhere.",
["programs","inputs","configurations"],"All accepted schemas and all values and byte strings, on every supported compiler configuration, target machine and JavaScript environment.",
"The pinned suite compiles one generated file once, in the default configuration of one machine, and runs no TypeScript.",
["src/generate_rust.rs","src/generate_typescript.rs","README.md"],
[("conversions between usize, u64 and bytes","src/generate_rust.rs: prelude and write_*_invocation"),("globals used by the emitted prelude (DataView, TextEncoder, TextDecoder, BigInt)","src/generate_typescript.rs: generate")],
None,["answers of the same requests in every environment, accesses to environment-specific globals, dynamic code, console output"])

p("C22","Serializing and deserializing are pure",
"What generated code answers depends on nothing but the message or bytes it is given: not on earlier calls, failed ones included, nor on calls going on in other threads, nor on calls made from within the reader or writer of another call (or, in TypeScript, from within a getter of the message). Messages are not modified by being measured or serialized, byte strings not by being deserialized, and results do not share memory with arguments or with other results where writing to one could change the other. In Rust, messages can be sent to and shared between threads, and used by several at once without data races.",
["programs","inputs","histories","schedules"],"All accepted schemas, all sequences, interleavings and nestings of requests.",
"A unit test makes one call at a time and throws the result away; state left behind by a cached buffer or a shared decoder shows only in later or overlapping calls.",
["src/generate_rust.rs","src/generate_typescript.rs"],
[("scratch buffers of integer and floating point conversions","src/generate_typescript.rs: prelude (dataView64)"),("decoders and encoders created once","src/generate_typescript.rs: textEncoder, textDecoder"),("types made of plain data only","src/generate_rust.rs: write_schema")],
None,["answers of every request in a session, compared with the reference codec and with the answers of the same request at other moments; contents of messages, buffers and results before and after; Miri's race detector"])

p("C23","Memory and time are proportionate to the message",
"Computing the size of a message, serializing it and deserializing it take time proportional to the size of the message and memory proportional to what it contains, at every nesting depth and for every number of fields, elements, unknown fields or fallbacks: a message of sixteen times as much of anything does not take hundreds of times as long, no small message makes a decoder reserve far more than its type describes for its bytes, a deserialized value does not keep much more memory than its contents need, and everything is given back when values are dropped. (Exceptions: [Unit] arrays, of which the README warns, and the recorded findings.)",
["programs","inputs"],"All accepted schemas times all values and byte strings up to a few megabytes, in Rust (exact heap accounting and processor time) and in TypeScript (processor time and heap).",
"Tests check results; a quadratic loop, a leak or an oversized reservation gives the right result on the small messages tests use.",
["src/generate_rust.rs","src/generate_typescript.rs","README.md"],
[("sizes computed once into an atlas instead of once per level","src/generate_rust.rs: write_atlas_calculation; src/generate_typescript.rs: same"),("room reserved from declared sizes","src/generate_rust.rs: write_deserialization_invocation (reserve_exact)"),("unknown fields skipped","generated deserializers' default arm")],
None,["live and peak heap of every operation, processor time of every operation for pairs of messages"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
