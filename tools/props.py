#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

LEX = "protox-parse/src/lex/mod.rs"; PAR = "protox-parse/src/parse/mod.rs"; COM = "protox-parse/src/parse/comments.rs"
GEN = "protox-parse/src/generate/mod.rs"; LIN = "protox-parse/src/generate/lines.rs"; AST = "protox-parse/src/ast/mod.rs"
ERR = "protox-parse/src/error.rs"; CASE = "protox-parse/src/case.rs"; TAG = "protox-parse/src/tag.rs"; PLIB = "protox-parse/src/lib.rs"
CMP = "protox/src/compile/mod.rs"; FIL = "protox/src/file/mod.rs"; INC = "protox/src/file/include.rs"; CHA = "protox/src/file/chain.rs"
DSR = "protox/src/file/descriptor_set.rs"; GOO = "protox/src/file/google.rs"; XER = "protox/src/error.rs"; XLIB = "protox/src/lib.rs"; MAIN = "protox/src/main.rs"

prop("C01", "Parsing is total and its errors are well formed",
 "For every source text whose declarations nest at most 64 deep, parsing terminates and returns either a descriptor or an error, and never panics. An error carries at least one diagnostic and names the file passed in; every source span it reports lies inside the source text and on character boundaries, and its debug form starts with the file, line and column of the primary span if there is one. A text is rejected as too large exactly if it is longer than 2147483647 bytes.",
 ["inputs"], "all source texts (byte-level, token-level and declaration-level shapes, including truncated and garbled files)",
 "Two proptest properties sample random strings and a handful of snapshot tests pin single errors; none covers all short inputs, all truncations, or every error kind's span in multi-byte text.",
 [LEX, PAR, GEN, ERR], [("lexer callbacks and error recovery", f"{LEX}, {PAR} skip_until"), ("error construction and Debug", ERR)],
 ["protox_parse::parse", "ParseError::{file,span}, Debug, Diagnostic::labels/related"])

prop("C02", "Numeric literals have exactly their written value",
 "An integer literal (decimal, octal or hexadecimal) or floating-point literal yields exactly the value it denotes wherever the grammar allows one, including at the limits of every integer type. A literal that exceeds 64 bits, runs directly into a following letter or underscore, or has an f suffix outside a text-format value is rejected.",
 ["inputs"], "all numeric literals over the digit, prefix, point, exponent, sign and suffix characters up to a length, plus boundary values of every width",
 "The lexer tests list about twenty literals; boundaries are per radix, per sign, per consumer type, and adjacency to the next character.",
 [LEX, PAR, AST, GEN], [("logos patterns and int()/float()", LEX), ("Int::as_i32/as_i64/as_u32/as_u64", AST)],
 ["UninterpretedOption.{positive_int_value,negative_int_value,double_value}", "FieldDescriptorProto.{number,default_value}", "ParseError"])

prop("C03", "String literals decode to exactly the bytes they denote",
 "A quoted string in either quote style decodes to the bytes it denotes: plain characters verbatim, each simple, octal, hexadecimal and Unicode escape to its value, and adjacent literals concatenated in order. Unterminated strings, raw newlines or NULs, malformed or out-of-range escapes, and non-UTF-8 content where text is required are rejected, and nothing else is.",
 ["inputs"], "all sequences of string-body characters up to a length in both quote styles, every escape value, and every concatenation and position of use",
 "Snapshot tests show a few strings; correctness is per escape value and per neighbouring character (how many digits an escape takes, which quote ends the string).",
 [LEX, PAR, AST], [("string() component lexer", LEX), ("parse_string concatenation, parse_utf8_string", PAR)],
 ["UninterpretedOption.string_value", "FieldDescriptorProto.default_value/json_name", "FileDescriptorProto.dependency", "reserved_name"])

prop("C04", "The parser accepts exactly the proto2/proto3 grammar",
 "A token sequence is accepted as a file if and only if it derives from the protobuf proto2/proto3 grammar, where keywords may be used as identifiers anywhere the grammar does not need them as keywords (the words map and group in field-type position are always the map and group forms). This holds in every parser context: file, message, group, enum, service, rpc body, oneof, extend, options, ranges, type names and aggregates.",
 ["inputs"], "every reachable grammar context up to a nesting depth, extended by every token of the alphabet",
 "The parser tests feed one or two malformed examples per construct; the accept/reject decision is a function of every context and every next token.",
 [PAR, LEX, CASE], [("recursive-descent parser", PAR), ("keyword tokens", LEX)],
 ["protox_parse::parse Ok/Err"])

prop("C05", "The descriptor mirrors the declarations of the file",
 "For every valid file the descriptor contains exactly the declared messages, fields, enums, values, services, methods, extensions, reserved and extension ranges, with the declared names, numbers, labels, types, streaming flags and parents, each list in source order, and nothing that was not declared except the entries the language prescribes (map entries, group messages, synthetic oneofs). Type names are kept as written, and the counts and sizes of declarations do not matter.",
 ["inputs"], "all sequences of declarations up to a length in every scope, all products of field attributes, and size sweeps of each repeated construct",
 "Tests hold one expected descriptor per construct; index and order errors appear only for particular mixes of sibling declarations.",
 [GEN, AST, PAR], [("generate_* functions and index counters", GEN)],
 ["FileDescriptorProto without source_code_info"])

prop("C06", "Syntax- and scope-dependent field rules are enforced exactly",
 "For every combination of syntax, scope (message, group, oneof, extension), label and field kind, the file is accepted if and only if protobuf allows that combination: proto2 fields need a label outside oneofs, proto3 has no required fields, groups or defaults, oneof members take no label and no map, extensions cannot be required or maps, map fields take no label, map keys are integral, bool or string, and a oneof has at least one member. An accepted field has the label, type and proto3-optional flag that the combination prescribes.",
 ["inputs"], "the full product of syntax × scope × nesting × label × field kind × type × option presence",
 "Error tests pick one combination per rule; the rules interact (label × scope × syntax × kind) and most cells are never run.",
 [GEN, PAR], [("generate_field_label, generate_field_descriptor", GEN)],
 ["Ok/Err and ParseError", "FieldDescriptorProto.{label,type,proto3_optional}"])

prop("C07", "Field, enum and range numbers are bounded and exact",
 "Field numbers and the numbers in message reserved and extension ranges are accepted exactly from 1 to 536870911, enum numbers and enum reserved ranges exactly over the signed 32-bit range. Message ranges are stored with an exclusive end and enum ranges with an inclusive end; a single number is the range of itself, and max denotes 536870911 in a message, 2147483646 when the message's message_set_wire_format option is true, and 2147483647 in an enum.",
 ["inputs"], "all boundary values and their neighbours in every radix, sign and position, all range shapes and list positions, all placements of the message-set option",
 "Tests check one or two out-of-range values per construct; off-by-one and sign handling depends on each boundary in each position.",
 [GEN, AST, PAR], [("generate_message_number, generate_enum_number, generate_*_range", GEN), ("Int::as_i32", AST)],
 ["number, reserved_range, extension_range", "ParseError"])

prop("C08", "Default values and JSON names are checked and preserved",
 "A default option is accepted if and only if its value fits the field's scalar type (integers within the type's range, true or false, any number including inf and nan for floating point, strings, bytes), and the descriptor's default value denotes exactly that value in descriptor form (escaped for bytes, the identifier as written for named types). A json_name must be a UTF-8 string and is stored verbatim; both pseudo-options are removed from the remaining options, which keep their order.",
 ["inputs"], "the product of field type × default value over boundary and ill-typed values × option-list position × other options",
 "A few defaults per type are tested; the accept set is per type and boundary, and the removal from the option list depends on position.",
 [GEN, AST], [("generate_field_default_value, generate_string_option_value, take_option", GEN), ("String Display escaping", AST)],
 ["FieldDescriptorProto.{default_value,json_name,options}", "ParseError"])

prop("C09", "Options are recorded faithfully and in order",
 "Every option statement or bracketed option becomes one uninterpreted option on the element it was written on, in source order, with its name split into the written parts (extension parts flagged and spelled as written) and exactly one value of the written kind: identifier, positive integer, negative integer, floating point, string or aggregate. An aggregate's text re-lexes to the same sequence of tokens and values as was written, without comments.",
 ["inputs"], "all option scopes × name shapes × value kinds × list lengths, and all aggregate token sequences up to a length",
 "Each scope has one or two example options; name shape × value × scope × count is not covered, and aggregate re-serialisation is checked on a couple of strings.",
 [PAR, GEN, LEX], [("parse_option_body, parse_text_format_message", PAR), ("generate_option(s)", GEN), ("Token Display", LEX)],
 ["*.options.uninterpreted_option"])

prop("C10", "Oneof membership and synthetic oneofs are exact",
 "Each declared oneof appears once, in source order, and a field refers to a oneof if and only if it was declared inside it. Each proto3 optional message field is the only member of its own synthetic oneof; synthetic oneofs follow all declared ones in field order and have a name, derived from the field's, that differs from every other field and oneof name of the message.",
 ["inputs"], "all sequences of plain, optional, repeated, oneof, map and nested members up to a length, and colliding name choices",
 "Snapshots have one or two oneofs; index bookkeeping is only stressed by interleavings of real and synthetic oneofs, and name collisions are untested.",
 [GEN], [("real_oneof_count/real_oneof_index, synthetic naming", GEN)],
 ["DescriptorProto.oneof_decl", "FieldDescriptorProto.{oneof_index,proto3_optional}"])

prop("C11", "Map and group fields expand to the prescribed nested types",
 "A map field becomes a repeated message field whose type is a nested entry message named by the field's CamelCase name plus Entry, flagged as a map entry, with optional key = 1 and value = 2 of the declared types. A group becomes a field with the lower-cased name whose type is a message with the written name and body, placed in the scope that encloses the field; each expansion sits among the nested types in source order.",
 ["inputs"], "all key × value types, all field-name shapes over letters, digits and underscores up to a length, and all nestings and mixes of groups, maps and nested messages",
 "A couple of map names and two groups are tested; naming is per name shape and placement is per scope and sibling order.",
 [GEN, CASE], [("FieldKind::Map/Group branches", GEN), ("to_pascal_case", CASE)],
 ["DescriptorProto.{field,nested_type}", "FileDescriptorProto.extension/message_type"])

prop("C12", "Source locations cover every element with exact spans",
 "Every declared element and attribute has a location whose path addresses it in the descriptor and whose span is exactly the source range it was written in, as zero-based line and byte column with three numbers when on one line and four otherwise. No other locations exist, and they are ordered by path, with repeated locations of one path in source order.",
 ["inputs"], "all declaration kinds in all scopes × layouts (same line, split lines, tabs, carriage returns, multi-byte characters) × positions",
 "Snapshots fix spans of a few files in one layout; line and column arithmetic and path indices depend on layout and on sibling counts.",
 [GEN, LIN, TAG, PAR], [("LineResolver", LIN), ("add_span/add_comments path stack", GEN), ("join_span", PLIB)],
 ["SourceCodeInfo.location.{path,span}"])

prop("C13", "Comments attach to the right declaration with the right text",
 "Each comment next to a declaration is reported exactly once, as trailing comment of the preceding declaration, leading comment of the following one, or leading detached comment, by protobuf's rules on line and block comments, blank lines and closing brackets. Its text is the comment body with delimiters, and for block comments each continuation line's indentation and one asterisk, removed and CRLF normalised to LF.",
 ["inputs"], "all gap contents (newlines, line comments, block comments, indentation, same-line and next-line placement) up to a length between all pairs of adjacent declarations",
 "The comment tests are a list of examples; attachment is a state machine over the gap's contents and the tokens on both sides.",
 [COM, PAR, LEX], [("Comments state machine", COM), ("peek(), parse_leading_comments, parse_trailing_comment", PAR), ("block_comment, line_comment", LEX)],
 ["SourceCodeInfo.location.{leading_comments,trailing_comments,leading_detached_comments}"],
 state=[("Comments", "pending leading/detached/trailing comments and whether the next comment may be trailing", COM)])

prop("C14", "Layout and comments never change meaning",
 "Inserting or removing whitespace, newlines or comments between tokens, or writing CRLF for LF, changes neither acceptance nor the descriptor apart from source locations and comments. Lines, columns and lengths of any size are handled alike.",
 ["inputs"], "every token boundary of a corpus covering all constructs × every separator, singly and in pairs",
 "Existing tests use one layout each; a lookahead that forgets to skip comments or newlines shows only at one particular boundary.",
 [PAR, LEX], [("peek vs peek_skip_comments", PAR), ("logos skip pattern", LEX)],
 ["protox_parse::parse result without source_code_info"])

prop("C15", "Errors point at the offending text, one per broken declaration",
 "When a file breaks exactly one rule, the primary error's span is exactly the token or element that breaks it, and a syntax error reports that token as found (or reports the end of file). When several top-level declarations that start with their keyword and are bracket-balanced are broken on their own, every one that is broken in its text (tokens, grammar, malformed names, paths or UTF-8) is reported; if none is, every violation of the other rules is. A repeated package statement counts as broken in its text. No diagnostic points into a top-level declaration that is valid by itself, except into a repeated package.",
 ["inputs"], "every grammar context × every wrong next token, every rule violation × position, and pairs of broken and valid declarations",
 "A snapshot per error kind fixes one position; span arithmetic and recovery depend on context, lookahead and what follows.",
 [PAR, GEN, ERR, LEX], [("unexpected_token, skip_until", PAR), ("error spans in generate", GEN), ("ParseError::span", ERR)],
 ["ParseError::span", "Diagnostic::labels and related"])

prop("C16", "File header statements are interpreted exactly",
 "A syntax statement is honoured only as the first statement and only for proto2 and proto3, its absence means proto2; at most one package is accepted and is recorded as written. Imports appear as dependencies in source order, with the public and weak lists holding exactly the indices of imports so marked, and an import path is rejected if and only if it is absolute or has an empty, '.', '..' or backslash-containing component.",
 ["inputs"], "all sequences of header statements up to a length, all import paths over a small alphabet up to a length",
 "One example per header form is tested; index lists depend on the mix, and path validity on each component.",
 [PAR, GEN], [("parse_file, parse_syntax, parse_import, is_valid_import", PAR), ("generate_file_descriptor", GEN)],
 ["FileDescriptorProto.{syntax,package,dependency,public_dependency,weak_dependency}", "ParseError"])

prop("C17", "Parsing is a pure, compositional function of its input",
 "The result depends only on the file name and source text, not on earlier calls or concurrent calls on other threads, and the name affects only the reported name. Appending or prepending declarations leaves the descriptors, spans and comments of the other declarations unchanged except for index and line shifts.",
 ["inputs", "histories", "schedules"], "all ordered pairs of declarations from a corpus, all call histories up to a length over a set of valid and failing inputs",
 "Tests parse single small files in isolation; state carried across declarations (paths, pending comments, counters) only shows in combinations.",
 [PAR, GEN, COM], [("Context.path push/pop discipline", GEN), ("Comments reset", COM)],
 ["protox_parse::parse"])

prop("C18", "What a parse error says is true",
 "The message of a syntax error names the token found there, or says that the file ended, and lists only alternatives that the grammar would have accepted in its place; where it lists nothing but quoted tokens, no other token would have been accepted (a further piece of a string and the contents of an aggregate aside). The message for a broken rule is about that rule, and the types, limits and values that it or its help text quotes are those of the declaration and of the language; for a repeated package statement the first label lies on the first one and the second on the repetition. The debug form ends with the message.",
 ["inputs"], "every reachable grammar context followed by every token or the end of the file; every rule; every scalar type with values at every limit",
 "A handful of snapshot tests pin the text of single errors; what is expected depends on the context, and the limits on the type.",
 [PAR, GEN, ERR, LEX], [("unexpected_token, fmt_expected", PAR), ("Display of Token", LEX), ("check_default_value", GEN), ("messages and help texts", ERR)],
 ["ParseError: Display, Debug, Diagnostic::help"])

prop("C20", "A compiled set is import-closed, unique and topologically ordered",
 "After any successful sequence of opens, the compiled files are exactly the opened files and everything they transitively import, each exactly once, every file after all files it imports. A file is marked as an import if and only if it was never opened explicitly, whatever the order of opens.",
 ["inputs", "histories"], "all import graphs up to a number of files × all open sequences",
 "Tests use a few hand-written graphs of two or three files with one open each.",
 [CMP], [("open_file/add_import depth-first insertion", CMP)],
 ["Compiler::{files,file_descriptor_set,descriptor_pool}", "FileMetadata::is_import"],
 state=[("Compiler.files / pool", "files compiled so far and their import flag", CMP)])

prop("C21", "Bad imports are always reported as the right error",
 "Opening a file fails if and only if its import closure contains an import cycle, a missing file, a file importing the same file twice, an unreadable or invalid file, or a reference that does not resolve. The error is of the kind of the first such problem met in depth-first import order, names the file at fault, and a cycle error spells out the chain of imports that closes the cycle.",
 ["inputs", "fault_sequences"], "all import graphs with self-loops, cycles, repeated and missing edges and one injected fault per file × open file",
 "One example each of a cycle, a missing import and a duplicate import is tested, all at the root of a two- or three-file graph.",
 [CMP, XER], [("import_stack cycle test, already_imported", CMP), ("into_import_error, duplicated_import", XER)],
 ["Compiler::open_file Err", "Error::{file,is_parse,is_io,is_file_not_found}, Display/Debug"])

prop("C22", "A failed open leaves the compiler consistent and usable",
 "After an open that fails for any reason, the compiler still holds only complete, closed, topologically ordered files, all previously opened files and their import flags unchanged, and no part of the failing file. Later opens, including a retry once the cause is gone, behave as if the failed one had not happened, apart from dependencies that are already loaded.",
 ["histories", "fault_sequences"], "all histories of opens with a fault injected at each resolver call and later cleared",
 "No existing test continues to use a compiler after an error.",
 [CMP], [("insertion into pool and files after successful check", CMP)],
 ["Compiler::{open_file,files,file_descriptor_set,encode_file_descriptor_set,descriptor_pool}"])

prop("C23", "Paths resolve through the include directories in order",
 "A file opened by path or imported by name is taken from the first include directory, in the given order, that contains it, and is named by its path relative to that directory with forward slashes; a directory entry that exists but cannot be read is an error, not passed over for a later directory. A file-system path under an include directory that an earlier directory shadows, or that lies under none, is rejected with a message that says which path stands in the way of which, or names the path. Paths are compared lexically by components: '.' components and trailing slashes, in opened paths and include paths alike, never change the result (a path that starts with './' is only ever a file-system path), '..' is not resolved, and absolute and relative spellings are different paths.",
 ["inputs", "configurations"], "all assignments of small file trees to up to three include directories × include order and spelling × opened path spelling",
 "Tests use one or two include directories with a fixed layout.",
 [INC, CHA, CMP], [("resolve_path, strip_prefix, path_eq, check_shadow, path_to_file_name", INC), ("ChainFileResolver", CHA), ("open_file name resolution", CMP)],
 ["Compiler::open_file", "FileMetadata::{name,path}", "IncludeFileResolver::resolve_path"])

prop("C24", "Compilers do not affect each other",
 "What a compiler returns for each operation depends only on its operations, its settings and the answers of its resolver. Other compilers, finished or in the middle of an operation, on another thread or on the same thread (even inside a call of this compiler's resolver), over files of the same names or not, change nothing about it, and none waits for another for ever.",
 ["schedules", "histories"], "all pairs of short programs on compilers over twelve worlds of files × all schedules at resolver calls and operations up to a number of preemptions × all points of nesting",
 "Every test uses one compiler at a time, in a fresh process.",
 [CMP, FIL, GOO, DSR, CHA, INC], [("Compiler owns its pool and files", CMP), ("resolvers hold no shared state; DescriptorPool::global is not used", FIL)],
 ["Compiler::{open_file,files,file_descriptor_set,encode_file_descriptor_set,descriptor_pool}"])

prop("C25", "All output forms describe the same files under every option",
 "For every setting of include_imports and include_source_info, the returned descriptor set contains exactly the opened files, plus the imported ones if and only if imports are included, in dependency order, with source info if and only if requested. The encoded set decodes to the same files (except that it may additionally carry extension options), the pool holds all files, and changing the settings at any time affects only the output.",
 ["histories", "configurations"], "all option settings × import graphs × open sequences × points at which the options change",
 "Tests fix one or two settings for one graph.",
 [CMP], [("file_descriptor_set, encode_file_descriptor_set", CMP)],
 ["Compiler::{file_descriptor_set,encode_file_descriptor_set,descriptor_pool,files}"])

prop("C26", "Extension options survive compilation and re-encoding",
 "Custom options set on any kind of element, from extensions defined in the same file, in an imported file or in one that an imported file imports publicly, appear with their exact value in the encoded descriptor set for every output setting. They are still there when that encoding is used as a source of descriptors for another compilation, however often this is repeated.",
 ["inputs", "configurations"], "all option targets × value kinds × location of the extension × output settings × number of round trips",
 "Two tests check one option through one round trip.",
 [CMP, DSR, FIL], [("encode_file_descriptor_set via DynamicMessage", CMP), ("File.encoded, DescriptorSetFileResolver::decode", DSR)],
 ["encoded FileDescriptorSet bytes decoded reflectively"])

prop("C27", "File resolvers find files by exact name, in chain order",
 "A chain of resolvers answers with the first member that has the file, passes over members that report it missing, and stops at any other error. The descriptor-set and Google resolvers return the file of exactly the requested name (for a repeated name the first), the well-known files are always available unless shadowed, and malformed descriptor-set bytes give a decode error, never a panic. A file read from disk is parsed as exactly the text it holds, and a file's source is that text.",
 ["inputs", "fault_sequences"], "all chains up to a length of members answering found, missing or error × names; all truncations and single-byte changes of an encoded set",
 "One test per resolver exists, with a single file each.",
 [CHA, DSR, GOO, FIL], [("ChainFileResolver::open_file", CHA), ("DescriptorSetFileResolver::{decode,open_file}", DSR), ("include_proto table", GOO)],
 ["FileResolver::{open_file,resolve_path}", "DescriptorSetFileResolver::decode"])

prop("C28", "The command line tool does what the library does",
 "For every combination of its options the protox command writes exactly the encoded descriptor set the library produces for the same files, include paths (default '.') and settings, and exits with success; if compilation fails it exits with failure, prints a diagnostic and leaves the output file untouched. Option aliases are equivalent.",
 ["configurations", "inputs"], "the product of flags, aliases, include lists, file orders and failing inputs",
 "There is no test of the command line tool.",
 [MAIN], [("main", MAIN)], ["exit status, stderr and output file of the protox binary"])

prop("C29", "The compiled files do not depend on the order of opens",
 "Opening the same set of files in any order, at once or one by one, with repetitions, or through the convenience function, gives the same descriptor for every file and the same set of files; opening a file again changes nothing. Each file's compiled descriptor is the one it has when compiled alone.",
 ["histories"], "all permutations and repetitions of opens over all small import graphs, through every entry point",
 "Tests open one file, or two in one order.",
 [CMP, XLIB], [("open_file early return, open_files, compile", CMP)],
 ["Compiler::{file_descriptor_set,files}", "protox::compile"])

prop("C30", "Errors are classified and located correctly through the compiler",
 "Every failure is classified by its cause: parse errors (including invalid UTF-8 and files that are too large) as parse, I/O errors as I/O, missing files and imports as not found, and a custom resolver's error is passed through unchanged. The file and source span given for a bad import are those of the import statement at fault in the importing file, wherever that statement stands, errors never lose the source text when it is available, and an I/O error names the path and leads to its cause through its sources.",
 ["inputs", "fault_sequences"], "all error causes × depth of the file at fault × position, layout and preceding characters of the import statement",
 "One error per kind is tested, with the import alone at the start of a line.",
 [XER, CMP, FIL], [("Error::{file,is_*}, find_import_span", XER), ("File::open error mapping", FIL)],
 ["Error::{file,is_parse,is_io,is_file_not_found}", "Diagnostic::{labels,source_code}"])

prop("C31", "Compiling is a fixpoint of its own output",
 "Using the self-contained output of a compilation, as a descriptor set or in encoded form, as the source of files for a second compilation succeeds and yields the same descriptors, including source info when it was requested. The same holds file by file for descriptors added directly as files (messages nested less than 100 deep, prost's limit for decoding).",
 ["inputs", "configurations"], "all import graphs and a corpus of all constructs × output settings × form of the round trip",
 "One round trip of one file is tested.",
 [DSR, FIL, CMP], [("DescriptorSetFileResolver", DSR), ("File::{from_file_descriptor_proto,decode_file_descriptor_proto}", FIL)],
 ["Compiler::file_descriptor_set of the second compilation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
