#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(qtext.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
G="src/dockerfile_parser.pest"; D="src/dockerfile_parser.rs"; U="src/util.rs"; I="src/image.rs"; S="src/splicer.rs"; T="src/stage.rs"
N="src/instructions/"

p("C01","Parsing any text, and using the result, always returns",
"""For every input string, parsing returns either a document or an error: it never panics, aborts, overflows the stack or runs on without bound, however long, deeply continued or malformed the input is.
The same holds for everything that can then be done with an accepted document or any string: rendering it and its errors, splitting it into stages and looking stages up, resolving image variables, locating spans by line, splicing spans of the document, and parsing image references or substituting variables in arbitrary strings.""",
["inputs"],"all strings, including arbitrary Unicode, control characters, truncated and mutated Dockerfiles, and documents with thousands of lines, continuations, escapes or array elements",
"The tests parse about a hundred well-formed fragments and a handful of malformed ones; nothing feeds garbage, truncations or very deep nesting.",
[G,D,U,I,S,T,N+"run.rs"],[("recursive grammar rules and their depth limit",G),("builders that return errors instead of unwrapping",N+"*.rs"),("is-in-range slicing of image strings",I+" ImageRef::parse")],
["return value of Dockerfile::parse / FromStr","process exit status of the worker","CPU time per case"])
p("C02","Spans are in bounds, on character boundaries, nested and ordered",
"""In every accepted document, each span lies within the raw content, starts no later than it ends, and falls on character boundaries.
Instruction spans are disjoint and in source order, each starting exactly at its keyword; every part's span lies inside the span of the part or instruction that contains it, and the parts of one instruction that are listed in source order have disjoint, increasing spans.""",
["inputs"],"all accepted documents, including multi-byte text, CRLF line ends, continuations and comments inside instructions",
"Unit tests check hard-coded offsets for ASCII examples, mostly for a single instruction at offset 0.",
[S,D,U]+[N+x for x in("from.rs","copy.rs","label.rs","env.rs","arg.rs","run.rs","cmd.rs","entrypoint.rs","misc.rs")],
[("Span::from_pair",S),("span of an env pair in its space-separated form",N+"env.rs"),("Instruction::span",D)],["all public span fields of Dockerfile::instructions"])
p("C03","Span text is exactly the source of the value it annotates",
"""In every accepted document, the source text under the span of an unquoted value, flag, shell-text piece or comment is identical to the value reported for it, and the source text under the span of a quoted value is one complete quoted string that decodes to the reported value (text containing the control characters U+0000 and U+001F excepted, which quoted strings cannot hold).
The source text under an instruction's span, parsed on its own, yields the same single instruction (apart from its position and its number among the FROM instructions, and except where a continuation is left dangling: followed by nothing, only blanks or only a comment before the next line end).""",
["inputs"],"all accepted documents and every spanned value in them",
"Tests compare literal offsets of chosen examples; agreement between offset and text is never checked in general.",
[S,U,D,N+"env.rs",N+"label.rs",N+"copy.rs",N+"from.rs"],[("Span::from_pair and parse_string take span and text from one token",U),("parse_any_breakable_inner",U)],["span and content fields of every SpannedString, SpannedComment, BreakableString, StringArray, flag, label and env var"])
p("C04","No instruction is lost, invented, merged, split or reordered",
"""In every accepted document, the reported instructions are exactly the document's instructions, one for each, in source order and of the kind its keyword names; an instruction ends at the first line end that is not escaped by a continuation (comment lines inside a continuation do not end it, and line ends inside a quoted string do not either).
Everything outside the instructions' spans is blank or a comment line, and inside an instruction everything outside its reported parts is only its keyword, separators, line continuations and comments.""",
["inputs"],"all accepted documents: any number and mix of instructions, comments, blank lines and continuations",
"The integration tests check a few documents of up to eight instructions; a swallowed or duplicated line in any other arrangement goes unseen.",
[G,D,U],[("dockerfile / meta_step / step rules",G),("parse_dockerfile record loop",D),("any_breakable and line_continuation",G)],["Dockerfile::instructions","raw content against spans"])
p("C05","Comments, blank lines, indentation, keyword case and line ends are inert",
"""Adding, removing or changing comment lines and blank lines between instructions, indentation, trailing blanks after non-shell instructions, the letter case of instruction keywords (and of AS), the presence of a final line end, or converting all line ends between LF and CRLF (documents with line ends inside quoted strings excepted) never changes whether a document is accepted, nor anything in the parsed result except positions and the raw content.""",
["inputs"],"all accepted documents without unescaped line ends inside quoted strings and without shell text that ends in a comment line, under all combinations of these edits",
"A few tests use lower-case keywords, comments or indentation; none uses CRLF, and none compares two renderings of one document.",
[G,D,U],[("meta_step, comment, ws, NEWLINE and case-insensitive keywords",G),("clean_escaped_breaks",U)],["Dockerfile::instructions and global_args of both renderings"])
p("C06","Breaking an instruction over continued lines does not change its meaning",
"""Splitting an instruction over several lines with a trailing backslash (optionally followed by blanks) between its arguments (at least one blank being left there, before the backslash or at the start of the next line), with comment lines and blank lines between the pieces, never changes whether it is accepted nor any value it is parsed to; the same holds for a break inside a quoted string (without comments), and for a break anywhere inside shell-form text with any number of comment lines before the next piece, where the reported command is the concatenation of the pieces without the backslashes, line ends and comments.""",
["inputs"],"all instructions of every kind and all positions where an argument separator, quoted string or shell text may be broken, under LF and CRLF",
"Each instruction has one or two hand-written multi-line examples, which leave out most combinations (for example comments before the first argument, CRLF, or breaks inside quoted ENV or exec strings).",
[G,U,N+"run.rs",N+"env.rs",N+"label.rs"],[("arg_ws, line_continuation, comment_line, empty_line",G),("clean_escaped_breaks",U),("comment tokens skipped by each builder",N+"*.rs")],["values of the instruction parsed from both renderings"])
p("C07","Shell-form commands keep their text, pieces and comments",
"""For every shell-form RUN, CMD or ENTRYPOINT, the displayed command is exactly the text after the keyword's separating blanks with each line continuation and each comment line inside it removed, and with nothing else changed.
Its components list every line's piece of text and every embedded comment verbatim, in source order, and a '#' that does not start a continued line is ordinary text; a bracketed text that is not entirely a string array is shell form.""",
["inputs"],"all command texts over Unicode, with any number of continued lines and embedded comments",
"Three examples per instruction cover one fixed multi-line shape.",
[G,U,N+"run.rs",N+"cmd.rs",N+"entrypoint.rs"],[("any_breakable / any_content / comment_line",G),("parse_any_breakable_inner and Display for BreakableString",U)],["ShellOrExecExpr::Shell components and Display"])
p("C08","Exec-form arrays keep every element, in order",
"""For every exec-form RUN, CMD or ENTRYPOINT (a bracketed, comma-separated list of quoted strings that is the whole argument), the reported array has exactly the written elements, in order and decoded, whatever blanks, continuations, comments, quote style or trailing comma surround them; the empty list gives an empty array, and the list of element texts agrees with the elements.""",
["inputs"],"all arrays of any length over all strings that the quoted-string syntax can express",
"The tests parse two-element and three-element ASCII arrays.",
[G,U,N+"run.rs",N+"cmd.rs",N+"entrypoint.rs"],[("string_array and *_exec rules",G),("parse_string_array / parse_string / as_str_vec",U)],["ShellOrExecExpr::Exec elements","StringArray::as_str_vec"])
p("C09","ENV yields exactly the written variables",
"""Every ENV instruction yields its variables in source order with exactly the written keys and values, for any number of key=value pairs, quoted (decoded) or unquoted (verbatim), including repeated keys; in the space-separated form it yields one variable whose value is the rest of the instruction (comments and continuations removed), decoded if it is a quoted string.""",
["inputs"],"all ENV instructions with keys of letters, digits and underscores and non-empty values, in both forms",
"Tests cover about a dozen fixed lines with at most three pairs.",
[G,N+"env.rs",U],[("env_single, env_pairs, env_pair rules",G),("EnvInstruction::from_single_record / from_pairs_record / parse_env_pair",N+"env.rs")],["EnvInstruction::vars"])
p("C10","LABEL yields exactly the written labels",
"""Every LABEL instruction yields its labels in source order with exactly the written names and values, for any number of name=value pairs whose names and values are each quoted (decoded) or unquoted (verbatim), including repeated names, and for the single space-separated form.""",
["inputs"],"all LABEL instructions with non-empty unquoted parts, in both forms",
"Tests cover about a dozen fixed lines with at most three labels.",
[G,N+"label.rs",U],[("label_single, label_pair rules",G),("Label::from_record / LabelInstruction::from_record",N+"label.rs")],["LabelInstruction::labels"])
p("C11","ARG is parsed exactly, and global ARGs are those before the first FROM",
"""Every ARG yields exactly the written name and, if one is written, its value (quoted: decoded, unquoted: verbatim).
The document's global arguments are exactly the ARG instructions before the first FROM, in order, whatever else precedes it, and looking a global argument up by name returns the first of them with exactly that name, or nothing if there is none.""",
["inputs"],"all documents: any placement of ARG relative to FROM and other instructions, including no FROM at all, repeated and prefix-sharing names",
"One unit test parses three ARG spellings; global_args and get_global_arg have no direct test at all.",
[D,N+"arg.rs",G],[("from_found flag and global_args",D+" parse_dockerfile"),("get_global_arg",D),("ArgInstruction::from_record",N+"arg.rs")],["Dockerfile::global_args","Dockerfile::get_global_arg","ArgInstruction fields"],[("from_found","whether a FROM has been seen",D)])
p("C12","COPY yields its flags, sources and destination",
"""Every COPY instruction in whitespace-separated form yields its leading --name=value flags in order with exact names and values, then all paths but the last as sources in order, and the last path as the destination, verbatim; a flag-like word after the first path is a path.""",
["inputs"],"all COPY instructions with any number of flags and at least two paths",
"Tests cover at most one flag and three sources.",
[G,N+"copy.rs"],[("copy, copy_flag, copy_pathspec rules",G),("CopyInstruction::from_record (pop of the last path)",N+"copy.rs")],["CopyInstruction fields"])
p("C13","FROM yields its flags, image, alias and ordinal",
"""Every FROM yields its --name=value flags in order, its image reference verbatim, and its alias verbatim if one is written after AS (in any letter case) and none otherwise; its parsed image equals parsing that reference on its own.
Its index is the number of FROM instructions before it in the document.""",
["inputs"],"all documents with any number of FROM instructions, flags, aliases (including ones spelled like keywords) and interleaved instructions",
"Unit tests parse isolated FROM lines (index always 0); documents with several FROMs are only checked through two stage tests.",
[G,N+"from.rs",D],[("from, from_flag, from_alias_outer rules",G),("from_index counter",D+" parse_dockerfile"),("FromInstruction::from_record",N+"from.rs")],["FromInstruction fields"],[("from_index","ordinal given to the next FROM",D)])
p("C14","A FROM digest is accepted exactly when it is a well-formed sha256 digest",
"""A FROM whose image reference has a digest (an '@' after its registry, if it has one) is accepted exactly when the text after the first such '@' is 'sha256:' followed by exactly 64 hexadecimal digits of either case, and the document is otherwise rejected; an accepted digest is reported verbatim.
A reference without a digest is never rejected because of digest rules.""",
["inputs"],"all image references over the characters a FROM allows, in any document position, with flags and aliases",
"Three malformed digests and one valid one are tested; a digest with one wrong character of the right length is not among them.",
[N+"from.rs",I],[("digest check",N+"from.rs from_record"),("split at '@'",I+" ImageRef::parse")],["Ok/Err of Dockerfile::parse","FromInstruction::image_parsed.hash"])
p("C15","Image references decompose by Docker's rules and print back unchanged",
"""For every string, parsing it as an image reference and displaying the result gives back the same string.
The part before the first '/' is the registry exactly when it is 'localhost' or contains '.' or ':'; of the rest, the text after the first '@' is the hash (and there is then no tag), otherwise the text after the first ':' is the tag, and what precedes is the image name.""",
["inputs"],"all strings, in particular all combinations of registries, ports, nested names, tags, digests, variables, empty parts and Unicode",
"Twenty fixed references are tested and display is tested once, in a doc example.",
[I],[("ImageRef::parse, is_registry",I),("Display for ImageRef",I)],["ImageRef fields and Display"])
p("C16","Variable substitution is exact, bounded and reports the variables used",
"""Substitution replaces every $name and ${name} (name: ASCII letters, digits, underscores, longest match) by the variable's value with that value substituted in turn, and leaves all other text, including any other use of '$', unchanged.
It yields nothing exactly when a reference (at any depth) names an undefined variable or lies more levels of reference deep than the given limit (so cycles always yield nothing); on success it adds to the caller's set exactly the names that were substituted, directly or indirectly.""",
["inputs"],"all strings, variable maps (including cyclic, chained, empty-valued and Unicode-valued) and depth limits 0-255 whose expansion has bounded size",
"One unit test with six variables; no adjacent, empty, multi-byte, or depth-boundary cases.",
[I,S],[("substitute() and its VAR pattern",I),("Splicer used to rewrite the matches",S)],["return value and used_vars of substitute()"])
p("C17","Image references resolve against the document's global arguments",
"""Resolving an image reference in a document substitutes variables from the ARG instructions before the first FROM that have a value (the last such value of a name wins) and from nothing else, with references inside values followed at most 16 levels deep, and gives the image reference parsed from the fully substituted text together with the set of variables used.
It gives nothing exactly when a needed variable has no such value or the nesting is deeper or cyclic, and resolving with and without the variable set agree.""",
["inputs"],"all documents with any arrangement of ARG and FROM (before, after and between), and all image references of or outside the document",
"Five small documents are tested; none has repeated ARGs, stage-level ARGs that must not count, or chains near the depth limit.",
[I,D],[("resolve_vars_with_context / resolve_vars",I),("global_args",D)],["ImageRef::resolve_vars","ImageRef::resolve_vars_with_context"])
p("C18","Stages partition the document and link to their parents",
"""The stages of a document are one per FROM in order, numbered from 0; each contains, in order, its FROM and all instructions up to the next FROM, instructions before the first FROM belong to none, and its name is the FROM's alias in lower case or absent.
Its parent is scratch if the image is 'scratch' in any letter case, else the first earlier stage whose name equals the image text ignoring ASCII case, else the FROM's image; its root is its parent, or that stage's root if the parent is a stage.""",
["inputs"],"all documents: any number of stages, chains of stages, shadowed, repeated, self-referring, forward-referring and case-varied names",
"Two unit tests with three or four stages; stage equality in them compares indices only, so names, parents and instruction lists are effectively unchecked.",
[T,D],[("Stages::new",T),("get_by_name during construction",T)],["Dockerfile::stages / iter_stages","Stage fields"])
p("C19","Stage lookup finds the right stage, or none",
"""Looking a stage up by name finds the first stage whose alias equals the name ignoring ASCII case and nothing if there is none; looking it up by a string that is a non-negative integer finds exactly the stage with that index, even if some alias is that number, and any other string is looked up as a name.
Indexing, iteration in either form and comparison of stages agree with the stages' indices, and looking up an ARG in a stage gives the position of the first ARG of exactly that name within the stage.""",
["inputs"],"all documents and all lookup strings, including numeric-looking, case-varied, empty, huge and non-existing ones",
"One unit test looks up three strings; arg_index is not tested at all.",
[T],[("Stages::get / get_by_name / iter / Index / IntoIterator",T),("Stage::arg_index, Ord, PartialEq",T)],["Stages::get, get_by_name, [], iter, into_iter","Stage::arg_index, cmp, eq"])
p("C20","Splicing replaces exactly the given spans, in any order",
"""After any sequence of splices on spans of the original document that are pairwise disjoint or nested, the splicer's content is the original content with each spliced span's text replaced by its latest replacement and everything else unchanged; spans may be spliced in any order, emptied, adjacent, spliced again, and a containing span may be spliced after the ones inside it (which it then replaces).""",
["inputs","histories"],"all documents (including multi-byte text), all sets of disjoint or nested spans, all orders and repetitions in which no span inside an already replaced one is spliced, and all replacement texts",
"Only a single splice is tested (in a doc example); the offset bookkeeping between splices has no test besides variable substitution.",
[S],[("Splicer::splice and its recorded offsets",S),("Span::adjust_offsets",S)],["Splicer::content after every splice"],[("splice_offsets","history of applied splices",S)])
p("C21","Splicing a parsed value and reparsing changes only that value",
"""In every accepted document, replacing the spans of any selection of values (FROM images and aliases, flag values, ARG, ENV and LABEL names and values, COPY paths, exec-form elements, shell-text pieces) by other texts valid in that place gives a document that is accepted and parses to the same result with exactly those values changed, all other user text, comments and formatting being preserved byte for byte.""",
["inputs","histories"],"all accepted documents, all selections and orders of splicing, replacements shorter, longer or equal in length",
"No test splices more than one span or reparses the result; examples/splice.rs is only compiled.",
[S,D,G,N+"from.rs"],[("spans recorded at parse time",U),("Splicer::splice",S),("Dockerfile::splicer",D)],["Splicer::content","reparsed Dockerfile"])
p("C22","A span's line number and column are those of its text",
"""For every accepted document and every span in it (and every in-bounds span of it), the relative position reports the number of line feeds before the span's start as the line, the byte distance from the start of that line as the start column, and an end such that the length is unchanged, so that a span within one line selects the same text from that line.""",
["inputs"],"all documents (LF and CRLF, multi-byte, empty lines, spans on the first and last line or across lines) and all in-bounds spans",
"One unit test with an ASCII document and three spans.",
[S],[("Span::relative_span",S)],["Span::relative_span"])
p("C23","Reading from a reader equals parsing the text, or reports the read error",
"""Parsing from a reader gives the same result as parsing the complete text it delivers (as does parsing via string conversion), however the bytes are split into reads, including inside a character, and however often a read is interrupted; the result's raw content is exactly the input text.
If the reader fails at any point or the bytes are not valid UTF-8, the result is a read error carrying that failure and never a document made from part of the input.""",
["inputs","fault_sequences"],"all documents, all splits into reads, an error of any kind or an invalid byte at every position",
"One doc example reads a valid byte slice; no failing, short-reading or non-UTF-8 reader is tested.",
[D,"src/error.rs"],[("from_reader: BufReader and read_to_string",D),("ReadError context","src/error.rs"),("FromStr",D)],["Dockerfile::from_reader","Dockerfile::content"])
p("C24","Results depend only on the input, not on history, threads or memory",
"""Parsing, stage splitting, resolving, substituting and splicing give a result that depends only on their arguments: repeating a call, calling it after any sequence of other calls (including failing ones) or from any number of threads at once, gives the same result as calling it first in a fresh process.
No operation changes a document it only reads, and operations on one document or splicer never affect another.""",
["schedules","histories"],"all interleavings of calls on several documents, from one or many threads, including concurrent first use",
"Every test makes one call on one input; the test runner's threads are never compared with anything.",
[D,I,N+"from.rs",U,T,S],[("lazily initialised patterns are the only shared state",I+", "+N+"from.rs, "+U),("no other global state; results own their data",D)],["results of all public operations across call histories and threads"],[("lazy_static regexes","shared compiled patterns",I)])
p("C25","Malformed documents are rejected, never silently misread",
"""A document is accepted only if every line outside comments is part of an instruction that matches the documented syntax in full: text left over after a complete instruction, a FROM without alias after AS, a dangling continuation at the end of the document (other than after ENV or LABEL pairs), text directly after a quoted value, an escape in a quoted string that names no character (an unknown letter, or an invalid code point), a key that is followed by '=' but no value, and a line that does not start with a word followed by arguments each make the whole document an error.
(A known keyword whose arguments do not match its syntax from the start may instead be kept as a miscellaneous instruction; it is never taken for the instruction of that keyword.)
The error can be displayed, and a syntax error's reported position lies within the document.""",
["inputs"],"all documents with one or more such faults at any place among otherwise valid instructions, and all short strings over the grammar's significant characters",
"About ten malformed examples are tested, each on its own.",
[G,"src/error.rs",D,U],[("EOI anchoring and ordered choice of the dockerfile rule",G),("unexpected_token and the error conversions","src/error.rs")],["Ok/Err of Dockerfile::parse","Error variants and Display"])
p("C26","Typed access to an instruction agrees with what the instruction is",
"""For every instruction, exactly one of the borrowing and one of the consuming typed accessors yields a value, namely the one for its kind, with the same contents and span the instruction itself reports; the fallible conversions agree with them and otherwise give a conversion error, and converting the value back gives an equal instruction.
For every RUN, CMD and ENTRYPOINT exactly one of the shell and exec accessors yields its expression, in borrowing and consuming form alike.""",
["inputs"],"all instructions of every kind, each tried with every accessor and conversion",
"Accessors are only used in tests for the kind that is expected to succeed; the negative side and most conversions are never run.",
[D,U]+[N+x for x in("from.rs","copy.rs","label.rs","env.rs","arg.rs","run.rs","cmd.rs","entrypoint.rs","misc.rs")],[("as_* / into_* / span()",D),("TryFrom and From impls",N+"*.rs"),("ShellOrExecExpr accessors",U)],["public accessors and conversions"])
p("C27","Unknown instructions are kept verbatim",
"""An instruction whose word is not one of FROM, RUN, ARG, LABEL, COPY, ENTRYPOINT, CMD and ENV in any letter case (including words that merely start with, or are a prefix of, one of these) is accepted when followed by arguments and reported as a miscellaneous instruction with exactly the written word and exactly the text after it, including leading blanks, with only line continuations and embedded comment lines removed when displayed; an instruction that is well formed for its known keyword is never reported as miscellaneous.""",
["inputs"],"all words of ASCII letters and all argument texts",
"Tests contain no miscellaneous instruction at all (only an example file does).",
[G,N+"misc.rs",D],[("misc rules as last alternative of step",G),("MiscInstruction::from_record",N+"misc.rs")],["MiscInstruction fields"])
p("C28","Quoted strings decode the same way everywhere",
"""In exec-form elements, ENV, LABEL and ARG, a double- or single-quoted string decodes the escapes for backslash, both quotes, b, f, n, r, t and four- or eight-digit Unicode code points to the character they name, drops escaped line ends, and keeps every other character as it is, so every string has an encoding that decodes to it and all these places decode an encoding alike.
An escape with an unknown letter or an invalid code point makes the document an error.""",
["inputs"],"all strings over Unicode, all choices of encoding per character, both quote styles and every position that takes a quoted string",
"A handful of escapes are tested in some of the places; Unicode escapes nowhere.",
[G,U,N+"env.rs",N+"label.rs"],[("string, inner, escape, unicode rules",G),("parse_string and the unquote calls",U)],["decoded content fields"])
p("C29","Parsing is compositional: documents concatenate",
"""For any two accepted documents of which the first does not end inside a line continuation (and has no shell text that begins like an exec-form array whose quoted string is never closed), the document made by joining them with a line end is accepted, and its instructions are those of the first followed by those of the second, with only positions shifted and the second's FROM instructions renumbered to follow the first's.
Its global arguments are the first's, followed by the second's if the first has no FROM.""",
["inputs","histories"],"all pairs (and longer sequences) of accepted documents, including empty and comment-only ones",
"No test relates the parses of two documents.",
[D,G],[("parse_dockerfile loop state (from_found, from_index)",D),("dockerfile rule",G)],["Dockerfile::instructions and global_args of parts and whole"])
p("C30","Documents edited or built in memory are used as they stand",
"""Stages, lookups, resolution, splicing and relative positions depend only on what a document's (public) fields hold at the time of the call: after its instructions are removed, added, repeated, reordered or changed (with FROM indexes, decomposed references and global arguments kept consistent with them) every operation answers for the present instructions, and after its content is replaced, splicers and positions refer to the present text, whatever was done with the document before.
A text built from pieces displays as its string pieces in order, comments left out, and keeps every piece; image references, stage parents, strings, arrays, variables, labels and spans built from parts report exactly those parts.""",
["inputs","histories"],"all documents, all sequences of edits that keep those fields consistent, interleaved with all operations, and all values built from arbitrary parts",
"Tests only use documents as they come from the parser; building and editing is never tested.",
[D,T,I,S,U,N+"env.rs",N+"label.rs"],[("Stages::new over instructions",T),("get_global_arg, stages, splicer",D),("BreakableString building and Display",U),("Display of ImageRef and StageParent",I+", "+T)],["Dockerfile::stages, get_global_arg, splicer","BreakableString::add*, Display","constructors"])
p("C31","Comparing, ordering and cloning reported values is faithful",
"""A clone of a document or any part of it equals the original and is not affected by later changes to it; two values of a type are equal exactly if all their parts (kind, positions, texts, lists, optional parts, numbers) are equal; spans are ordered by start, then end; and the orders of spans, strings, comments, pieces, broken texts and arrays are total and agree with equality.""",
["inputs"],"all documents and their parts, all values that differ in a single part, and all built spans, strings, comments, pieces, texts and arrays",
"Tests use equality as their oracle; that it tells different values apart is never tested.",
[D,I,S,U,T]+[N+x for x in("from.rs","copy.rs","label.rs","env.rs","arg.rs","run.rs","cmd.rs","entrypoint.rs","misc.rs")],[("PartialEq, Ord, Clone implementations of all public types",S+", "+U+", "+D)],["==, cmp, partial_cmp and clone of public types"])
p("C32","Parsing takes work and memory in proportion to the document",
"""The work (instructions executed) and memory (bytes allocated) of parsing a document, accepted or rejected, from text or from a reader, grow at most in proportion to its length, whatever part of it is repeated or long: repeating any part four times as often costs about four times as much.
The same holds for displaying, printing, comparing and cloning results, locating a position, one splice, finding a global argument, decomposing a reference and resolving one without variables; splitting into stages, splicing every instruction in turn and substituting all variables of a text with plain values grow at most with the square.""",
["inputs"],"all documents made by repeating any part any number of times between any beginning and end, well formed or not",
"No test has more than a few lines, and none measures cost; super-linear backtracking or copying only shows on long inputs.",
[G,D,U,S,I,T]+[N+x for x in("from.rs","copy.rs","label.rs","env.rs","arg.rs","run.rs","cmd.rs","entrypoint.rs","misc.rs")],[("ordered choices and repetitions of the grammar",G),("parse_dockerfile and the from_record functions",D+", "+N+"*.rs"),("parse_any_breakable, parse_string_array",U),("Splicer::splice, Span::relative_span",S)],["edges executed by every operation","bytes allocated by every operation"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
