#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
H = "src/ast/helpers.rs"
E = "src/ast/expression/mod.rs"
F = "src/ast/expression/function.rs"
T = "src/ast/type_/mod.rs"
S = "src/ast/statement/mod.rs"
DUMP = "src/dump.rs"
OBS = ["standard output and exit status of elm-parser-dump FILE",
       "the tree ast::file returns (guarded hook verif_parse)"]
HOOK = "verif_parse(text) -> Option<Debug form of the tree>, guarded by cfg(elm_parser_verif)"

def P(id, title, statement, over, text, why, files, mech, observe=None, hook=HOOK, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or OBS, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

props = [
P("C01", "Every text gets a verdict: no crash, no hang, no randomness",
  "For every UTF-8 text the parser ends with either a syntax tree or a parse error: it never panics, aborts or runs away in time, whatever the sizes, characters or nesting in the text. The verdict and the tree depend on the text alone, so parsing it again gives the same answer.",
  ["inputs"], "every text: any characters, lengths, counts and nesting depths, complete or cut off anywhere, well formed or not",
  "The tests run about 150 short hand-written snippets, nearly all well formed; a panic or a blow-up needs a particular character, size, truncation point or nesting.",
  ["src/ast/mod.rs", H, E, T, "src/ast/statement/infix.rs", "src/ast/expression/character.rs"],
  [("every production consumes something or fails", H), ("integer conversion failure is a parse failure", "src/ast/statement/infix.rs"),
   ("left-to-right ordered choice without re-reading on the accepting path", E)]),
P("C02", "A file is read whole: every statement, once, in order, up to the end",
  "When a text is accepted, the tree has exactly the top-level statements of the text, each once and in the order written, and they together with the white space between and around them make up the whole text. Text with anything left over after its last complete statement, and text without a statement, is rejected; no prefix of a file is ever silently taken for the file.",
  ["inputs"], "every sequence of statements of every kind, of every length, with every separator, and every text with something left over",
  "Tests parse single statements or compare a few multi-statement files; dropped, merged, repeated or reordered statements need particular neighbours, counts or tails.",
  [S, "src/ast/mod.rs"],
  [("statements separated by white space", S), ("terminated by end of input", "src/ast/mod.rs")],
  state=[("pos", "first character not yet read", "parser input slice"), ("out", "statements read so far", S)]),
P("C03", "Statements are independent of their neighbours",
  "The tree of a file made of several complete statements separated by blank lines is the concatenation of the trees of those statements parsed on their own. What one statement contains never changes how another one is read.",
  ["inputs", "histories"], "every pair and longer sequence of statement kinds, in every order, with every gap the dialect allows between two statements",
  "The tests cover a handful of orders; interference needs a particular predecessor, such as a comment, a signature or an import before a particular statement.",
  [S, "src/ast/statement/comment.rs", "src/ast/statement/import.rs", F],
  [("ordered choice of statement kinds", S), ("optional parts backtrack to the end of the statement", "src/ast/statement/import.rs")]),
P("C04", "Module headers, imports and exposing lists are read exactly",
  "A plain, port or effect module declaration and an import yield exactly the dotted module name, alias and exposing list that are written: all entries, once each, in order, an operator as its name, a type with none, all or the listed constructors, and `(..)` as everything. Leaving out the alias or the exposing list of an import is reported as absent and is different from an empty or full one.",
  ["inputs"], "every module name depth, every combination of alias and exposing, every exposing list of any length and mix of entries, in every allowed layout",
  "Tests sample about ten headers; the combinations of optional parts, entry kinds, positions, counts and layouts are unbounded.",
  ["src/ast/statement/module.rs", "src/ast/statement/import.rs", "src/ast/statement/export.rs"],
  [("exposing list with comma separated entries", "src/ast/statement/export.rs"), ("module forms", "src/ast/statement/module.rs")]),
P("C05", "Types are read faithfully wherever they occur",
  "In every place a type may stand (alias, union constructor argument, signature, port, inside other types) it is read with its exact structure: function arrows group to the right, a constructor has exactly its arguments in order, a qualified name keeps all its parts, records, extensible records and tuples keep all fields and entries in order, and parentheses only group. A type or alias declaration keeps its head, parameters and all its constructors in order.",
  ["inputs"], "every type expression, every nesting of arrows, constructors, records, extensible records, tuples and parentheses, in every place and layout",
  "The tests check some twenty small types; wrong grouping or a lost part needs a particular combination of nesting, position and layout.",
  [T, "src/ast/statement/type_declaration.rs", "src/ast/statement/port.rs", F],
  [("arrow fold to the right", T), ("bracketed and constructor types", T), ("declaration heads", "src/ast/statement/type_declaration.rs")]),
P("C06", "Applications and operator chains keep every operand, in order",
  "Function application groups to the left with every argument kept in order, and binds tighter than any operator. A chain of binary operators keeps every operand and operator in the order written and nests to the right in the tree, whatever the operators are and however the chain is spread over lines; an operator in parentheses is that operator as a function.",
  ["inputs"], "every chain length, every operator, every kind of operand and argument, every layout of the chain",
  "Tests use chains of two or three operators and a few arguments; a fold can be wrong only for longer chains, particular operators or particular operands.",
  [E, H, "src/ast/binop.rs"],
  [("application fold", E), ("operator chain fold", E), ("operator lexeme", H)]),
P("C07", "Compound expressions keep all their parts",
  "Every if, let, case, lambda, tuple, list, record, record update, field access, access function, unit and parenthesised expression is read as exactly that form with exactly its sub-expressions, patterns and fields, in order, none lost, added or exchanged, at any nesting of forms inside one another. Parentheses around an expression only group, they leave no trace in the tree.",
  ["inputs"], "every nesting of every expression form inside every slot of every other, with any number of entries",
  "Tests check each form with simple contents; confusion between forms (record and update, tuple and parentheses, access and module path) depends on what is nested where.",
  [E, F, "src/ast/expression/access.rs", "src/ast/expression/access_function.rs", "src/ast/expression/variable.rs"],
  [("ordered choice between forms with a common prefix", E), ("access and variable", "src/ast/expression/access.rs")]),
P("C08", "Indentation alone decides which block a line belongs to",
  "The branches of a case and the definitions of a let are exactly those that start in the column of the first one: an entry further left ends the block and belongs to an enclosing block with that column, or to none, and then the text is rejected, while deeper lines continue the current entry. A declaration's body is indented more than the declaration. This holds for every indentation width and every nesting of blocks.",
  ["inputs"], "every assignment of columns to the lines of nested case, let, lambda, if and application blocks, at every width and depth",
  "The tests contain a few correctly indented blocks of width 4; almost every other assignment of columns, in particular wrong or mixed ones, is never tried.",
  [H, E, F],
  [("spaces_or_new_lines_and_indent with EQ, GT, GTE", H), ("case and let blocks", E)],
  state=[("indentation", "column of the enclosing block", "parameter threaded through every production")]),
P("C09", "Layout carries no meaning",
  "Two files that differ only in optional layout give the same tree: how many spaces or blank lines there are, where a line is broken, where the dialect allows white space to be left out or a line comment to stand inside an expression or type, how deep the consistent indentation is, and redundant grouping parentheses.",
  ["inputs"], "every construct, every layout slot of it, every combination of allowed layouts",
  "Each test fixes one layout; a layout-dependent result shows only for a particular construct with a particular layout in a particular slot.",
  [H, E, T, "src/ast/statement/export.rs", "src/ast/statement/module.rs"],
  [("layout primitives", H), ("layout slots of each production", E)]),
P("C10", "Names, operators and literals are reported verbatim",
  "Every identifier, operator, number, character and string in the tree is exactly what the text says: same characters, same length, nothing trimmed, normalised, decoded or cut, whatever its length and characters (numbers of any size with sign and leading zeros, strings with escapes, quotes, line breaks or any Unicode, every character code \\x00 to \\xFF as its code point).",
  ["inputs"], "every name, operator, number, character and string literal, in every place such a token may stand",
  "Tests use a dozen short ASCII literals; the value space is unbounded and errors sit at particular characters, lengths or escapes.",
  [H, "src/ast/expression/string.rs", "src/ast/expression/character.rs", "src/ast/expression/integer.rs", "src/ast/expression/float.rs", "src/ast/expression/variable.rs"],
  [("lexeme productions", H), ("string forms", "src/ast/expression/string.rs"), ("character codes", "src/ast/expression/character.rs")]),
P("C11", "Reserved words and symbols are never names; longer names are",
  "A reserved word (module where import as exposing type alias port if then else let in case of) is never accepted as a value, argument, field or port name, and a reserved symbol (= . .. -> -- | :) never as an operator. A name or operator that merely begins with or contains a reserved one is an ordinary name or operator everywhere.",
  ["inputs"], "every reserved word and symbol, every extension of it, in every place a name or operator may stand",
  "Tests try two or three keywords in one place; the property quantifies over the product of words, extensions and places.",
  [H, "src/ast/expression/variable.rs"],
  [("reserved word list", H), ("reserved operator list", H)]),
P("C12", "Comments and strings are opaque",
  "A top-level comment is kept as a statement with exactly its text, a line comment to the end of its line and a block comment to its first closing mark, and a string literal ends exactly at its first unescaped closing quote. Nothing inside a comment or a string is ever interpreted: any code, quotes, comment marks, keywords or brackets there leave the reading of the rest of the file unchanged.",
  ["inputs"], "every text inside every kind of comment and string, followed and preceded by every other construct",
  "Tests use plain words as comment and string contents; the property is about every content that looks like something else.",
  ["src/ast/statement/comment.rs", "src/ast/expression/string.rs", H],
  [("comment statements", "src/ast/statement/comment.rs"), ("string bodies", "src/ast/expression/string.rs"), ("line comments as layout", H)]),
P("C13", "Exactly the dialect's language is accepted",
  "Text that is not in the dialect is rejected as a whole: a missing or extra bracket, comma, operator, keyword, field, arrow or branch, two tokens run together or an unfinished construct never yields a tree. Text that is in the dialect is never rejected.",
  ["inputs"], "every text, in particular every near miss of a well-formed one: one token or character deleted, inserted, exchanged or repeated anywhere",
  "There are a few negative tests; the near misses of one small file alone are thousands.",
  [E, T, S, H, F], [("every production", "src/ast"), ("end of input after the statements", "src/ast/mod.rs")]),
P("C14", "Function, port and infix declarations are read exactly",
  "A function keeps its signature or its absence, its name (also an operator in parentheses), its parameters and their patterns in order, and its body, at top level and in a let; a port declaration, with a type or with a body, keeps its name, parameters, type or body; an infix declaration keeps its direction, the exact precedence and its operator. None is ever read as another kind of declaration.",
  ["inputs"], "every name, number and form of parameters, precedence and operator, with and without signature, in every layout",
  "The tests sample a few declarations of each kind; mixing up forms or losing a parameter needs particular names, patterns or counts.",
  [F, "src/ast/statement/port.rs", "src/ast/statement/infix.rs"],
  [("signature then definition", F), ("port forms", "src/ast/statement/port.rs"), ("infix forms", "src/ast/statement/infix.rs")]),
P("C15", "The dump tool prints exactly the file's tree or its failure",
  "For every file given to elm-parser-dump, standard output is exactly the tree of that file's whole content when it parses and exactly one error report when it does not, with nothing else printed; with the quiet option it is exactly one line that names the file and tells success from failure, in agreement with the run without it. The name and location of the file play no part in its verdict.",
  ["inputs", "configurations"], "every file content and size, every file name, with and without the quiet option in both spellings and places",
  "No test runs the command line tools at all.",
  [DUMP], [("dump_file", DUMP), ("option handling", DUMP)],
  observe=["standard output, standard error and exit status of elm-parser-dump"], hook=None),
P("C16", "A directory dump reports every .elm file once, whatever the others are",
  "Given a directory, elm-parser-dump reports on every file with the extension elm in it, at every depth and of every name, exactly once and on nothing else. Each file's report is the one it gets when dumped alone: a file that does not parse or cannot be read changes nothing about the others.",
  ["inputs", "configurations", "fault_sequences"], "every directory tree: depth, names, mixtures of good, bad, unreadable, empty and foreign files, directories named like files",
  "No test runs the command line tools at all.",
  [DUMP], [("dump_directory", DUMP), ("error handling in dump_file", DUMP)],
  observe=["standard output and exit status of elm-parser-dump DIR"], hook=None,
  state=[("pending", "entries of the tree not yet visited", DUMP), ("report", "lines printed so far", DUMP)]),
P("C17", "The check tool lists exactly the values exposed by imports",
  "For every file that parses, elm-parser-check prints exactly the list of value and operator names that the file's imports expose by name, in the order written and with repetitions kept; imported modules, types, constructors and `(..)` add nothing, and no other statement does. For a file that does not parse it prints a parse error and no list.",
  ["inputs"], "every file: any number, order and mix of imports with any exposing lists among any other statements",
  "No test runs the command line tools at all.",
  ["src/check.rs", "src/ast/statement/import.rs", "src/ast/statement/export.rs"],
  [("get_imported_names", "src/check.rs"), ("get_export_set_imports", "src/check.rs")],
  observe=["standard output and exit status of elm-parser-check FILE"], hook=None),
P("C18", "A parse error shows exactly the text that could not be read",
  "When a file is rejected, the error report of elm-parser-dump and elm-parser-check quotes exactly the rest of the file from the first place that could not be read: everything before it is white space and complete statements that were read, nothing of the unread text is left out, changed or repeated, and it is the same text every time.",
  ["inputs"], "every rejected text: any statements before the error, any error, any text after it, any white space between",
  "No test looks at an error at all, only at whether there is one.",
  [S, "src/ast/mod.rs", DUMP, "src/check.rs"],
  [("statements read until one fails", S), ("end of input", "src/ast/mod.rs"), ("error report", DUMP), ("error report", "src/check.rs")],
  observe=["standard output of elm-parser-dump FILE and elm-parser-check FILE"], hook=None,
  state=[("pos", "where reading got stuck", S)]),
P("C19", "Command lines: options anywhere, and no report without a readable path",
  "elm-parser-dump takes one path, and the quiet option in either spelling before or after it, with the same result; after `--` every word is a path. Without a path it prints nothing. An unknown option, a second path or a repeated option is refused, and a path that does not exist fails: then there is no report on standard output and the exit status is not 0. elm-parser-check takes its first word as a path; without one it prints its usage and fails, and for a path that does not exist, is a directory or is not UTF-8 text it fails with no list and no parse error.",
  ["inputs", "configurations"], "every sequence of words on the command line of either tool",
  "No test runs the command line tools at all.",
  [DUMP, "src/check.rs"], [("main", DUMP), ("main", "src/check.rs")],
  observe=["standard output and exit status of elm-parser-dump and elm-parser-check"], hook=None,
  state=[("words", "words of the command line taken so far", DUMP)]),
P("C20", "Names carry no meaning",
  "Replacing the names in a text by other names of the same kind (values, fields and type variables by lower case names that are not reserved; modules, types and constructors by capitalised names) changes nothing in its tree but these names: no name, no equality of two names and no length of a name makes the parser accept, reject, group, merge or drop anything.",
  ["inputs"], "every construct with every choice of names, in particular equal ones, well-known ones, ones that contain reserved words, and long ones",
  "The tests use a few fixed names; special treatment of one name, or of two equal names, is invisible to them.",
  [E, T, S, H, F, "src/ast/statement/import.rs", "src/ast/statement/export.rs"],
  [("identifier productions", H), ("every production with names", "src/ast")]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
