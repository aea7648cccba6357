"""The properties and the harnesses that decide them. tools/gen_meta.py writes properties.jsonl and
MANIFEST.json from this file."""

CRATES = {
    "harness": {"dir": "harness", "lib": "harness"},
    "harness-lsp": {"dir": "harness-lsp", "lib": "harness"},
}


def H(fn, quick, thorough, tq, tt, bounds, reach=(), crate="harness", **kw):
    """fn: harness; quick/thorough: its parameters per tier (None: not run); tq/tt: seconds."""
    return dict(fn=fn, crate=crate, params={"quick": quick, "thorough": thorough}, time={"quick": tq, "thorough": tt},
                bounds=bounds, reach=list(reach), **kw)


PROPS = {}


def P(id, title, statement, over, quant, why, files, mech, harnesses=(), na=None, assumptions=()):
    assert len(title) <= 80, title
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                     harnesses=list(harnesses), na=na, assumptions=list(assumptions))


DM = "crates/dreammaker/src/"
DT = "crates/dmm-tools/src/"
DC = "crates/dreamchecker/src/"
IT = "crates/interval-tree/src/"
LS = "crates/dm-langserver/src/"

P("C03", "Map coordinates and tile keys convert exactly in both directions",
  "Every dictionary key is written with exactly as many letters as the largest key in the map needs, most significant letter first, "
  "and different keys have different spellings in key order. A map cell is the same whether it is addressed by (x, y, z), through its "
  "z-level, or met while iterating a level, with x growing east, y growing north from the bottom row and z growing from 1; iteration "
  "visits every cell of a level exactly once, top row first.",
  ["inputs"], "every key up to the format's maximum with every maximum key; every cell of every small map shape",
  "the tests load a handful of maps and compare nothing about addressing or key spelling",
  [DT + "dmm.rs"], [("key spelling", DT + "dmm.rs FormatKey, adjust_key_length"), ("raw/BYOND coordinate conversion", DT + "dmm.rs Coord2::to_raw, from_raw, Coord3::to_raw")],
  [H("h_keys", [], [], 30, 60, "all 65535 keys with all maxima (16-bit symbolic)", ["keys"]),
   H("h_coords", [], [], 30, 60, "maps up to 3x3x2, every cell, symbolic coordinates", ["coords"])])

P("C04", "Sprite sheet metadata tiles the sheet and finds each sprite's rectangle",
  "For well-formed icon metadata, states occupy consecutive runs of directions x frames sprites in file order, duplicates of a name are "
  "numbered in order, and looking up a state by name and number finds that state; frame delays and flags are those written. Every (direction, frame) of a state maps to its own "
  "sprite slot inside the state's run, and its rectangle is that slot of the sheet, row by row, icon-sized. Malformed metadata is "
  "reported as an error, never a crash.",
  ["inputs"], "every metadata text in the bounded grammar, every direction and frame, two sheet widths; arbitrary short values for malformed texts",
  "the tests parse a few valid icons and compare a few fields; nothing ranges over layouts, directions or malformed text",
  [DM + "dmi.rs", DT + "dmi.rs"],
  [("metadata parser", DM + "dmi.rs parse_metadata"), ("sprite index", DM + "dmi.rs State::index_of_frame, index_of_dir"), ("rectangle", DM + "dmi.rs Metadata::rect_of")],
  [H("h_sheet", [2], [3], 60, 600, "up to 2 (thorough 3) states, names a/b, dirs 1/4/8, frames 1-3 given by count, delays or both; icon sizes 1-2 x 1-9; sheets 1 or 3 icons wide", ["sheet"]),
   H("h_sheet_total", [2, 3], [3, 4], 60, 300, "2 (3) arbitrary lines after the header, values up to 3 (4) symbolic characters", ["ok", "err"]),
   H("h_sheet_header", [], [], 20, 20, "any one byte of the first three lines replaced by any ASCII byte", ["ok", "err"])])

P("C05", "Directions form the compass: flips, turns and steps agree with offsets",
  "The eight directions convert to and from BYOND's bit values exactly, and every flip, quarter turn and eighth turn changes the "
  "direction's unit step as the name says, so that opposite turns cancel and four quarter turns are the identity. Stepping a map coordinate "
  "in a direction adds that unit step, with north increasing y and east increasing x.",
  ["inputs"], "every 32-bit integer as a direction value, every pair of directions, every 16-bit coordinate",
  "no test touches directions; a wrong entry in a turn table shows up only as a wrongly facing sprite",
  [DM + "dmi.rs", DT + "dmm.rs"], [("direction tables", DM + "dmi.rs impl Dir"), ("stepping", DT + "dmm.rs impl Add<Dir> for Coord2")],
  [H("h_dirs", [], [], 30, 60, "all 2^32 integers, all directions, all 16-bit coordinates", ["dir"])])

P("C06", "Drawing a sprite blends source over destination and touches only its area",
  "Compositing a source rectangle onto a destination changes exactly the covered pixels, taking each from the matching source pixel; the "
  "resulting alpha is the source-over alpha, an opaque source replaces the colour, a fully transparent one leaves it, and every resulting "
  "channel lies between the two channels blended. The tint multiplies each source channel, alpha included, before blending. No input "
  "makes it overflow or panic while the rectangles lie inside their images.",
  ["inputs"], "all channel values, all alphas (quick: a selection), all tints, all rectangles inside small images",
  "no test composites anything; wrong blends appear only as off-colour minimaps",
  [DT + "dmi.rs"], [("blending", DT + "dmi.rs Image::composite, mul255")],
  [H("h_over", [0], [1], 60, 700, "all source and destination channel values; quick: 12 source alphas x 32 destination alphas, thorough: all 65536 alpha pairs", ["over", "opaque", "transparent"]),
   H("h_tint", [], [], 30, 60, "all channel, alpha and tint values", ["tint"]),
   H("h_blit", [], [], 60, 60, "a 2x3 source on a 3x2 destination and the reverse, every position and rectangle that fits", ["blit"])])

P("C07", "The interval tree is a sorted, balanced multimap of closed ranges",
  "After any history of insertions, removals and merges, the tree holds exactly the inserted values whose key was not removed later, "
  "iterates them in key order with equal keys in insertion order, and stays height-balanced. A range query returns exactly the entries "
  "whose closed interval meets the query, and point lookups, minimum and maximum agree with iteration.",
  ["histories", "inputs"], "every history of bounded length over arbitrary byte ranges, every query range",
  "the tests run a few random histories; which rotations and which max-bound updates they reach is chance",
  [IT + "tree.rs", IT + "node.rs", IT + "iterators.rs"],
  [("AVL rotation and max maintenance", IT + "node.rs Node::insert, delete, update_*, rotate_*"), ("range iteration", IT + "iterators.rs RangePairIter, IterPair")],
  [H("h_itree_map", [3], [4], 60, 500, "every history of 3 (thorough 4) insert/remove operations with arbitrary byte bounds, then any query, lookup, merge or consumption", ["range", "get", "into_iter", "merge"]),
   H("h_itree_deep", [5, 1], [7, 1], 60, 300, "5 (7) insertions in every order, 1 removal, two symbolic ends, any range query", ["deep"])])

P("C31", "The server's copy of a document is what the editor shows",
  "After any sequence of changes, each a whole text or a replacement of a range counted in UTF-16 units, the server holds exactly the text the editor has. A change whose range is outside "
  "the text or reversed, or whose version is not newer, is refused and leaves the text and version as they were. A position stands for the same character in both directions.",
  ["inputs", "histories"], "every text and replacement of up to the given number of pieces (ASCII, two-, three- and four-byte characters, line breaks), every symbolic range, over sequences of changes",
  "no test edits a document",
  [LS + "document.rs"], [("changes", LS + "document.rs Document::change"), ("positions", LS + "document.rs total_offset, offset_to_position")],
  [H("h_doc_edits", [2, 1, 1], [3, 1, 1], 40, 200, "texts of up to 2 (3) pieces out of 6, an insertion of up to 1 piece, any range, versions", ["edit", "bad", "whole", "older"], crate="harness-lsp", max_instrs=200000000),
   H("h_doc_edits", None, [1, 1, 2], 40, 300, "texts of up to 1 piece, two changes in a notification", ["edit", "bad"], crate="harness-lsp", max_instrs=200000000),
   H("h_doc_positions", [3], [4], 30, 120, "texts of up to 3 (4) pieces, any position", ["range", "outside"], crate="harness-lsp", max_instrs=200000000)])

P("C32", "Colors in code are found where they stand and rewritten as the same color",
  "Every #rgb, #rgba, #rrggbb and #rrggbbaa string, and every rgb() call of three or four numbers from 0 to 255, is reported as a color with exactly its channels and exactly its extent, and nothing else is. Choosing a color "
  "rewrites it in the form it was written in, and reading that back gives the chosen color.",
  ["inputs"], "every character of a hex color; every digit of the numbers of an rgb(); every 8-bit channel of the chosen color",
  "no test covers colors",
  [LS + "color.rs"], [("finding", LS + "color.rs extract_colors"), ("writing", LS + "color.rs ColorFormat")],
  [H("h_colors_hex", [2], [3], 50, 200, "strings of 2 (3) symbolic characters after the #, in their surroundings", ["colour", "none"], crate="harness-lsp", max_instrs=200000000),
   H("h_colors_rgb", [2], [3], 30, 100, "2 (3) symbolic characters within an rgb() call", ["colour", "none"], crate="harness-lsp", max_instrs=200000000),
   H("h_colors_format", [0, 2], [1, 4], 40, 200, "9 forms, 2 (4) fully symbolic channels of the chosen color", ["rewritten"], crate="harness-lsp", max_instrs=200000000),
   H("h_colors_present", [], [], 60, 100, "any value of one channel, two of the others, 9 forms, in a document", ["presented"], crate="harness-lsp", max_instrs=200000000)])

P("C34", "Going to a name's definition leads to what the name means there",
  "From any letter of a name of a variable, proc or type in code, going to the definition leads to the local declaration in the innermost block around it, the parameter, the nearest definition on the type the name is looked up on and its "
  "parents, or the global - the one the language resolves it to - and to nothing if there is none; going to the type definition leads to the declared type.",
  ["inputs"], "every combination of declarations and overrides over a chain of types and the global scope, every form of access from every scope, every place an expression can stand in, any letter of the name",
  "no test opens a workspace",
  [LS + "main.rs", LS + "find_references.rs", DM + "parser.rs"], [("lookup", LS + "main.rs find_unscoped_var, find_scoped_type, symbol_id_at"), ("annotations", DM + "parser.rs annotate"), ("spans", "crates/interval-tree")],
  [H("h_names_resolve", [0], [0], 60, 120, "a variable: 6 layouts of declarations over 4 types, 5 forms of access, 10 kinds of local shadowing", ["nothing", "member", "local", "typed"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_resolve", [1], [1], 50, 120, "a proc: as above", ["nothing", "member", "typed"], crate="harness-lsp", max_instrs=200000000)],
  assumptions=["names after :: are not looked up", "how members reached through : are found is left open"])

P("C35", "Finding references gives exactly the uses of what is asked for",
  "The references listed for a variable, proc or type are exactly the uses of it in procs and initial values, wherever an expression can stand, each once; uses of another of the same name - a local, a member of an unrelated type, "
  "the global - are not among them. Its implementations are the lines defining or overriding it.",
  ["inputs"], "every kind of use in each of 61 expressions (nested in each other: thorough) in each of 41 statements and 12 blocks",
  "no test asks for references",
  [LS + "find_references.rs"], [("walk", LS + "find_references.rs WalkProc"), ("table", LS + "find_references.rs ReferencesTable")],
  [H("h_names_places", [0, 0, 0], [0, 0, 0], 60, 120, "a global variable in 61 expressions in 41 statements", ["used", "several"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", [2, 1, 0], [2, 1, 0], 40, 60, "a proc's call in 61 expressions in 12 blocks", ["used", "several"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", [3, 2, 0], [3, 2, 0], 20, 60, "a type in 61 expressions in initial values", ["used"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", [5, 1, 0], [5, 0, 0], 40, 120, "a member of a typed variable in 61 expressions in 12 blocks (41 statements)", ["used", "several"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", None, [1, 0, 0], 40, 120, "a member through src", ["used"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", None, [4, 0, 0], 40, 120, "a path to a proc", ["used"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", None, [7, 0, 0], 40, 120, "a call on a typed variable", ["used"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", None, [8, 0, 0], 40, 120, "a global after ::", ["used"], crate="harness-lsp", max_instrs=200000000),
   H("h_names_places", None, [6, 3, 1], 40, 120, "61 expressions within 61", ["used"], crate="harness-lsp", max_instrs=200000000)],
  assumptions=["keys of keyword arguments, the declared types of parameters and of object variables are not counted as uses"])

P("C33", "Map layers sort in the order of the numbers they come from",
  "Converting a drawing layer to its sort key preserves order: a smaller layer never sorts after a larger one, the key's value is the "
  "layer rounded down to a 65536th, and whole-number layers given as integers or floats give the same key.",
  ["inputs"], "every float of magnitude below 2^15 (quick: at least 2^-27) and every 16-bit integer",
  "no test converts layers; mis-sorting needs particular fractions or negative layers",
  [DT + "minimap.rs"], [("fixed-point layer", DT + "minimap.rs impl From<f32> for Layer")],
  [H("h_layer", [100], [0], 90, 200, "all floats with |f| < 2^15, quick: exponents from 2^-27 up", ["layer"]),
   H("h_layer_whole", [], [], 30, 30, "all pairs of 16-bit integers")])

P("C01", "A saved map loads again as the same map",
  "Writing a map and loading the result gives a map with the same size, the same key in every cell, the same dictionary, the same prefabs in "
  "order, and the same variables in order with equal values. This holds for strings with quotes, escapes, braces, separators, tabs and newlines, "
  "for resources, numbers of up to six digits, paths, lists and constructor calls.",
  ["inputs"], "every small map with prefabs whose string and resource values are arbitrary short texts over the significant characters",
  "one test saves and reloads a fixed map; which characters break quoting is not sampled",
  [DT + "dmm/read.rs", DT + "dmm/save_tgm.rs", DM + "constants.rs", DM + "lexer.rs"],
  [("writer", DT + "dmm/save_tgm.rs save_tgm"), ("reader", DT + "dmm/read.rs parse_map"), ("value formatting", DM + "constants.rs Display for Constant; lexer.rs Quote, FormatFloat"), ("value parsing", DM + "constants.rs evaluate_str")],
  [H("h_dmm_roundtrip", [3], [5], 60, 400, "maps 1x1x1, 2x1x1 and 1x2x2 with arbitrary cells, keys a/b/ba/baa; one prefab with up to 2 variables, values null, 9 numbers, any string of 3 (5) characters from a\\\"}{;/@ tab newline space, any 2-character resource from a./;}, and comma, path, list, new", ["roundtrip", "string", "two vars"]),
   H("h_dmm_roundtrip_numbers", [3], [5], 40, 300, "numbers of up to 3 (5) significant digits out of 0 1 9 4 from 1e-12 to 1e12, of up to 2 digits from 1e-37 to 1e38, either sign", ["number"])],
  assumptions=["a string holding an unescaped quote directly before a closing brace, or a backslash that escapes nothing, denotes no literal and is not considered"])

P("C02", "Map files load exactly as written, and damaged ones give an error",
  "Loading a well-formed map in either the classic or the TGM layout, with either line ending, puts in every cell the key written at its "
  "place and in the dictionary exactly the prefabs, variables and values written, in order. Any other file gives a map or an error: it never "
  "crashes, loops or allocates without bound.",
  ["inputs"], "every small map in both layouts with arbitrary keys and string values; every file differing from a valid one in a few bytes",
  "tests load three fixed maps; layouts, key lengths, tricky strings and damaged files are not covered",
  [DT + "dmm/read.rs", DT + "dmm.rs"],
  [("dictionary and grid state machine", DT + "dmm/read.rs parse_map"), ("key accumulation", DT + "dmm.rs advance_key, base_52_reverse")],
  [H("h_dmm_grid", [0], [0], 40, 60, "1x1 and 2x1 maps, key length 1-3 with any letter in any position, both layouts and line endings, with and without final newline", ["tgm", "dmm"]),
   H("h_dmm_grid", [1], [1], 40, 60, "11 shapes up to 3x2x1 and 2x1x2, arbitrary cells, 3 pairs of keys per length, both layouts and line endings", ["tgm", "dmm"]),
   H("h_dmm_dict", [3], [5], 40, 300, "a prefab variable with any one-letter name whose value is any string of 3 (5) characters out of 13, a number, null, path, block string or list; both layouts; the name followed by any of five kinds of blanks and =; followed by more variables, prefabs and keys", ["string", "second"]),
   H("h_dmm_total", [1], [2], 40, 600, "two valid files with up to 2 bytes removed and up to 1 (2) arbitrary bytes put in at any place", ["ok", "err"]),
   H("h_dmm_numbers", [4], [12], 20, 60, "each coordinate any 4 (12) digits out of 0129", ["err"])])

P("C08", "Any bytes lex to an end, every token placed at its first character",
  "Turning source bytes into tokens ends for every input, never crashes, and always ends with a line break. Each token carries the line and "
  "column of its first character, counting lines from 1 and every byte as one column, whatever comments, strings, continued lines or invalid "
  "bytes come before it. Malformed text (an unclosed literal or comment, a bad number, an illegal byte) is reported as an error, and nothing else is.",
  ["inputs"], "all byte strings of bounded length in 18 kinds of surroundings",
  "tests lex a few valid snippets; positions and malformed text are hardly looked at",
  [DM + "lexer.rs"], [("token loop", DM + "lexer.rs impl Iterator for Lexer"), ("positions", DM + "lexer.rs LocationTracker::next")],
  [H("h_lex_any_bytes", [1], [2], 30, 600, "any 1 (2) bytes in each of 18 surroundings: plain, in every kind of literal and comment, in numbers, after # and #warn, after a byte order mark, at a continued line", ["ok", "err"]),
   H("h_lex_pieces", [4], [5], 60, 500, "4 (5) pieces out of 25: marks of every literal and comment, directives, number prefixes, blanks and an illegal byte", ["ok", "err"]),
   H("h_lex_blanks", [4], [6], 30, 200, "4 (6) bytes out of tab space newline CR backslash a / before an indented line", ["ok"])])

P("C09", "Operators, names and numbers are split and valued as the language says",
  "Of the operators that fit at a position the longest is the token. A number's value is what its decimal, octal (leading 0) or hexadecimal (0x) "
  "digits denote, underscores ignored; one too large for 32 bits becomes the nearest float if decimal; fractions, exponents, 1.#INF and 1.#IND "
  "are floats. Names are maximal runs of letters, digits and underscores, `in` is an operator, and a colon directly between a value and what "
  "follows is the kind that accesses members.",
  ["inputs"], "every short run of operator characters, every short number in each radix, every short word",
  "tests cover single examples of a few operators and numbers",
  [DM + "lexer.rs"], [("operators", DM + "lexer.rs read_punct, PUNCT_TABLE, check_close"), ("numbers", DM + "lexer.rs read_number, read_number_inner"), ("names", DM + "lexer.rs read_ident")],
  [H("h_lex_ops", [3], [4], 30, 600, "runs of 3 (4) out of 24 operator characters, followed by a letter, = or blank", ["ok"]),
   H("h_lex_ints", [3], [6], 30, 300, "1-3 (6) symbolic digits: decimal, octal, hexadecimal, and in names", ["ok", "err"]),
   H("h_lex_big_ints", [3], [4], 20, 100, "2147483 followed by any 3 (4) digits, and ten times that", ["ok"]),
   H("h_lex_floats", [3], [5], 30, 200, "7 prefixes followed by any 3 (5) of 0 7 . e E + - _ x", ["ok", "err"]),
   H("h_lex_words", [4], [6], 30, 400, "4 (6) of i n _ Z 9 a blank tab newline (", ["ok"]),
   H("h_lex_colons", [4], [6], 30, 400, "4 (6) of a : ] ) blank newline ? . 1", ["ok"])])

P("C10", "String and resource literals hold exactly the text between their marks",
  "A string, block string, raw string or resource ends at its own end mark and nowhere else: an escaped or embedded quote, a lone quote in a "
  "block string, or a bracketed expression with its own strings inside does not end it. Its text is every byte between, escapes kept for later "
  "in strings and removed in resources, with a backslash and line break continuing on the next line after its blanks. A bracket splits a string into "
  "parts around the tokens of the expression. An unclosed literal is an error. The text after #warn and #error is the rest of the line.",
  ["inputs"], "every short text of significant characters in every form of literal",
  "the tests have one example of each form",
  [DM + "lexer.rs"], [("literals", DM + "lexer.rs read_string, read_raw_string, read_resource"), ("interpolation stack", DM + "lexer.rs Iterator::next LBracket/RBracket")],
  [H("h_lex_strings", [6, 0], [7, 0], 30, 300, "6 (7) of \" \\ [ ] a newline in a string", ["ok", "err"]),
   H("h_lex_strings", [6, 1], [7, 1], 30, 300, "6 (7) of \" \\ [ } a newline in a block string", ["ok", "err"]),
   H("h_lex_strings", [6, 2], [7, 2], 30, 300, "6 (7) of ' \\ a \" newline in a resource", ["ok", "err"]),
   H("h_lex_strings", [6, 3], [6, 3], 30, 300, "6 of \" ( { ) a } \\ newline after @", ["ok", "err"]),
   H("h_lex_strings", [5, 4], [6, 4], 30, 300, "5 (6) of \\ newline CR blank tab \" [ in a string", ["ok", "err"]),
   H("h_lex_strings", [5, 5], [6, 5], 30, 300, "5 (6) of \" [ ] { } ? a ' inside a bracketed expression", ["ok", "err"]),
   H("h_lex_strings", [5, 6], [6, 6], 30, 300, "5 (6) of \\ newline [ CR a / after #warn", ["ok"])])

P("C11", "Comments, continued lines and line endings do not disturb the code around",
  "A block comment, with the comments nested in it, and a line comment, with the lines it continues onto, produce no tokens except documentation "
  "comments, which carry their text and whether they describe what follows or what encloses them. Blanks become tokens only at the start of a "
  "line. Outside of string contents, a file with CRLF line endings gives the same tokens on the same lines as with LF.",
  ["inputs"], "every short text over comment marks, line breaks, backslashes and blanks",
  "the tests have no nested, continued or unclosed comments and no CRLF",
  [DM + "lexer.rs"], [("comments", DM + "lexer.rs skip_block_comments, skip_line_comment"), ("blanks and continuations", DM + "lexer.rs skip_ws")],
  [H("h_lex_comments", [6, 0], [8, 0], 30, 300, "6 (8) of / * ! a newline in a block comment", ["ok", "err"]),
   H("h_lex_comments", [5, 1], [7, 1], 30, 300, "5 (7) of / ! \\ newline CR a after //", ["ok"]),
   H("h_lex_comments", [4, 2], [6, 2], 30, 400, "4 (6) of / * ! \\ newline blank \" in code", ["ok", "err"]),
   H("h_lex_endings", [6], [7], 30, 400, "6 (7) of tab blank newline a \\ : \" with either line ending", ["endings"])])

P("C12", "Indentation and braces give the same block structure",
  "Any outline of lines gives the same blocks whether each block is indented, by any consistent width, or enclosed in braces, and blank lines, "
  "comments, parenthesised and continued lines make no difference. On any text at all, what comes out holds the tokens in order, no blanks or line "
  "breaks, every explicit brace and separator, and as many closed as opened blocks, unless an error is reported.",
  ["inputs"], "every outline of bounded size in five indentation widths; every short text of blanks, braces, parentheses and separators",
  "tests parse a few fixed snippets in one layout",
  [DM + "indents.rs"], [("indent levels", DM + "indents.rs IndentProcessor::real_next"), ("end of file", DM + "indents.rs IndentProcessor::next")],
  [H("h_pp_outline", [6, 0], [7, 0], 30, 300, "outlines of 6 (7) lines up to 4 deep, each block indented or braced, 5 widths, both line endings", ["outline"]),
   H("h_pp_outline", [2, 4], [3, 4], 30, 400, "outlines of 2 (3) lines with blank lines, comments, parentheses, continuations, separators", ["outline"]),
   H("h_pp_balance", [6], [7], 30, 500, "6 (7) of tab blank newline a { } ( ) ;", ["ok", "err"])])

P("C13", "Exactly the active branches are compiled, and files are included once",
  "Of each conditional chain the first branch whose condition holds, or else the else branch, is kept, and it is kept only if the enclosing branches are; "
  "directives in skipped branches have no effect. An unmatched or unterminated directive is an error, and no other chain is. An included file's "
  "tokens come in place of the directive, with their own locations; a second inclusion is skipped with a warning unless the file allows it. "
  "No malformed directive crashes the preprocessor.",
  ["inputs", "histories"], "every sequence of conditional directives of bounded length; included files with arbitrary short contents; malformed directives with arbitrary text",
  "tests use fixed nestings of one or two directives",
  [DM + "preprocessor.rs"], [("conditional stack", DM + "preprocessor.rs Ifdef, is_disabled, pop_ifdef"), ("directives", DM + "preprocessor.rs real_next"), ("inclusion", DM + "preprocessor.rs prepare_include_file")],
  [H("h_pp_conditions", [4, 0], [4, 0], 40, 500, "4 lines out of 13: ifdef, ifndef, if, elif, else, endif, define, undef, text, each followed by text; the chains then left open or ended and the macros asked about", ["ok", "err", "closed"]),
   H("h_pp_include", [2], [4], 30, 200, "a file with any 2 (4) of a b newline tab ; included 0-2 times, plain, with pragma multiple, defining a macro, or conditional", ["ok"]),
   H("h_pp_anything", [2], [3], 40, 400, "12 unfinished directives followed by any 2 (3) of 15 characters", ["ok", "err"])])

P("C14", "Macros expand to their body with the arguments in place, in the latest form",
  "A use of a macro is replaced by its body, the parameters by the arguments, and the result is expanded again. Commas and parentheses nested in an argument "
  "belong to it; a variadic last parameter takes all the rest; ## joins two names, # quotes an argument. A function-like macro that no parenthesis follows stays a name, "
  "and what follows it is still expanded. A wrong number of arguments is an error. The definition used is the latest one not undefined, "
  "in this file and in code read after it.",
  ["inputs", "histories"], "every short macro body in four kinds of macro, every short argument list for interrelated macros, every bounded history of define and undef",
  "tests have a handful of macros; interactions between nesting, pasting, variadics and rescanning are open",
  [DM + "preprocessor.rs"], [("expansion", DM + "preprocessor.rs real_next Define::Function"), ("definition stack", DM + "preprocessor.rs DefineMap")],
  [H("h_pp_macro_body", [3], [4], 40, 700, "bodies of 3 (4) of x y a 1 # ( , ) + blank, plain, unary, binary and variadic macros, 5 arguments", ["ok", "err"]),
   H("h_pp_macro_args", [4, 0], [5, 0], 40, 300, "calls with 4 (5) of K , ( ) a blank F to 5 macros using each other", ["ok", "err"]),
   H("h_pp_macro_args", [6, 1], [8, 1], 40, 300, "the same calls with 6 (8) of ( ) , a", ["ok", "err"]),
   H("h_pp_macro_stack", [4], [5], 40, 300, "4 (5) steps of define, undef and ifdef of two macros, each followed by a use", ["ok"])],
  assumptions=["a number directly followed by # and a # produced by pasting are not considered; the blanks in a quoted argument are not compared"])

P("C15", "The recorded history tells which macros and branches hold at each line",
  "For every line of a preprocessed file, asking the recorded history about that line gives exactly the macro definitions in force at its start, "
  "oldest first, and says it is compiled exactly when every conditional around it is active.",
  ["histories"], "every bounded sequence of definitions, undefinitions and conditionals, every line",
  "no test queries the history; the language server relies on it to complete and grey out code",
  [DM + "preprocessor.rs", IT + "tree.rs"], [("history", DM + "preprocessor.rs move_to_history, finalize, pop_ifdef, ifdef_history")],
  [H("h_pp_history", [4], [5], 40, 400, "4 (5) lines out of 8: define and undef of two macros, ifdef, else, endif, code; any line queried, at its start, lines of code at any column", ["ok"])])

P("C16", "Constant expressions fold to the value DM gives them",
  "Folding an expression gives DM's value: numbers are 32-bit floats, comparisons give 1 or 0, && and || give the deciding operand, only equal values of one "
  "kind are ==, bitwise results keep 24 bits, strings concatenate, ! and ?: go by DM truth. Anything else, including a shift by 32 or more, is an error, "
  "never a crash. A text has a value only if all of it is one expression. rgb() puts positional and named arguments, in any order, "
  "in their channels and gives the colour's lower-case hex digits, or an error.",
  ["inputs"], "every pair of numbers for every operator, every combination of kinds, short nestings, short expression texts, every rgb() argument order",
  "the tests fold two dozen fixed expressions",
  [DM + "constants.rs"], [("folding", DM + "constants.rs ConstantFolder::expr, unary, binary, term"), ("rgb()", DM + "constants.rs ConstantFolder::rgb"), ("text", DM + "constants.rs evaluate_str")],
  [H("h_const_numbers", [], [], 30, 60, "17 operators on all pairs of non-NaN floats; bitwise ones on 0 to 2^32, shifts below 32", ["ok"]),
   H("h_const_kinds", [12], [12], 30, 60, "25 operators on null, 12 numbers, strings up to 2 characters, resources, paths", ["ok", "err"]),
   H("h_const_nested", [1], [2], 30, 120, "1 (2) wrappings of a value in a unary operator, parentheses, a conditional or a binary operator", ["ok", "err"]),
   H("h_const_evaluated", [6], [7], 30, 200, "6 (7) characters of 1 2 * < ! ( ) blank", ["ok", "err"]),
   H("h_const_rgb", [0, 1], [1, 4], 60, 700, "3 or 4 whole (thorough: fractional) channel values, 1 (all) of them symbolic, any number by position, the rest named in any order, long or short names, with or without space=0", ["rgb"]),
   H("h_const_rgb_spaces", [], [], 30, 30, "HSV and HSL, hues at 60 degree steps, extreme and middle saturation and value, arguments in any order, space given or inferred", ["spaces"]),
   H("h_const_rgb_any", [3], [4], 40, 300, "up to 3 (4) arguments, each an integer, out of range or a string, positional or with any of 12 names", ["ok", "err"])],
  assumptions=["bitwise operators on negative numbers are not considered; HCY is only checked to give a colour"])

P("C17", "A constant shown in DM form reads back as the same constant",
  "The text a constant is displayed as is a DM expression whose value equals the constant: strings and resources with any punctuation, quotes, escapes and "
  "line breaks, numbers of up to six significant digits, lists with associations, constructor calls, new expressions and prefabs with variables.",
  ["inputs"], "all constants of bounded size with string contents over the significant characters",
  "no test displays a constant and reads it back",
  [DM + "constants.rs", DM + "lexer.rs", DM + "ast.rs"], [("display", DM + "constants.rs impl Display for Constant"), ("quoting", DM + "lexer.rs Quote, FormatFloat"), ("reading", DM + "constants.rs evaluate_str")],
  [H("h_const_display", [0, 3, 1, 7], [0, 4, 1, 7], 30, 60, "null, 7 numbers, strings and resources of up to 3 (4) characters", ["display"]),
   H("h_const_display", [1, 1, 1, 2], [1, 1, 2, 3], 30, 400, "lists and calls of 1 (2) items with or without associations, prefabs with 2 variables, new", ["display"]),
   H("h_const_display_numbers", [5], [6], 40, 300, "numbers of up to 5 (6) significant digits out of 0 1 9 4 from 1e-12 to 1e12, of up to 2 digits from 1e-37 to 1e38, either sign", ["number"]),
   H("h_const_display_text", [3], [5], 30, 200, "strings of 3 (5) of 11 punctuation marks, quote, newline, }, 4 escapes; resources of 16 characters", ["resource", "string"])])

P("C18", "Constants are equal exactly when their values are, and then hash alike",
  "Two constants are equal exactly when they have the same kind and contents: numbers by value, any NaN alike; null whatever its declared type; lists and arguments item "
  "by item, keys and associations; prefabs by path and by variables in whatever order. Equality is symmetric and reflexive, and equal constants have equal hashes.",
  ["inputs"], "all pairs of floats; all pairs of constants of bounded size",
  "no test compares structured constants or hashes them; the map dictionary depends on it",
  [DM + "constants.rs"], [("equality", DM + "constants.rs impl PartialEq for Constant, Pop"), ("hashing", DM + "constants.rs impl Hash for Constant, Pop")],
  [H("h_const_equality_floats", [], [], 30, 30, "all pairs of 32-bit patterns", ["equal"]),
   H("h_const_equality", [1, 1, 0], [2, 1, 0], 40, 400, "pairs of constants nested 1 (2) deep: leaves with arbitrary numbers and short strings, lists and calls of 0-2 items, prefabs with up to 2 variables inserted in either order, new", ["equal", "different"])])

P("C19", "Expressions group by DM's precedence and keep every operand",
  "An expression text becomes the tree DM's grammar gives it: binary operators group by the levels from ** down to ||, left to right within a level, then "
  "?: and the assignments, grouping to the right, and `in` loosest. Prefix operators apply outside what follows the operand; member access, calls, "
  "indexing and ++/-- chain from the left. Calls keep their arguments, names and nesting in order; new, locate, pick, input, call, list, prefabs and "
  "interpolated strings keep each of their parts. A text that is not an expression is an error.",
  ["inputs"], "every sequence of binary operators of bounded length, every operand with its prefixes and postfixes, every short argument list, every special form",
  "the tests fix the tree of a few expressions; two operators of adjacent levels rarely meet in them",
  [DM + "parser.rs"], [("operators", DM + "parser.rs Strength, expression_part"), ("operands", DM + "parser.rs group, term, follow"), ("arguments", DM + "parser.rs arguments, pick_arguments, new_arguments")],
  [H("h_parse_ops", [3, 0], [4, 0], 40, 600, "all sequences of 3 (4) of the 42 operators, = and ? : included", ["ok", "err"]),
   H("h_parse_ops", [4, 1], [5, 1], 40, 400, "all sequences of 4 (5) of 17 operators, one or two of each level", ["ok", "err"]),
   H("h_parse_units", [1], [2], 30, 200, "12 kinds of operand with up to 1 (2) of 7 prefixes and up to 1 (2) of 13 postfixes, alone, left or right of an operator, indexed", ["ok"]),
   H("h_parse_arguments", [5], [6], 30, 200, "5 (6) of a 1 , = ( ) + after `f(`", ["ok", "err"]),
   H("h_parse_forms", [], [], 30, 30, "20 forms with 4 x 3 arguments", ["ok"]),
   H("h_parse_slots", [18, 4, 1], [20, 20, 1], 30, 400, "every operator, index, call, argument and special form with any of 18 kinds of expression in one of its slots and 4 in another", ["ok"], max_instrs=200000000),
   H("h_parse_slots", [8, 3, 4], [12, 4, 4], 30, 300, "the same, with less in the slots, in 4 surroundings", ["ok"], max_instrs=200000000),
   H("h_parse_chains", [3, 0], [3, 2], 30, 300, "chains of 3 members, calls, indexes and prefixes and postfixes", ["ok"], max_instrs=200000000),
   H("h_parse_chains", [0, 3], [2, 3], 40, 300, "the same, with 3 prefixes and postfixes", ["ok"], max_instrs=200000000)])

P("C20", "No sequence of tokens stops the parser, and its errors lie in the file",
  "Parsing any sequence of tokens ends with a tree, never a crash or an endless loop: at top level, in a proc body, in a switch, in a for header, in "
  "arguments and in parameters, with and without annotations. Errors are reported at places within the file, and an annotated range does not end before it starts.",
  ["inputs"], "every short sequence of tokens in six kinds of surroundings",
  "tests parse valid code; recovery after an error at an arbitrary place is what the language server lives on",
  [DM + "parser.rs"], [("token stream", DM + "parser.rs peek, take, put_back, eof"), ("recovery", DM + "parser.rs run, proc_parameters, block, read_any_tt")],
  [H("h_parse_anything", [3, 0, 0], [4, 0, 0], 30, 200, "3 (4) of 26 tokens at top level", ["ok", "err"]),
   H("h_parse_anything", [3, 0, 1], [4, 0, 1], 30, 200, "the same, annotating", ["ok", "err"]),
   H("h_parse_anything", [2, 1, 0], [3, 1, 0], 30, 200, "2 (3) of 40 tokens in a proc body", ["ok", "err"]),
   H("h_parse_anything", [3, 1, 1], [3, 1, 1], 60, 200, "3 of 40 tokens in a proc body, annotating", ["ok", "err"]),
   H("h_parse_anything", [2, 2, 1], [3, 2, 1], 30, 200, "2 (3) of 40 tokens in a switch case, annotating", ["ok", "err"]),
   H("h_parse_anything", [2, 3, 1], [3, 3, 1], 30, 200, "2 (3) of 40 tokens in a for header, annotating", ["ok", "err"]),
   H("h_parse_anything", [3, 4, 0], [3, 4, 1], 30, 200, "3 of 40 tokens as arguments", ["ok", "err"]),
   H("h_parse_anything", [2, 5, 1], [3, 5, 1], 30, 200, "2 (3) of 40 tokens as parameters, annotating", ["ok", "err"])])

P("C37", "Each statement becomes its own form, holding exactly its block",
  "Every statement form becomes that form with its parts in order: if with its arms and else, the eight kinds of for, while, do, switch with values, ranges "
  "and default, try and catch, spawn, set, var, return, goto and the rest. Its block holds exactly the statements of that block, whether indented, in braces or "
  "on the same line, and the statements after it follow it.",
  ["inputs"], "every nesting of statement forms of bounded depth, in indented and braced layout",
  "the tests parse fixed bodies and mostly look only at the number of errors",
  [DM + "parser.rs"], [("statements", DM + "parser.rs statement, for_range, simple_statement"), ("blocks", DM + "parser.rs block, statement_terminator")],
  [H("h_parse_statements", [1, 5], [1, 13], 50, 700, "13 compound forms with blocks of 1-2 lines or one on the same line, out of 5 (13) simple statements, followed by another statement", ["ok"]),
   H("h_parse_statements", [2, 2], [2, 4], 40, 400, "compound forms in compound forms", ["ok"]),
   H("h_parse_heads", [20, 4], [20, 20], 40, 400, "67 forms of statement with any of 20 expressions in one of their slots and 4 (20) in another, in any layout", ["ok"], max_instrs=200000000),
   H("h_parse_blocks", [2, 12], [2, 20], 30, 200, "two forms with blocks within one another, each block in any layout", ["ok"], max_instrs=200000000),
   H("h_parse_blocks", [3, 6], [3, 12], 30, 400, "three forms", ["ok"], max_instrs=200000000)])

P("C38", "Every declaration form declares exactly what is written, wherever it stands",
  "A variable or proc declaration records its name, flags, type path, list suffix, input type and initial value, or its kind, flags, return type, parameters with "
  "types, defaults, input types and lists, and body. The same form declares the same in the global scope, in a type's block by indentation or braces, in a nested "
  "block and as one path, and grouped declarations (var{...}, proc{...}) declare each of their members; nothing else is declared.",
  ["inputs"], "every pair of 45 declaration forms in five places",
  "tests parse a few declarations in one layout",
  [DM + "parser.rs", DM + "ast.rs"], [("entries", DM + "parser.rs tree_entry, proc_params_and_body, proc_parameter, input_specifier"), ("types", DM + "ast.rs VarTypeBuilder, VarSuffix")],
  [H("h_parse_decls", [2], [3], 40, 600, "2 (3) of 45 forms, together in each of 5 places", ["ok"]),
   H("h_parse_operators", [], [], 20, 20, "every pair of the 36 operators, in 3 layouts", ["ok"], max_instrs=200000000),
   H("h_parse_parameters", [3], [20], 20, 60, "6 types, 3 suffixes, 4 (21) defaults and 5 input types of a parameter before or after another", ["ok"], max_instrs=200000000),
   H("h_parse_variables", [1], [6], 40, 300, "9 x 4 flags, 5 types, 3 suffixes, 2 (7) values, 3 input types, split into blocks anywhere, in 3 layouts", ["ok"], max_instrs=200000000),
   H("h_parse_nested", [2], [3], 30, 60, "2 (3) of 22 entries, relative or absolute, in 4 kinds of type block", ["ok"], max_instrs=200000000)])

P("C21", "The declared types form one tree, and parents lead to the root",
  "Each type path written, in whatever layout, makes that type and those containing it exist once, each a child of the one before. Its parent type is "
  "parent_type's last value if that names a type, else the containing path's type, or /datum at top level. A value that names no type, or leads back to the type itself, is an error, and following "
  "parents still ends at the root. A type is a subtype of exactly the types met so, and descending from a type visits each of its subtypes once.",
  ["inputs", "histories"], "every short sequence of type declarations and parent_type settings in five layouts",
  "tests declare a few types and never a wrong or circular parent",
  [DM + "objtree.rs", DM + "parser.rs"], [("type insertion", DM + "objtree.rs subtype_or_add"), ("parents", DM + "objtree.rs assign_parent_types, parent_type, recurse_types, is_subtype_of")],
  [H("h_tree_types", [1, 10, 5], [1, 10, 5], 20, 20, "one declaration: 6 paths, 10 parents, 5 layouts", ["good", "bad", "loop"], max_instrs=60000000),
   H("h_tree_types", [2, 10, 1], [2, 10, 4], 40, 500, "2 declarations: 6 paths, 10 parents, 1 (4) layouts", ["good", "bad", "loop"], max_instrs=60000000),
   H("h_tree_types", None, [3, 6, 1], 40, 500, "3 declarations: 6 paths, 6 parents", ["good", "bad", "loop"], max_instrs=60000000)])

P("C22", "A variable has the value and declaration of the nearest type defining it",
  "Looking a variable up on a type finds the nearest definition among it and its parent types, up to the global scope, and the nearest declaration with its flags and type; of several "
  "definitions on one type the last counts, and a later override keeps the declaration. Its initial value is its expression folded where it was written: names "
  "resolve from that type upwards, `parent_type::` from its parent, `/path::` from that type. A value that refers to itself, refers to nothing or is undeclared is an error, and only the first "
  "is called recursive.",
  ["inputs", "histories"], "every short sequence of declarations and overrides of two variables over a chain of types with references between them",
  "tests have a few fixed lookups; order and reference cycles are open",
  [DM + "objtree.rs", DM + "constants.rs"], [("lookup", DM + "objtree.rs get_value, get_var_declaration, insert_var"), ("evaluation", DM + "constants.rs evaluate_all, constant_ident_lookup, recursive_lookup")],
  [H("h_tree_vars", [1, 5, 6, 4], [1, 5, 6, 4], 30, 30, "one definition: 4 types, 2 names, 5 kinds, 6 initial values, 4 layouts", ["good", "bad", "cycle"], max_instrs=60000000),
   H("h_tree_vars", [2, 2, 6, 1], [2, 5, 6, 1], 50, 400, "2 definitions, 2 (5) kinds, 6 initial values", ["good", "bad", "cycle"], max_instrs=60000000),
   H("h_tree_vars", None, [3, 2, 3, 1], 40, 400, "3 definitions, 2 kinds, 3 initial values", ["good", "bad", "cycle"], max_instrs=60000000)])

P("C23", "Overriding procs run from the last override down to the declaration",
  "A type's proc is its last version, else its nearest parent type's; ..() leads to the version before it on the same type, then to the parent type's last, "
  "and ends after the first one. A declaration written after overrides on its own type still comes first. The declaration found is the nearest one with its kind; a second one "
  "on a type is an error. The public overriders of a proc are the last versions on it and its subtypes, each once.",
  ["inputs", "histories"], "every short sequence of declarations and overrides of two procs over a chain of types",
  "tests never ask for the parent of a proc or its overriders",
  [DM + "objtree.rs"], [("versions", DM + "objtree.rs register_proc"), ("lookup", DM + "objtree.rs get_proc, parent_proc, get_declaration, recurse_children")],
  [H("h_tree_procs", [2, 3], [2, 4], 40, 60, "2 definitions in 3 (4) layouts", ["good", "duplicate"], max_instrs=60000000),
   H("h_tree_procs", [3, 1], [3, 3], 40, 400, "3 definitions in 1 (3) layouts", ["good", "duplicate"], max_instrs=60000000),
   H("h_tree_procs", [5, 1, 2], [6, 1, 2], 40, 100, "5 (6) definitions and overrides of one proc on two types", ["good", "duplicate"], max_instrs=60000000),
   H("h_tree_procs", [4, 1, 1], [5, 2, 1], 40, 300, "4 (5) definitions and overrides of one proc on three types", ["good", "duplicate"], max_instrs=60000000),
   H("h_tree_procs", None, [4, 1], 40, 700, "4 definitions", ["good", "duplicate"], max_instrs=60000000)])

P("C24", "A path finds the type that / . and : lead to from where it stands",
  "A path beginning with / starts at the root, any other at the current type. Each /name goes to that child, each .name to the nearest enclosing path having "
  "such a child, and each :name to that child or else the first found depth first, in name order. A path that leads nowhere gives nothing, and an error where it is a value; otherwise the value is "
  "the absolute path; paths of only slashes are left as written.",
  ["inputs"], "every set of types out of 9, every path of bounded length, from every type",
  "no test resolves a relative path",
  [DM + "objtree.rs", DM + "constants.rs"], [("navigation", DM + "objtree.rs navigate, navigate_path"), ("values", DM + "constants.rs prefab")],
  [H("h_tree_paths", [2, 0], [3, 0], 40, 300, "all sets of 9 types closed under containment, 2 (3) steps with 3 operators and 4 names", ["found", "missing"]),
   H("h_tree_paths", [1, 0, 1], [2, 0, 1], 40, 200, "1 (2) steps from a type with any of 4 parent types", ["found", "missing"]),
   H("h_tree_paths", [1, 1], [2, 1], 40, 300, "the same as a variable's value, 1 (2) steps", ["found", "missing"], max_instrs=60000000)])

P("C28", "A proc marked should_not_sleep is reported when it can block, and only then",
  "A proc marked SpacemanDMM_should_not_sleep, or overriding one, is reported if a call from it can reach a blocking builtin, through "
  "any chain of calls, overrides of a receiver's type and ..(), except inside spawn and in procs with waitfor = 0 or allowed_to_sleep. Each report names a marked proc and a "
  "blocking operation that it can reach, taking each receiver to be of its known type or any subtype. One blocking proc per marked proc is enough.",
  ["inputs"], "every small set of procs over four types calling each other, with every combination of settings and bodies; a call at every place of a proc",
  "tests check a few call chains; overrides, cycles, and the places of a call inside a statement or expression are open",
  [DC + "lib.rs"], [("call tree walk", DC + "lib.rs check_proc_call_tree, check_type_sleepers, visit_call, visit_follow"), ("marks and violations", DC + "lib.rs ProcDirective, ViolatingProcs, propagate_violations")],
  [H("h_sleep_dispatch", [1, 1], [1, 1], 50, 60, "a marked proc with any overrides of it and of a proc they call: none, empty, sleeping, ..() or calling", ["sleeps", "root"], max_instrs=200000000),
   H("h_sleep_settings", [2, 5, 7], [3, 4, 6], 40, 250, "2 (3) procs calling each other: 5 (4) settings, 7 (6) bodies each", ["sleeps", "root"], max_instrs=200000000),
   H("h_sleep_exempt", [], [], 20, 30, "a proc with waitfor = 0, allowed_to_sleep or neither, overridden on two types, called on each", ["sleeps", "root"], max_instrs=3000000000),
   H("h_places", [0, 0], [0, 0], 40, 60, "a blocking call at each of 72 places of an expression, in each of 50 places of a statement", ["bad", "fine"], max_instrs=3000000000),
   H("h_places", [0, 1], [0, 1], 40, 60, "and at each place of an expression inside each", ["bad", "fine"], max_instrs=3000000000),
   H("h_spawns", [4], [5], 40, 120, "up to 4 (5) nested spawns, blocks and blocking statements in any order", ["bad", "fine"], max_instrs=3000000000),
   H("h_sleep_dispatch", None, [4, 0], 50, 400, "a marked proc calling one or two procs on receivers of 4 types with all those overrides", ["sleeps", "root"], max_instrs=200000000)],
  assumptions=["the delay of a spawn is counted as part of the proc", "whether allowed_to_sleep also covers the overrides of a proc is left open where the proc itself may be the one called", "a should_not_sleep proc that another one calls is reported on its own",
               "default values of parameters are not looked at by the checker and left out"])

P("C29", "Code the checker calls unreachable never runs",
  "A statement reported as unreachable, and a branch or loop reported as never entered, is not executed on any run of the proc, whatever its conditions give; "
  "conditions without a constant value may give anything. A statement directly after a return in the same block is reported. A range loop reported as empty runs "
  "no turn, and a do-while reported to end early does.",
  ["inputs"], "every bounded nesting of if, loops, switch, try, spawn, labels, break, continue, return and goto",
  "tests check a dozen control flow shapes; nested loops, labels and try blocks with jumps are open",
  [DC + "lib.rs"], [("control flow", DC + "lib.rs ControlFlow, visit_block, visit_statement"), ("ranges", DC + "lib.rs visit_statement ForRange")],
  [H("h_flow_unreachable", [1, 2], [2, 2], 60, 200, "blocks of two statements out of all compound forms and jumps, nested once (twice)", ["flagged", "do", "range", "after_return"], max_instrs=3000000000),
   H("h_flow_unreachable", None, [3, 2], 60, 500, "nested three times, with fewer forms inside", ["flagged"], max_instrs=3000000000)],
  assumptions=["a range loop from a number to itself is left out: the checker treats it as an edge case"])

P("C42", "A switch over rand() is reported exactly for values it leaves out or never gets",
  "For switch(rand(a, b)) with constant cases: each case whose values all lie outside a..b is reported as never triggering and no other is, and a "
  "switch without else is reported as not exhaustive exactly if some whole number from a to b matches no case.",
  ["inputs"], "all bounds and case values of a switch with up to two cases within the stated ranges",
  "tests try a handful of ranges; overlaps, adjacency and reversed cases are open",
  [DC + "switch_rand_range.rs"], [("coverage", DC + "switch_rand_range.rs check_switch_rand_range")],
  [H("h_switch_rand", [2, 4, 0], [2, 9, 0], 40, 200, "2 cases, single values or ranges, all bounds from -4 to 4 (-9 to 9), symbolic", ["gap", "covered", "never"], max_instrs=200000000),
   H("h_switch_rand", [1, 30, 1], [1, 120, 1], 40, 200, "1 case, all bounds from -30 to 30 (-120 to 120), with and without else", ["gap", "covered", "never"], max_instrs=200000000),
   H("h_switch_halves", [4, 2], [5, 3], 60, 300, "2 cases of halves, single or ranges or both in one, all bounds from 0 to 2 (3), rand() with one argument too", ["gap", "covered"], max_instrs=3000000000),
   H("h_switch_rand", None, [3, 3, 0], 40, 400, "3 cases, all bounds from -3 to 3", ["gap", "never"], max_instrs=200000000)],
  assumptions=["whether a case range with its ends reversed is reported is left open"])

P("C43", "A rendered map shows every object at its place, the topmost drawn last",
  "The image of a part of a map level is 32 pixels for each tile; each object of known type with an icon is drawn with the sprite of its icon state and direction, "
  "its lower left corner at that of its tile moved by its pixel offsets, cut off at the edges of the image; of two objects, that with the higher plane, then the higher layer, then the later one on the tile covers the other. "
  "Nothing else is drawn, and an unknown type is reported and does not stop the rest.",
  ["inputs"], "all placements of two objects on a level of 2 x 2 tiles within the stated choices, for four parts of it",
  "the repository has no test of the renderer, and what overlaps depends on all objects together",
  [DT + "minimap.rs", DT + "icon_cache.rs", DT + "dmi.rs", DM + "dmi.rs"], [("drawing", DT + "minimap.rs generate, clip, get_atom_list"), ("icons", DT + "icon_cache.rs retrieve_shared"), ("order", DT + "minimap.rs Layer")],
  [H("h_render_map", [0, 0], [0, 0], 30, 60, "two objects of 5 kinds on any tiles of two levels, 4 parts drawn", ["drawn", "blank"], max_instrs=400000000),
   H("h_render_map", [1, 0], [1, 1], 40, 400, "two objects shifted by 7 x 5 offsets, over the edges of the image included, in 3 pairs of variables", ["drawn"], max_instrs=400000000),
   H("h_render_map", [2, 0], [2, 1], 40, 300, "two objects with 5 layers, 4 planes and 5 directions on one tile", ["drawn"], max_instrs=400000000),
   H("h_render_order", [], [], 20, 30, "two render passes, each doing one of 12 things (every method of the trait) to objects of one type or all", ["drawn", "blank"], max_instrs=400000000)],
  assumptions=["the icon is one PNG of 6 x 6 pixels, decoded by the real decoder; icon states are those it has",
               "which of two objects on different tiles with equal plane and layer is drawn first is left open"])

P("C44", "Smoothed walls, cables and tubes join exactly the neighbours they should",
  "With icon smoothing of 2016, 2020 and 2025, an object gets the states (four corners, or one by bitmask) for exactly those neighbours it joins: those of its own type, or of the types or smoothing groups it lists, and the edge of the map if flagged; "
  "corners count only between two joined sides, unanchored objects join nothing, and a diagonal wall shows the floor from behind it. Power cables link to cables of their layer only, and transit tubes turn with their direction.",
  ["inputs"], "all 2^8 neighbourhoods, with all flags, ways to join and edges of the map within the stated choices",
  "the repository has no test of the renderer; there are 256 neighbourhoods for each way of joining",
  [DT + "render_passes/icon_smoothing.rs", DT + "render_passes/icon_smoothing_2020.rs", DT + "render_passes/icon_smoothing_2025.rs", DT + "render_passes/smart_cables.rs", DT + "render_passes/transit_tube.rs"],
  [("2016", DT + "render_passes/icon_smoothing.rs neighborhood_appearance"), ("2020", DT + "render_passes/icon_smoothing_2020.rs neighborhood_appearance"), ("2025", DT + "render_passes/icon_smoothing_2025.rs neighborhood_appearance"), ("cables", DT + "render_passes/smart_cables.rs"), ("tubes", DT + "render_passes/transit_tube.rs overlays")],
  [H("h_render_smooth", [0, 1], [0, 0], 40, 200, "2016: every neighbourhood, 2 (4) kinds of object, 3 (10) edges", ["joined", "corner"], max_instrs=200000000),
   H("h_render_smooth", [1, 1], [1, 0], 40, 250, "2020: the same, corners and bitmask", ["joined", "corner"], max_instrs=200000000),
   H("h_render_smooth", [2, 1], [2, 0], 40, 250, "2025: the same", ["joined", "corner", "own"], max_instrs=200000000),
   H("h_render_cables", [], [], 40, 60, "cables: 3 kinds of side, 7 things over the cable, machines on one side", ["ok"], max_instrs=200000000),
   H("h_render_tubes", [], [], 10, 10, "tubes: 9 kinds in 4 directions", ["ok"])],
  assumptions=["whether a wall flagged as diagonal with a single neighbour takes the slanted bitmask state is left open"])

P("C45", "An object looks as its map entry says, then as the nearest type setting it does",
  "Icon, icon state, direction, layer, plane, color and offsets of a sprite come from the entry on the map if it sets them, else from the nearest type that does, null counting as set; offsets add up over pixel_x/pixel_w/step_x "
  "and pixel_y/pixel_z/step_y, colors are read from #rgb, #rrggbb and the names of the language, anything else being white, and alpha from 0 to 255; no text or number stops it.",
  ["inputs"], "all offsets, planes, alphas and directions from -32768 to 32767, all color texts of up to 9 characters, all ways of setting a variable at 4 levels",
  "the repository has no test of this; the values of maps are arbitrary",
  [DT + "minimap.rs"], [("values", DT + "minimap.rs Sprite::from_vars, color_of, layer_of, plane_of"), ("inheritance", DT + "minimap.rs GetVar")],
  [H("h_render_values", [0], [0], 40, 90, "any 16-bit numbers, symbolic", ["ok"], max_instrs=200000000),
   H("h_render_values", [1, 6], [1, 6], 20, 30, "# and any 6 characters, symbolic", ["ok"], max_instrs=200000000),
   H("h_render_values", [1, 3], [1, 3], 20, 30, "# and any 3 characters, symbolic", ["ok"], max_instrs=200000000),
   H("h_render_values", [1, 2], [1, 9], 20, 60, "# and any 2 (9) characters, symbolic", ["ok"], max_instrs=200000000),
   H("h_render_values", None, [1, 8], 20, 60, "# and any 8 characters, symbolic", ["ok"], max_instrs=200000000),
   H("h_render_values", [2], [2], 20, 60, "long texts", ["ok"], max_instrs=200000000),
   H("h_render_inherited", [], [], 20, 30, "5 variables, unset, set or null at 4 levels", ["ok"], max_instrs=200000000),
   H("h_render_named_colors", [], [], 20, 30, "19 names, and those names with any one letter replaced, any alpha, symbolic", ["ok"], max_instrs=200000000)])

P("C46", "Each render pass hides and layers exactly the types it names",
  "A pass runs if the include list names it, else if the exclude list does not, else as `all` there, the configuration and its default say, in that order. Areas, space, invisible objects and helpers are hidden and nothing else; a type path given in the "
  "configuration applies to that type and those below it only, the longest one first, before the built-in layers, which go by type in the same way.",
  ["inputs"], "all passes with all lists and settings; 21 types with any layer and invisibility and up to two configured paths",
  "the repository has no test of the render passes",
  [DT + "render_passes/mod.rs"], [("choice", DT + "render_passes/mod.rs configure_list"), ("hiding", DT + "render_passes/mod.rs HideSpace, HideAreas, HideInvisible"), ("layers", DT + "render_passes/mod.rs FancyLayers")],
  [H("h_render_passes", [], [], 20, 20, "17 passes, 7 x 7 lists, 3 settings", ["ok"], max_instrs=200000000),
   H("h_render_filters", [], [], 30, 30, "21 types, layer and invisibility any 8-bit number, symbolic, up to 2 of 4 configured paths", ["hidden", "shown"], max_instrs=200000000)])

P("C50", "Objects are drawn with the overlays their variables call for, spawners expanded",
  "Crates show securecrateemag, securecrater or securecrateg when closed and broken, else locked, else secure, welded moved by weld_w and weld_z, and when open their lid, moved by lid_w and lid_z; lockers their "
  "door, open or closed, welded and lock; computers, airlocks, boxes, alarms, tank dispensers, power controllers and gravity generators the parts their variables name, with the object's own look and place. "
  "A structure spawner becomes exactly the types it lists, in order. Objects of other types are left alone.",
  ["inputs"], "each kind of object, its subtypes and types that look alike, with every combination of up to nine variables, any tank count and lists of up to three",
  "the repository has no test of these passes",
  [DT + "render_passes/mod.rs", DT + "render_passes/structures.rs"], [("overlays", DT + "render_passes/mod.rs Overlays, Pretty"), ("structures", DT + "render_passes/structures.rs Spawners, GravityGen")],
  [H("h_overlays", [], [], 30, 30, "17 types, all combinations of up to 9 variables of 2 to 4 values", ["none", "some"], max_instrs=3000000000),
   H("h_machines", [], [], 20, 20, "power controllers in 6 directions, dispensers with any 8-bit counts, symbolic, gravity generators", ["ok"], max_instrs=200000000),
   H("h_spawners", [], [], 20, 20, "4 types, spawn lists of up to 3 of 5 entries, or none", ["ok"], max_instrs=200000000)],
  assumptions=["the random pass is left out: it draws from the system's random numbers"])

P("C25", "A documentation comment documents exactly the item it belongs to",
  "/// and /** */ comments document the next item declared, //! and /*! */ the item whose line they end or whose block they begin, in the order written, whatever blank lines, ordinary comments or conditional directives stand between; "
  "this holds for types, variables, overrides, procs, verbs and macros, in every layout. A //! outside every item documents the file. No other item gets any of it, and the text is what was written, without comment marks and the decoration all its lines share.",
  ["inputs"], "all pairs of 15 forms of items with 10 x 4 x 3 placements of comments; all comments of up to 5 lines of the stated kinds in 8 styles",
  "dmdoc and the language server show these; a comment that is lost or goes to its neighbour is noticed by no test, which has three fixed examples",
  [DM + "docs.rs", DM + "parser.rs", DM + "preprocessor.rs", DM + "lexer.rs"], [("attachment", DM + "parser.rs doc_comment, tree_entry"), ("macros and conditions", DM + "preprocessor.rs docs_in, docs_out"), ("text", DM + "docs.rs simplify, text")],
  [H("h_docs", [0], [1], 70, 400, "every form and placement beside each of 15 forms (thorough: with each of 4 placements)", ["with", "without"], max_instrs=3000000000),
   H("h_doc_text", [], [], 20, 30, "8 styles of comment, 9152 texts of up to 5 lines", ["ok"], max_instrs=3000000000)])

P("C26", "Private, protected and final members are reported exactly where misused",
  "Reading, writing or calling a private member through a reference is reported unless the code is on the very type declaring it, and a protected one unless "
  "that type is the declaring one or below it; the receiver's own type does not matter to a protected member. Overriding a private or final member is reported, and so is declaring an inherited variable "
  "anew, which then counts with its new flags. Nothing else is reported.",
  ["inputs"], "every flag, override, place of access and receiver over a chain of three types, one beside it and global procs",
  "tests have one program per flag with a few accesses",
  [DC + "lib.rs"], [("access", DC + "lib.rs visit_follow, visit_call"), ("overrides", DC + "lib.rs check_var_defs, AnalyzeProc::run")],
  [H("h_access", [3], [3], 50, 60, "vars and procs of a type at 3 depths, 4 flags, overrides or redeclaration below it, 5 places, 12 forms of access through 3 types", ["clean", "reports"], max_instrs=3000000000)],
  assumptions=["a private variable used by its plain name below its type, and a private member used on its own type through a subtype's reference, are left open"])

P("C27", "Settings binding overrides are enforced on every override, and only there",
  "An override that does not call ..() is reported if the nearest should_call_parent above it is true, one that calls it if the version directly above sets "
  "should_not_call_parent, unless it sets that to 0; any override of a should_not_override, final or private proc is reported, whatever it sets itself. A second definition on a type is reported "
  "unless can_be_redefined is set. A setting is reported that has a bad value, is turned off though it cannot be, is set twice, or may not stand there.",
  ["inputs"], "every combination of settings and bodies over up to three definitions along a chain of types; every setting with every value in every place",
  "tests cover each setting alone on one override",
  [DC + "lib.rs"], [("overrides", DC + "lib.rs AnalyzeProc::run"), ("settings", DC + "lib.rs ProcDirective, add_directive_or_error, gather_settings")],
  [H("h_overrides", [3, 3, 7], [4, 3, 6], 60, 300, "3 (4) definitions along a chain of types or on one type, each with up to 7 (6) settings, with and without ..()", ["reports", "redefined"], max_instrs=3000000000),
   H("h_settings", [], [], 40, 40, "9 settings, 8 values, on a global proc, a definition, an override, or twice", ["clean", "reports"], max_instrs=200000000),
   H("h_setting_values", [0], [1], 20, 100, "16 settings with any 8-bit (16-bit) number, symbolic", ["fine", "reported"], max_instrs=200000000)],
  assumptions=["whether a proc's own should_call_parent binds it too is left open"])

P("C30", "Each diagnostic has the severity configured for it, or is not reported",
  "A diagnostic named in the configuration has the severity given there, or is dropped if disabled; others keep their own. Those less severe than error_level are dropped. Every "
  "documented diagnostic can be configured so. A malformed configuration is reported as one error.",
  ["inputs"], "every pair of levels and threshold, every severity; every documented diagnostic at every level; arbitrary bytes in the file",
  "no test loads a configuration",
  [DM + "config.rs", DM + "error.rs", DC + "lib.rs"], [("levels", DM + "config.rs set_configured_severity, applies_to"), ("registration", DM + "error.rs register_error")],
  [H("h_config_levels", [12], [12], 30, 30, "12 spellings or nothing for two diagnostics and the threshold, 4 severities, 4 kinds", ["reported", "hidden"]),
   H("h_config_causes", [6], [12], 40, 60, "40 documented diagnostics, 6 (12) levels each", ["raised", "off"], max_instrs=200000000),
   H("h_config_total", [3], [5], 30, 200, "any 3 (5) bytes as a level, or 3 (5) of 13 characters as a line", ["accepted", "refused"])])

P("C39", "A proc marked should_be_pure is reported when it changes something outside",
  "A proc marked SpacemanDMM_should_be_pure, or overriding one, is reported if it, or a proc its calls can reach, assigns, increments or outputs to a global, a member of its object or of a global, or world; "
  "changes to locals are not reported. Calls on an object may run any override at or below its type, and no other. A call whose result is unused is reported exactly if the proc called is marked.",
  ["inputs"], "every statement out of 32 in every place, in a marked proc and along calls; every small call graph; every set of overrides over four types",
  "two tests with one impure statement",
  [DC + "lib.rs"], [("call tree walk", DC + "lib.rs check_proc_call_tree"), ("impure operations", DC + "lib.rs visit_expression, check_operator_overload, visit_statement")],
  [H("h_pure_ops", [4], [4], 50, 60, "32 statements in 13 places, 5 relations of the proc to a marked one, with 4 initial values of the local", ["clean", "reports"], max_instrs=3000000000),
   H("h_pure_reach", [2], [3], 40, 200, "a marked proc with up to 2 (3) calls to others, some shared, some impure; calls whose result is discarded, in parentheses or indexed too", ["bad", "discards"], max_instrs=3000000000),
   H("h_places", [1, 0], [1, 0], 40, 60, "an impure call at each of 72 places of an expression, in each of 50 places of a statement", ["bad", "fine"], max_instrs=3000000000),
   H("h_places", [1, 1], [1, 1], 40, 60, "and at each place of an expression inside each", ["bad", "fine"], max_instrs=3000000000),
   H("h_pure_calls", [2, 7], [3, 7], 40, 200, "2 (3) procs calling each other, marked or not, 7 bodies", ["pure", "impure"], max_instrs=200000000),
   H("h_pure_dispatch", [], [], 50, 60, "overrides on four types, called on each type from three places", ["clean", "reports"], max_instrs=200000000)],
  assumptions=["changes through list elements and procs run by name are not looked for", "default values of parameters are not looked at by the checker and left out"])

P("C40", "Keyword arguments are checked against the proc and all overrides it may run",
  "A keyword argument is reported if the proc found on the receiver's type has no such parameter, and a positional argument after one too. If an override below the "
  "receiver's type lacks a keyword that a call there uses, one report names it; overrides that such a call cannot run are not named. Calls without these faults are not reported.",
  ["inputs"], "every choice of parameters for overrides along a chain of types, every pair of calls with up to three arguments on each type",
  "tests have one call with one override, on the declaring type only",
  [DC + "lib.rs"], [("calls", DC + "lib.rs visit_call"), ("overrides", DC + "lib.rs check_kwargs, finish_check_kwargs")],
  [H("h_kwargs", [2], [3], 60, 250, "parameter lists on 3 types, up to 2 (3) arguments, and 6 argument lists at a second call, on 3 receivers, scoped or not, proc or verb", ["override", "fine", "reported"], max_instrs=3000000000)])

P("C41", "Every access is checked against the static type of what it is made on",
  "An expression's static type follows from declared variables, list element types, and return types given as a path, as a parameter's path or type or its elements' type, or as a "
  "choice of these, through operators, ?:, astype() and globals. A field or proc on it is reported as undefined exactly if neither that type nor its parents have it, or as lacking a static type exactly if none is known; indexing an object is reported.",
  ["inputs"], "every chain of bounded length of fields, calls and indexing from every kind of start; every form of return type and of nested expression",
  "tests have about ten fixed accesses",
  [DC + "lib.rs", DC + "type_expr.rs"], [("types of expressions", DC + "lib.rs visit_follow, visit_call, static_type"), ("return types", DC + "type_expr.rs TypeExpr")],
  [H("h_static_types", [2, 2], [3, 3], 60, 500, "13 starts, up to 2 (3) steps of fields, calls and indexing out of 18, any of 8 members", ["clean", "reports"], max_instrs=3000000000),
   H("h_return_types", [4], [7], 60, 100, "every form of return type and of expression: operators, ?:, astype, globals, nested", ["reports"], max_instrs=3000000000)])

P("C47", "A condition is called constant or decided exactly when it is",
  "In if, else if and for, a condition is reported as always true or always false only if it is so whatever the variables hold, and is if it is made of literals, list() and new with !, &&, ||, ?:, = and parentheses. There "
  "and in switch, a literal number, text, null or path and a comparison or logical operation of two of these are reported as constant; nothing with a variable or call in it is. What follows a condition that is always true is reported as unreachable; while is exempt.",
  ["inputs"], "every condition of bounded form over 15 kinds of operand, in every kind of statement; every chain of conditions within every other statement",
  "tests have a handful of conditions; which combination decides a condition is open",
  [DC + "lib.rs", DM + "ast.rs"], [("truth", DM + "ast.rs Expression::is_truthy, Term::is_truthy"), ("constants", DM + "ast.rs Expression::is_const_eval, Term::is_static"), ("conditions", DC + "lib.rs visit_statement, visit_control_condition, loop_condition_check")],
  [H("h_conditions", [2], [2], 40, 60, "12 forms of up to three operands out of 15, in 6 statements", ["clean", "reports"], max_instrs=3000000000),
   H("h_chains", [2, 3, 1], [3, 4, 1], 40, 120, "chains of up to 3 (4) conditions out of 5, with and without else, within 13 kinds of statement", ["reports"], max_instrs=3000000000)],
  assumptions=["whether a condition in parentheses, or one decided though a variable stands in it, is reported is left open, as is a constant one of other forms"])

P("C48", "Ambiguous and meaningless expressions are reported, and only those",
  "Reported is an operator on the left of `in`, or `!` on the left of &, | or ^, unless in parentheses; ++ or -- on a value of a type that neither has nor inherits that operator; a for over a value whose type cannot be iterated; a value returned "
  "within spawn; a case that is an ||; list.Find() without arguments; and filter() with a missing or unknown type, a parameter not of that type or a bad flag. Each fault is reported once, on its line, and nothing else is.",
  ["inputs"], "every expression of bounded form over all operators, in every place; every statement nested in every other; every filter with every two parameters or flags",
  "tests have one example of a few of these; what an operator applies to depends on all operators around it",
  [DC + "lib.rs", DM + "ast.rs"], [("operators", DC + "lib.rs visit_expression, check_negated_bitwise, check_operator_overload"), ("statements", DC + "lib.rs visit_statement"), ("filters", DC + "lib.rs visit_call, check_filter_flag; " + DM + "ast.rs VALID_FILTER_TYPES, VALID_FILTER_FLAGS")],
  [H("h_negated", [2, 1, 24, 1], [2, 1, 24, 1], 60, 60, "two of 11 operands with any of 24 operators, in 8 places within 13 kinds of statement", ["clean", "reports"], max_instrs=3000000000),
   H("h_negated", [2, 2, 8, 0], [3, 2, 24, 0], 40, 150, "three operands with any two of 8 (24) operators", ["clean", "reports"], max_instrs=3000000000),
   H("h_negated", None, [3, 3, 8, 0], 40, 200, "four operands with any three of 8 operators", ["clean", "reports"], max_instrs=3000000000),
   H("h_in_lhs", [2], [2], 40, 60, "19 units, 24 operators, 15 assignments and ?: before `in`, 5 things after it, 8 places", ["clean", "reports"], max_instrs=3000000000),
   H("h_overloads", [1, 0], [1, 1], 40, 120, "16 values of a type that has either operator or inherits it, in 7 places (within 13 kinds of statement)", ["clean", "reports"], max_instrs=3000000000),
   H("h_statements", [1, 1], [2, 2], 40, 120, "24 values in 5 kinds of for, 5 returns, 9 cases, 10 uses of Find, within 1 (2) of 13 kinds of statement", ["reports"], max_instrs=3000000000),
   H("h_filters", [2], [2], 40, 60, "14 filters, any 2 of 19 parameters, any 2 of 10 flags in 7 forms, 14 faulty calls", ["clean", "reports"], max_instrs=3000000000)],
  assumptions=["the filters and their parameters are those of the BYOND reference"])

P("C49", "A plain name is reported as undefined exactly if nothing in scope has it",
  "A name is a local variable declared before it in the same block or one around it, a parameter, the variable of a loop or catch within that statement only, a variable of the proc's type or "
  "a parent, a global, or one of the language; otherwise it is reported as undefined, once for each use, wherever in a statement or expression the use stands. A proc called by name or by global. is reported likewise.",
  ["inputs"], "every arrangement of declarations, uses and blocks of bounded length; a use at 30 places; 34 names in procs of 5 kinds",
  "no test checks where a variable goes out of scope",
  [DC + "lib.rs"], [("names", DC + "lib.rs visit_term Ident, GlobalIdent, Call, GlobalCall"), ("scopes", DC + "lib.rs visit_statement, visit_var")],
  [H("h_names", [2, 3, 17, 2], [3, 4, 17, 1], 60, 300, "3 (4) entries out of 17 kinds of declaration, use and block", ["reports"], max_instrs=3000000000),
   H("h_names", [2, 1, 17, 30], [2, 2, 17, 30], 40, 100, "1 (2) entries and a use at each of 30 places", ["reports"], max_instrs=3000000000),
   H("h_plain_names", [1], [1], 40, 60, "34 names at 29 places of global procs and those of 4 types", ["reports"], max_instrs=3000000000)],
  assumptions=["a second declaration in one block, and the condition of a do-while naming a variable of its block, are left open", "default values of parameters are not looked at by the checker and left out"])
