#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, how, level_note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))]), how=how, note=level_note))
ALL = ["parser.go", "primitive.go", "composite.go", "datetime.go", "geometry.go", "token.go", "units.go", "scanner/scanner.go"]

prop("C01", "Parse, Format, CheckType and Walk are total",
  "For any byte string Parse returns either a statement or an error, never both or neither, and for any statement it returns Format, CheckType with any dictionary and Walk finish as well. None of them panics, overflows the stack, hangs or takes memory or time out of proportion to the text, however long or deeply nested it is, and nothing is left running or held when the results are gone.",
  ["inputs"], "all byte strings, including invalid UTF-8, texts cut short, megabytes of one construct and nesting of any depth",
  "The tests parse about 200 short texts; crashes hide in truncated, mutated, huge or deeply nested ones.",
  ALL + ["format.go", "typecheck.go", "walk.go"], "recursive descent with a nesting limit over a hand-written scanner; Format reports write errors by panic and recover",
  "generated documents, mutated documents, token soup, bytes, nesting and repetition of every construct; watchdog on processor time and memory",
  "exploration: millions of texts; time and memory limits are generous, so only blow-ups count")
prop("C02", "A rejected text yields an error that locates the fault",
  "When Parse rejects a text the error is a *Error whose offset lies inside the text on the start of a token (or at its end), whose message is the text before that offset and whose literal is the text found there; its text gives all three. Nothing is printed. The offset is never before the last token of the part that could still be completed to a valid text; for a character that belongs to no token, and for a token that cannot stand where it does, it is exactly its place, and for a bad string literal it is at the literal and no later than at the operand behind it.",
  ["inputs"], "all texts Parse rejects",
  "The tests compare a handful of error strings; the offset arithmetic has to hold for every text and layout.",
  ["parser.go", "token.go", "composite.go", "datetime.go", "geometry.go", "primitive.go"], "parser error helpers over the tokenizer's offset and literal",
  "mutated, cut and corrupted documents against the place where the reference parser gives up",
  "exploration against a reference parser; a one-token slack before the offending token is allowed")
prop("C03", "Parse builds exactly the tree the text says",
  "Every text of the documented grammar is accepted, and the statement has exactly the variables, condition, operators, operands, values, units, names, repeat and reset parts written in the text, in their order and nesting. Nothing is dropped, added, merged, reordered or changed.",
  ["inputs"], "all documents of the grammar: every construct in every place where it may stand",
  "The tests check some 60 documents and mostly one construct at a time; the combinations are unbounded.",
  ALL, "token-level parser, one function per construct",
  "documents generated from trees and compared with them; a second, independent parser over sweeps of all literals",
  "exploration: generated documents and exhaustive literal sweeps; trusts the harness' own grammar (cross-checked by its two halves)")
prop("C04", "Operators group by documented precedence, to the left",
  "In a condition of any length the operators bind by the documented table (or, and, comparisons and membership and geometry operators, + and -, then *, / and rem), operators of one level group to the left, and parentheses override both. An operand or a parenthesised part may be replaced by any other without changing how the rest groups.",
  ["inputs"], "all expressions: any number of operators, any operands, any parentheses",
  "The tests hold a few mixed expressions; 21 operators give 9261 triples alone, and chains are unbounded.",
  ["parser.go", "token.go", "composite.go"], "precedence climbing driven by Token.Precedence",
  "every triple of operators, long chains, random trees with the fewest and with extra parentheses, substitution of operands",
  "exploration: triples are exhaustive; longer expressions are sampled against a two-stack grouping")
prop("C05", "Malformed text is rejected",
  "A text that is not of the documented grammar is never accepted: text left over, missing or doubled separators and keywords, unclosed brackets or quotes, values out of range, wrong or negative units, arrays of mixed kinds, variables set twice and characters of no token all give an error.",
  ["inputs"], "all texts outside of the grammar",
  "The tests hold some dozens of bad texts; malformed texts outnumber good ones everywhere.",
  ALL, "checks of the expected token after every step of the parser",
  "mutations, token soup, all short token sequences in many places, every prefix of a document, literal sweeps; verdict of a reference parser",
  "exploration against a reference parser; what the documentation leaves open is left out and counted as soft")
prop("C06", "Layout, comments, case of words and spelling do not matter",
  "Blanks, line ends and comments between tokens, upper or lower case of keywords and operators, and the choice between spellings of one operator or unit never change the statement a text stands for. Two tokens may be written together whenever they cannot be read as one.",
  ["inputs"], "all pairs of texts of one document that differ in layout, case and spelling",
  "The tests use one layout per document.",
  ["token.go", "keyword.go", "units.go", "scanner/scanner.go", "parser.go"], "tokenizer with keyword table, case folding and one token of lookahead",
  "each document written twice in different styles; texts cut into tokens and laid out anew",
  "exploration: metamorphic, no grammar needed beyond the token boundaries")
prop("C07", "Formatted text parses back to the same statement",
  "For every statement Parse returns, Format writes a text that Parse accepts, and the two statements are equal in variables, structure, operators, values to the last bit, units, signs, names, repeat and reset parts.",
  ["inputs"], "all statements Parse can return",
  "The tests compare Format with a few expected texts and never parse the output of arbitrary statements.",
  ["format.go", "units.go", "keyword.go", "parser.go"], "one format method per node type",
  "round trip Parse-Format-Parse over generated documents, any accepted text, short token sequences and literal sweeps",
  "exploration: the round trip itself is exact, trees are compared in full")
prop("C08", "Format is canonical, stable and of bounded size",
  "Formatting the same statement, a second parse of its text, or the parse of the formatted text gives the same bytes every time and in every process, whatever the destination is and already holds; so does a statement with the same contents built by hand. The size of the output stays in proportion to the size of the text and the depth of its nesting.",
  ["inputs", "histories"], "all statements, any number of repetitions",
  "Map order and accumulated indentation show only with many ids, deep nesting or repetition.",
  ["format.go", "ast.go"], "formatters over slices and a map of selector ids",
  "Format repeated, iterated and run in several processes on generated documents, many-id selectors, wide and deep documents",
  "exploration: metamorphic (idempotence, determinism) plus a size bound")
prop("C09", "Format reports every write failure at once and unchanged",
  "Whichever write of the destination fails, and whatever kind of error and destination that is, Format returns that very error, writes nothing after it, and what was written before is a prefix of the full text. A later Format of the same statement with a healthy destination gives the whole text.",
  ["fault_sequences", "inputs"], "every write of every statement as the point of failure, with none, a part or all of the chunk written",
  "No test uses a failing writer.",
  ["format.go"], "checkError after each write, recovered in Format",
  "fault injection at every write of smaller statements and at random writes of larger ones",
  "fault enumeration over generated statements")
prop("C10", "Node positions cover exactly the text of the node",
  "For every node of a statement the text between its start and end position is exactly what was written for it (cut out and parsed alone it gives the same node), operator positions point at the operator, children lie inside their parents in order. Text put in front of a document shifts all positions by its length.",
  ["inputs"], "all accepted texts, every node, any layout, multi-byte characters and texts longer than the read buffer",
  "The tests check positions of a few nodes in one-line texts.",
  ["ast.go", "parser.go", "primitive.go", "composite.go", "datetime.go", "geometry.go", "token.go", "scanner/scanner.go"], "byte offsets from the tokenizer kept in the nodes",
  "places recorded while a document is written, slices parsed again, shifted texts",
  "exploration: exact comparison with the places the generator wrote to")
prop("C11", "CheckType accepts exactly the well-typed statements",
  "CheckType returns nil if every operator of the condition is applied to operands its type rules allow, looking through parentheses, variables and the types the dictionary gives selectors, and otherwise an error that tells an operator at fault with its operands. Unknown selectors, selector types or variables below an operator are errors.",
  ["inputs", "configurations"], "all statements and dictionaries",
  "The tests check some 100 expressions of two operands; kinds of operands times operators times nesting is far more.",
  ["typecheck.go"], "bottom-up evaluation with a rule table per operator",
  "every operator with every pair of 120 operand kinds, every operator over the result of every other, random well-typed trees and near misses; reference rules",
  "exploration: pairs exhaustive, deeper ones sampled; the rules in ref_types.go restate the intended table")
prop("C12", "Type checking respects the meaning of the text",
  "Whether a statement checks out does not change when operands are put in parentheses, references are replaced by the literal they stand for, selectors and variables are renamed together with the dictionary, unused variables are added, a literal is replaced by another of its kind, or the statement is formatted and parsed again. A conjunction or disjunction checks out exactly when both sides do as conditions.",
  ["inputs", "configurations"], "all statements and dictionaries, all such changes",
  "Relations between runs are not tested at all.",
  ["typecheck.go", "format.go"], "type rules by kind of node, not by value",
  "metamorphic pairs of statements",
  "exploration: metamorphic, independent of the reference rules")
prop("C13", "Walk visits every node once, in order, and obeys the visitor",
  "Walk and Visit call the visitor for every node of a statement or subtree exactly once, parents before children and children in source order, and once with nil after the children of each node that was entered. Returning nil or false skips the children of that node only, and the visitor returned for a node is the one used for its children.",
  ["inputs", "programs"], "all statements and all visitors",
  "No test covers the order, pruning or replaced visitors on real statements.",
  ["walk.go"], "type switch over all nodes",
  "sequence of visits against the tree read off the fields, for visitors that prune and replace themselves",
  "exploration: exact sequence comparison")
prop("C14", "Tokenizer reports every token with its kind, text and place",
  "For any input, read in pieces of any size from whatever reader, from where that stands, the tokens cover the text in order with the documented kind, the literal as written and the offset at which it starts, and end with EOF for ever. Unwind, Reset, Offset, TokenText and the error count behave accordingly, and a failing reader ends the tokens without inventing text.",
  ["inputs", "histories"], "all inputs, reader behaviours and sequences of Scan, Unwind and Reset",
  "The tests scan single words from strings.",
  ["token.go", "keyword.go", "scanner/scanner.go"], "keyword lookup and two-character operators over the scanner with one token of lookahead",
  "token sequences with known content through readers that cut, stall and fail; random call histories against a model",
  "exploration with a stateful model")
prop("C15", "The scanner agrees with Go's text scanner",
  "For any input, mode, set of blanks and identifier rule, and for input read in pieces of any size, Scan, Next, Peek, Pos and TokenText of the scanner give what the standard text/scanner gives, up to the places where the package documents a difference (numbers other than plain ones).",
  ["inputs", "histories", "configurations"], "all inputs, modes and call sequences; input in pieces of any size",
  "The tests are a copy of the standard ones: fixed inputs, one buffer size.",
  ["scanner/scanner.go"], "a changed copy of text/scanner",
  "differential testing against the standard library",
  "exploration: differential; comparison stops at the first number outside of the common syntax")
prop("C16", "Nothing is shared or changed: reads are pure and parallel",
  "Format, CheckType and Walk change neither the statement nor the dictionary, and what Parse, Format and CheckType say about a text does not depend on what was handled before, by this or another dictionary. Nothing is shared between statements or between the parts of one: changing one changes no other. Texts and one statement may be used from many goroutines at once.",
  ["histories", "schedules", "inputs"], "all histories of calls and all schedules of goroutines",
  "The tests make one call per text in one goroutine.",
  ["parser.go", "typecheck.go", "format.go", "walk.go", "token.go"], "no package state beyond constant tables",
  "call histories in permuted orders, within one process and in processes of their own, dictionaries in turn, statements defaced between parses, tokenizers in turns, goroutines under the race detector",
  "exploration: histories are sampled; schedules are those the Go scheduler makes, with the race detector watching")
prop("C17", "Variables keep order, name and value; SetVar equals text",
  "The variables of a SET block are kept in order with exactly their names and values, a name set twice is an error, and a reference stands for the variable with exactly its name. A statement changed by SetVar formats, checks and compares as the statement of the text with those variables, and SetVar fails, tells the name and changes nothing exactly when the name is taken.",
  ["histories", "inputs"], "all SET blocks and all sequences of SetVar",
  "The tests set one or two variables and never call SetVar after Parse.",
  ["ast.go", "parser.go", "typecheck.go", "format.go"], "ordered list of assignments, searched by name",
  "stateful model: a list of names and values, written as text after each step",
  "exploration: model-based histories")
prop("C18", "Calendar literals are read, bounded and written exactly",
  "Dates from 2022 to 2200, times of day with optional seconds and AM or PM, weekdays and months are accepted as single values, lists and ranges exactly when every part is in its range and the separators are right, and the fields hold the numbers written. Format writes a text that gives the same literal.",
  ["inputs"], "all calendar literals and near misses",
  "The tests check some 40 literals; the boundaries are a product of four fields, unit and form.",
  ["datetime.go", "units.go", "format.go"], "field by field parsing with range checks",
  "all dates and times of the ranges with their neighbours, all three-letter names, short token sequences in the brackets, documents",
  "exploration: dates, names and most times exhaustive")
prop("C19", "Numbers, quantities and durations keep value, unit and sign",
  "Integers and floats are read with exactly the value written and integers out of range are rejected, a number directly followed by a unit is the quantity of that unit and a duration the sum of its parts, signs are kept for temperatures and plain numbers and rejected where they make no sense. Format writes them so that the same value, to the last bit, unit and sign come back.",
  ["inputs"], "all numbers, units, signs and the places where they may stand",
  "The tests check one or two values for each unit; values, units and places are a large product.",
  ["primitive.go", "units.go", "format.go", "parser.go"], "number token followed by an optional unit identifier",
  "numbers times signs times unit spellings times places; all words of three letters as units; powers and neighbours; duration sums computed apart",
  "exploration: units times places exhaustive, values sampled around all boundaries")
prop("C20", "Geometries keep every coordinate, ring, member and distance",
  "Points, lines, polygons, their multi forms and collections are accepted exactly when brackets, commas and members are right; the statement holds every coordinate with its sign to the last bit, every ring, member and radius or margin in order, and knows whether a polygon has holes. Format writes them so that all of it comes back.",
  ["inputs"], "all geometries: any number of positions, rings and members",
  "The tests hold some 40 geometries of two or three positions.",
  ["geometry.go", "format.go", "ast.go"], "nested bracket parsing by kind of geometry",
  "all short sequences of geometry tokens, all small shapes, spellings of coordinates, random documents and broken ones",
  "exploration: short sequences exhaustive, larger ones sampled")
prop("C21", "Selectors keep name, ids, wildcard and properties",
  "A selector keeps the case and every letter of its name, the set of its ids without their quotes, its properties in order, and means the current device exactly when a star is among the ids or there are none. Reserved words in any case are no names, words that merely contain one are, and Format keeps all of it.",
  ["inputs"], "all names, id sets and properties",
  "The tests use some 20 selectors with plain names.",
  ["composite.go", "parser.go", "keyword.go", "scanner/scanner.go", "format.go"], "identifier token, braces with strings and stars, properties behind a colon",
  "every character in a name, every casing of reserved words, all short sequences in the braces and behind the colon, names and ids of every length",
  "exploration: characters, casings and short sequences exhaustive")
prop("C22", "Strings keep their content byte by byte",
  "A string literal keeps everything between its quotes as written, escapes included, whether it is an operand, an array element, a range end, a variable or a selector id. Strings with bad escapes, line ends or no closing quote are rejected, and Format writes the same content again.",
  ["inputs"], "all string literals in all places",
  "The tests use plain ASCII words.",
  ["primitive.go", "composite.go", "scanner/scanner.go", "format.go"], "string token with its delimiters removed",
  "every character, byte, escape and short sequence of quotes and backslashes, strings of every length",
  "exploration: single characters and short sequences exhaustive")
prop("C23", "Repeat and reset parts are read exactly or not at all",
  "A document may end with a repeat part (count, then every and a duration) and a reset part (after and a duration), in this order, each optional and in any case of the words; the statement holds exactly the count and durations written and nothing for parts left out. Anything else behind the condition is an error, and Format writes the parts so that the same ones come back.",
  ["inputs"], "all endings of a document",
  "The tests hold about a dozen endings.",
  ["parser.go", "format.go", "primitive.go"], "optional sections after the condition",
  "all short sequences of the words, counts and durations; products of counts, durations and reset parts; documents",
  "exploration: short endings exhaustive")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
LEVEL = {"C09": "fault_enumeration"}
man = dict(version=1, setup_cmd="bash run.sh build", checks=[
    dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
         evidence_file="evidence/%s.json" % p["id"],
         technique="property-based testing: " + p["how"], level=LEVEL.get(p["id"], "exploration"), level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="One Go program (harness/) built against /repo by run.sh; no hooks in /repo. Replays: bash run.sh replay FILE.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
