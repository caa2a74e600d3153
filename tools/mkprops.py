#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files}
    if mech: a["mechanism"] = [{"name": n, "where": w} for n, w in mech]
    a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The packrat parser recognises exactly the grammar's language",
  "For every context-free grammar (left-recursive, cyclic, ambiguous, with empty productions, with unreachable or unproductive symbols) and every lexeme sequence including the empty one, packrat Parse terminates and returns a tree if and only if the grammar's first non-terminal derives the sequence of lexeme kinds. The answer does not depend on what the same parser parsed before, and parsing never changes the grammar or the lexemes handed in.",
  ["inputs", "programs", "histories"], "all grammars x all lexeme sequences x all earlier uses of the parser",
  "The tests parse five fixed grammars with one accepted sentence each; rejection, empty input, nullable and cyclic grammars beyond one example are not sampled.",
  ["parser/packrat/packrat.go", "symbol/setsymbol/set.go"],
  [("worklist over memo/partials", "parser/packrat/packrat.go:Parse,addProds,addPartial,addToMemo,update")], ["Packrat.Parse return value"])
p("C02", "Parse trees are faithful derivations of the input",
  "Every tree returned by either parser (packrat, topdown) is a derivation tree: the root is the grammar's start symbol, each interior node with its children in order is one of that symbol's productions, a non-terminal without children is an empty production, and the leaves read left to right are exactly the input lexemes with their kind, value and position. Every node is a distinct object, every child's Parent is the node that lists it, and the root's Parent is nil.",
  ["inputs", "programs"], "all grammars x all accepted lexeme sequences x both parsers",
  "Tests compare the printed form (kinds and values only) of a handful of trees; positions, parent links, empty nodes and most grammars are never looked at.",
  ["parser/packrat/packrat.go", "parser/topdown/topdown.go", "tree/parsetree.go"],
  [("toPN", "parser/packrat/packrat.go"), ("accept/acceptProd", "parser/topdown/topdown.go")], ["ParseNode returned by Parse"])
p("C03", "Packrat resolves ambiguity by production order",
  "When the grammar has no non-terminal that derives itself (no A =>+ A) and an input has several derivations, packrat returns the one that is best when compared from the root: the earlier-listed production wins; for the same production the children are compared from the left and the first child covering a different span decides by the same rule applied to the best trees of those spans. The choice depends only on the grammar and the lexemes, not on discovery order or on repetition of the parse.",
  ["inputs", "programs", "histories"], "all grammars without self-derivation x all ambiguous inputs",
  "Tests contain three ambiguous sentences; the memo is updated greedily while its children still change, so agreement on those says nothing about other grammars.",
  ["parser/packrat/packrat.go"], [("comparePriority/addToMemo", "parser/packrat/packrat.go")], ["shape of the tree returned by Packrat.Parse"])
p("C04", "The topdown parser implements ordered choice with a full-input start rule",
  "For every grammar that is not left recursive, topdown Parse terminates and applies ordered choice: a non-terminal at a position commits to the first of its productions all of whose symbols match one after the other, a terminal matches one lexeme of its kind, and the start symbol takes the first of its productions that additionally consumes every lexeme. It returns nil exactly when no start production does, and the tree is the one those choices make.",
  ["inputs", "programs", "histories"], "all non-left-recursive grammars x all lexeme sequences",
  "Three grammars with one accepted sentence each, two of them only asserting non-nil; no rejected input, no grammar where commitment matters.",
  ["parser/topdown/topdown.go"], [("tryAccept/acceptProd with memo", "parser/topdown/topdown.go")], ["Topdown.Parse return value"])
p("C05", "Left recursion is detected exactly, and gates the topdown parser",
  "IsLeftRecursive is true exactly when some non-terminal can derive, through symbols that may all derive the empty string, a sentential form starting with itself - directly, mutually or hidden behind nullable symbols, whatever the order in which non-terminals and productions are listed. topdown.New returns ErrLeftRecursion exactly for those grammars and a working parser for all others.",
  ["programs", "configurations"], "all grammars, in every listing order of non-terminals and productions",
  "The only test of it is not even compiled in this tree; nullable prefixes and listing orders are an unbounded family.",
  ["leftrecursion.go", "parser/topdown/topdown.go"], [("lrOp.check", "leftrecursion.go"), ("New", "parser/topdown/topdown.go")], ["IsLeftRecursive", "topdown.New error"])
p("C06", "Left recursion removal keeps the language and removes the recursion",
  "For every grammar without empty productions, RemoveLeftRecursion terminates and returns a grammar with the same start symbol that is not left recursive and in which every original non-terminal derives exactly the same terminal strings as before. The grammar passed in is left unchanged.",
  ["programs"], "all grammars without empty productions (direct, indirect, multiple and cyclic left recursion, any order)",
  "Two grammars compared with an expected text; no semantic comparison of languages.",
  ["grammar/left_recursion.go"], [("safeAdd / removeDirectLeftRecursion", "grammar/left_recursion.go")], ["*Grammar returned by RemoveLeftRecursion"])
p("C07", "A grammar is exactly what its text and Add calls say, and prints back",
  "A Grammar holds exactly the productions written in its definition text plus those added with Add: non-terminals in order of first appearance (first one is the start; lines before any non-terminal belong to START), productions per non-terminal in writing order, symbols split on blanks, continuation lines attached to the last non-terminal, a line with two arrows rejected with an error. Querying it (also with foreign or unknown symbols) never changes it, and New(g.String()) defines an equal grammar.",
  ["inputs", "histories"], "all definition texts and all sequences of Add and query calls",
  "Three small texts; interleavings of Add with queries, repeated non-terminals and layout variants are not sampled.",
  ["grammar/grammar.go", "symbol/setsymbol/set.go", "helpers.go"], [("New/productionFromLine/trimAndSplit/Add/String", "grammar/grammar.go")], ["NonTerminals, Productions, String"])
p("C08", "A regexgram grammar means what its operators say",
  "For every regexgram definition built from symbols, groups, ?, *, | (nested arbitrarily) and full-line // comments, the grammar returned by New generates from each defined non-terminal exactly the terminal strings of the extended definition: ? is optional, * is zero or more, | is alternation binding tighter than sequence, a group acts as one symbol. Non-terminals keep their order of definition, alternatives keep left-to-right order with the present form of an optional before the absent one, and malformed text yields an error.",
  ["inputs", "programs"], "all regexgram definitions",
  "About ten operator uses compared with fixed expansions; nesting combinations are unbounded.",
  ["grammar/regexgram/regexgram.go"], [("evalSymbol/mergeRules/addRepeatAsProduction", "grammar/regexgram/regexgram.go")], ["grammar returned by regexgram.New"])
p("C09", "The regexgram reducer makes repetition invisible",
  "For every regexgram definition and every parse tree of its grammar, applying the reducer returned with it yields the same tree with each node introduced for a * replaced in place by its own children, recursively: no helper node remains below a defined non-terminal, and all other nodes, their order, values and the sequence of leaves are unchanged.",
  ["inputs", "programs"], "all regexgram definitions x all their parse trees",
  "One list example with a single unnested repetition.",
  ["grammar/regexgram/regexgram.go", "tree/reducer.go", "tree/node_reductions.go"], [("bludgeon", "grammar/regexgram/regexgram.go")], ["Reducer.Reduce on parse trees"])
p("C10", "The simple lexer tokenises by longest match or by priority, losing nothing",
  "For every rule list, mode and input the simple lexer emits, at each position, the rule with the longest non-empty match (earliest rule on ties; by priority: the earliest rule with a non-empty match), drops the text of discard rules, and turns each maximal run of bytes at which no rule matches into one error lexeme, so that emitted, discarded and error texts concatenate to the input. Inserted start/end lexemes appear exactly once at the ends, and results do not depend on earlier Lex calls, rule additions between calls taking effect.",
  ["inputs", "configurations", "histories"], "all rule lists x both selection modes x all inputs x all call histories",
  "Fixed inputs on one three-rule lexer; ByPriority of this lexer and Add after an error are not exercised at all.",
  ["lexer/simplelexer/lexer.go", "lexer/simplelexer/construct.go"], [("findNextMatch/updateNext/checkError", "lexer/simplelexer/lexer.go")], ["[]Lexeme returned by Lex"])
p("C11", "The stack lexer follows its push/pop stack and inheritance rules",
  "For every stack lexer definition and input, lexing starts in the first sub-lexer and at each position uses the current sub-lexer's rules (own and inherited ones in written order, the first rule of a kind masking later ones) choosing the longest non-empty match (earliest rule on ties; by priority: the earliest), then pushes, pops the written number of levels (never below the bottom) or stays; with no match it falls back to the enclosing sub-lexer, and only at the bottom does text become an error lexeme. A rule's group list builds the value from those groups and quoted literals; discarding, error runs and inserted lexemes behave as in the simple lexer, and constructing the same definition again gives the same behaviour.",
  ["inputs", "configurations", "histories"], "all definitions (modes, inheritance graphs, actions) x all inputs",
  "Six short inputs over fixed definitions; stale match offsets, inheritance order and stack underflow need particular combinations.",
  ["lexer/stacklexer/lex.go", "lexer/stacklexer/construct.go"], [("lex/pop/findNextMatch/updateNext", "lexer/stacklexer/lex.go"), ("addHeir/addRule", "lexer/stacklexer/construct.go")], ["[]Lexeme returned by Lex"])
p("C12", "Every lexeme carries the position where its text starts",
  "For both lexers, every lexeme taken from the input - including error lexemes, lexemes after discarded text, after error runs and after text containing newlines, and lexemes whose value was rebuilt from groups - reports the line (number of newlines before its first byte, counted from 0 in the simple lexer and from 1 in the stack lexer) and the 1-based byte column of its first byte. Inserted lexemes report no position (line -1).",
  ["inputs", "configurations"], "all lexers x all inputs",
  "Stack lexer positions are asserted on one text without multi-line errors; simple lexer positions are never asserted.",
  ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go"], [("handleLineCol", "lexer/stacklexer/lex.go"), ("findNextMatch", "lexer/simplelexer/lexer.go")], ["Lexeme.Pos"])
p("C13", "Lexer definitions are honoured or rejected with an error",
  "Constructing a lexer from text either returns a lexer that implements every rule as written or an error and no lexer: an invalid regular expression is an error in both lexers, a repeated kind is an error in the simple lexer, and cyclic inheritance, a push to a sub-lexer that does not exist, a group number the expression does not have, two sub-lexers of one name or a definition with no sub-lexer is an error in the stack lexer. For a simple lexer built from text, New(l.String()) is an equivalent lexer, and lexing with a constructed lexer never panics.",
  ["inputs", "configurations"], "all definition texts",
  "Only well-formed definitions are tested.",
  ["lexer/simplelexer/construct.go", "lexer/stacklexer/construct.go"], [("New/parse/addMatch", "lexer/stacklexer/construct.go"), ("New/ruleFromLine/addRule/String", "lexer/simplelexer/construct.go")], ["New return values"])
p("C14", "Tree text round-trips and bad tree text is an error",
  "For every tree whose kinds are non-empty and contain no blank, quote, colon or brace, tree.New(t.String()) rebuilds a tree equal in shape, kinds and values, whatever characters the values contain, and Clone yields an equal, independent tree (kinds, values, positions) with consistent parent links. Text that is not a tree (no root, stray or missing braces, garbage on a line) yields an error and never a panic.",
  ["inputs"], "all trees and all texts",
  "Two trees with one quoted value; control characters, backslash sequences and malformed texts are not covered.",
  ["tree/parsetree.go"], [("New/String/Clone", "tree/parsetree.go")], ["tree.New, PN.String, tree.Clone"])
p("C15", "Tree edit operations do exactly what they document",
  "For every tree and every sequence of edit operations on its nodes (RemoveChild, RemoveChildren, RemoveAll, ReplaceWithChild, PromoteChild, PromoteSingleChild, PromoteChildValue, PromoteChildrenOf, PromoteGrandChildren) with any index, negative indexes counting from the end (the indexes of RemoveChildren all refer to the children before the call), each operation has its documented effect on that node, leaves order and content of everything else alone, and does nothing when the index is out of range. After every operation each child's Parent is the node that lists it, and the tests ChildIs, ChildAt, Child, Children and Size agree with the current tree.",
  ["inputs", "histories"], "all trees x all operation sequences x all indexes",
  "Each operation has one or two examples with in-range indexes on fresh trees; sequences and aliasing between slices are not sampled.",
  ["tree/node_reductions.go", "tree/parsetree.go"], [("PN methods", "tree/node_reductions.go")], ["PN fields and methods after each call"])
p("C16", "Reduce works bottom-up on a copy",
  "Reducer.Reduce returns a new tree in which, children before parents, each node whose original kind has a reduction has been transformed by it exactly once, all others being copied with kind, value and position; the input tree is never modified and parent links of the result are consistent. Merge(r1,r2) is a reducer of its own that behaves as r1's then r2's reduction per kind, Chain and the chained methods run left to right with nil being neutral, If runs exactly one branch by its condition, and Can is true exactly for kinds with a rule.",
  ["inputs", "programs"], "all trees x all reducers built from the library's reductions and combinators",
  "Six examples; the copy guarantee, parent links and nil handling are not asserted.",
  ["tree/reducer.go", "tree/chain_reductions.go"], [("RawReduce/Merge", "tree/reducer.go"), ("Chain/If", "tree/chain_reductions.go")], ["tree returned by Reduce, and the input tree afterwards"])
p("C17", "A reducer parsed from text equals the reducer built with calls",
  "For every reducer description in the textual language (rules, dotted chains, all operations, nested If/ChildIs, Nil, comments, free layout) Parse succeeds and the resulting reducer transforms every tree exactly as the same combinators called directly, with the last rule for a kind winning. Text outside the language is an error, never a panic or a silently different reducer.",
  ["inputs", "programs"], "all reducer descriptions x all trees",
  "Each operation appears once alone; chains, nested conditions, negative and multiple arguments combined are not covered.",
  ["tree/reducer/reducer.go"], [("Parse/evalReduction", "tree/reducer/reducer.go")], ["reducer.Parse result applied to trees"])
p("C18", "Run reports the first failing stage and otherwise the reduced tree",
  "For every lexer, parser and list of reducers, Run lexes once, and: returns ErrCouldNotLex if the lexer returns nil, the first error lexeme in input order if there is one, ErrCouldNotParse if the parser returns nil, ErrCouldNotReduce if a reducer returns nil, and otherwise the tree after applying the non-nil reducers in order. On any error the tree is nil and no later stage is run; Runner.Run behaves identically on every call.",
  ["inputs", "histories", "fault_sequences"], "all combinations of stage outcomes and call sequences",
  "Only reached through the example programs with well-behaved stages.",
  ["parlex.go", "helpers.go"], [("Run/Runner", "parlex.go"), ("LexErrors", "helpers.go")], ["Run results and the calls made to each stage"])
p("C19", "Symbols and productions are values identified by their text",
  "Within a symbol set equal texts always get the same index and distinct texts distinct, stable indexes counted from 0; a symbol converts between sets and representations without changing its text, and lookups never add symbols. Productions and production lists keep the symbols they were given, in order: casting, iterating, taking elements and adding symbols or productions to one never changes another; an index past the end gives nil, nil casts to nil, and LoadGrammar puts exactly the grammar's symbols into a new set.",
  ["histories", "inputs"], "all sequences of set, production and cast operations over several sets",
  "One test with three symbols.",
  ["symbol/setsymbol/set.go", "symbol/stringsymbol/symbol.go", "helpers.go"], [("Set/Production/Productions", "symbol/setsymbol/set.go"), ("iterators", "helpers.go")], ["results of every call"])
p("C20", "Grammar analysis computes first sets and symbol classes correctly",
  "For every grammar, Analyze answers: HasFirst(A, t) for a non-terminal A and terminal t exactly when some string of symbols derivable from A starts with t; Contains exactly for the symbols occurring in the grammar; NonTerminal exactly for symbols with productions; HasNilInFirst(A) exactly when an empty production is reachable from A by descending through leftmost symbols, stepping right only past symbols that derive the empty string. Recursion, nullable symbols and listing order do not affect the answers, and queries about unknown symbols answer false.",
  ["programs"], "all grammars and all queries",
  "Two non-recursive grammars.",
  ["analyze/analysis.go"], [("Analyze/firsts", "analyze/analysis.go")], ["HasFirst, Contains, NonTerminal, HasNilInFirst"])
p("C21", "The math example evaluates with standard precedence and associativity",
  "parlexmath.Eval gives, for every expression over numbers, one optional sign directly before a number, + - * / and parentheses, with any spacing, the value obtained by evaluating * and / before + and -, left to right, innermost parentheses first; every other string (including the empty one) is an error.",
  ["inputs"], "all input strings",
  "Nine expressions, no erroneous input.",
  ["examples/parlexmath/math.go", "parser/packrat/packrat.go", "tree/node_reductions.go"], [("grammar priorities + reducer", "examples/parlexmath/math.go")], ["Eval result"])
p("C22", "The JSON example formats without changing the document",
  "parlexjson.Format accepts exactly the texts of its JSON dialect (strings, unsigned decimals, true, false, null, arrays and objects, any white space) and returns text that, read back, is the same document with the same keys, values and order; formatting the output again returns it unchanged. Any other text is an error with an empty result.",
  ["inputs"], "all input strings",
  "One document and two failures.",
  ["examples/parlexjson/json.go", "parser/topdown/topdown.go", "grammar/regexgram/regexgram.go"], [("Format/prettyPrint", "examples/parlexjson/json.go")], ["Format result"])
p("C23", "The stack calculator evaluates reverse Polish expressions",
  "scalc.Eval gives, for every blank-separated sequence of numbers, unary and binary operators, value choices (x y c ?: y if c is positive, else x), parenthesised stacks and operators on a whole stack that end it, in which each operator finds its operands, the stack that left-to-right evaluation produces, bottom first, each value printed with the largest number of decimals among the numbers it was computed from. Sequences of numbers, unary and binary operators in which one lacks an operand, unbalanced parentheses, and text that does not lex, give nil.",
  ["inputs"], "all sequences of numbers, operators, value choices and parentheses",
  "About fifty fixed expressions, most with a single operator.",
  ["examples/scalc/scalc.go", "parser/packrat/packrat.go"], [("grammarRules/evalE", "examples/scalc/scalc.go")], ["Eval result"])
p("C24", "Must forms, iterators and the rendering of lexemes",
  "MustLexer, MustParser and MustGrammar return exactly what they were given when the error is nil and otherwise panic with that error; regexgram.Must, stacklexer.Must and reducer.Must panic exactly when New (Parse) of the same text returns an error, and otherwise give the same thing. LexErrors returns exactly the error lexemes, in order; one that a lexer made has the lexer's error kind and its Error() says 'Lex Error line:column) ' and its text. SymLen counts the characters of a symbol. A lexeme keeps its kind, value and position however it was made (line -1 until set) and is copied with all of them. LexemeString gives the kind, or 'kind: value' if the value is not empty, several lexemes joined by ', ' in square brackets, '' for none; LexemeList one line per lexeme, 'kind: ' and the value in Go quoting, followed by ' (line, column)' if line or column is above 0; (*Lexeme).String 'Lexeme{kind:value (line, column)}' with the value quoted and left out with its colon if empty, the position left out if line is -1. Iterators visit every symbol or production once, in order, with its index, and then Next stays false.",
  ["inputs"], "all lists of lexemes, all productions, all texts given to constructors",
  "A few fixed lists; MustParser, the Must forms of the packages and exhausted iterators are not tested.",
  ["helpers.go", "lexeme/lexeme.go", "grammar/regexgram/regexgram.go", "lexer/stacklexer/construct.go", "tree/reducer/reducer.go"], [("LexemeString/LexemeList/LexErrors/Must", "helpers.go"), ("Lexeme", "lexeme/lexeme.go")], ["returned values, texts and panics"])
p("C25", "Values and package functions may be used from several goroutines at once",
  "Lex on one lexer, Parse on one parser, Run on one Runner, the queries of one grammar (Productions, NonTerminals, String, IsLeftRecursive, RemoveLeftRecursion, Analyze) and of one analysis, Reduce with one reducer on one tree, and the package functions (New, Parse, Eval, Format) may be called by any number of goroutines at the same time, in every schedule: each call returns exactly what it returns when made alone, erroneous inputs included, and none writes memory that another reads. (Calls that change a value, such as Add or InsertStart, are not meant.)",
  ["schedules", "inputs", "histories"], "all interleavings of calls that do not change the value, all values and inputs",
  "No test uses more than one goroutine.",
  ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go", "grammar/grammar.go", "parlex.go", "tree/reducer/reducer.go", "grammar/regexgram/regexgram.go"], [("Lex", "lexer/stacklexer/lex.go"), ("Parse", "parser/packrat/packrat.go"), ("package-level lexers and runners", "grammar/regexgram/regexgram.go")], ["results of concurrent calls; unsynchronised memory accesses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
