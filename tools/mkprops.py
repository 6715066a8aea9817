#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Parsing is lossless: the tree's words spell the whole input, in order",
 "For every accepted text, the words of the tree returned by Parser.Text (in Visit order, including spaces, punctuation and free modifiers) cover the input with no gap, overlap or reordering: each word's [S,E) is adjacent to the next, starting at 0 and ending at the length of the text. Each word's T is the input slice with only its tone marks normalised to precomposed letters and the letter i to dotless ı, so the concatenation of all T is the normalised input, and every free modifier (space, interjection, parenthetical, incidental, vocative) hangs on the word it follows.",
 ["inputs"], "every text the grammar accepts, in every spelling of tones, case, spacing and free modifiers",
 "Unit tests parse about a hundred fixed sentences and most compare only the shape; a modifier dropped or moved in one of ~60 rule actions shows only in texts with a modifier at that exact place.",
 ["ast/toaq.peggy", "ast/toaq.go", "ast/nodes.go", "ast/ast.go"],
 [("mod* methods attach trailing modifiers to the last word", "ast/ast.go"), ("rule actions pass every _ capture on", "ast/toaq.peggy, ast/nodes.go")],
 ["Parser.Text", "Visit", "Word.T/S/E/M"])

prop("C02", "The parser accepts exactly the grammar's language, with the grammar's tree",
 "Parser.Text and Parser.Tree accept a text if and only if the documented Toaq PEG grammar (toaq.peggy: ordered choice, greedy repetition, lookahead) derives it in full, and both reject it otherwise. For an accepted text the AST is the one the grammar assigns: node types, nesting, associativity, which optional closers and markers are present, which word fills which field.",
 ["inputs"], "every text over the Toaq alphabet, valid, nearly valid or arbitrary",
 "The tests are a fixed list of sentences; the generated recogniser has ~115k lines whose memoisation, lookahead and choice order interact, and an error shows only for particular word sequences.",
 ["ast/toaq.peggy", "ast/toaq.go", "ast/nodes.go", "ast/parser.go"],
 [("packrat accepts functions", "ast/toaq.go"), ("AST actions", "ast/toaq.peggy, ast/nodes.go")],
 ["Parser.Text", "Parser.Tree"])

prop("C03", "Every node's Start/End is the exact byte span of its own words",
 "For every node of every tree Parser.Text returns, Start() and End() are the byte offsets of the first byte of the node's first word and one past the last byte of its last word, not counting modifiers that trail the node; so 0 <= Start <= End <= len(text), a child's span lies in its parent's, and siblings come in order without overlapping. A text without any sentence or fragment spans its leading space.",
 ["inputs"], "every accepted text and every node in its tree, whatever optional words are present or absent",
 "Tests never call Start or End on most node types; each type has several presence/absence combinations of optional words.",
 ["ast/ast.go"], [("Start/End methods", "ast/ast.go"), ("start and end captures", "ast/toaq.peggy")],
 ["Node.Start", "Node.End"])

prop("C04", "Syntax errors point at the deepest failure, in bytes and in line.column",
 "For every rejected text, the error from Text and from Tree has ByteOffset equal to the furthest position at which any alternative of the grammar failed, where a failed lookahead and a failure inside of a space or at the end of the text count where they start (never past the text, and never past the first byte that is not valid text). Its message names the parser's FilePath, the 1-based line and column of that same position, and all that the grammar wanted there (or only a space, if a space was wanted). All of this is obtained in time polynomial in the length of the text.",
 ["inputs"], "every rejected text, single- or multi-line, ASCII or multi-byte, at every failure position",
 "One unit test checks one error; the deepest failure depends on which of hundreds of backtracked alternatives got furthest.",
 ["ast/parser.go", "ast/toaq.go"], [("furthest-failure tracking", "ast/toaq.go"), ("error construction", "ast/parser.go parse/error")],
 ["Error.Error", "Error.ByteOffset", "Error.Tree"])

prop("C05", "Parsing, rendering and tone functions are total on arbitrary bytes",
 "For every byte string, Parser.Text, Parser.Tree and Parser.Word (at every offset in the text) return either a result or an Error, and never panic, hang or return both or neither; no text that contains invalid UTF-8 is accepted. Every tree that is returned can be visited, compared, spanned, converted to ASCII and brace-printed without a panic, and the tone functions never panic on any string.",
 ["inputs"], "every byte string, including control characters, invalid UTF-8, deep nesting and long repetition",
 "Tests only use well-formed sentences.",
 ["ast/parser.go", "ast/toaq.go", "ast/visit.go", "ast/braces.go", "ast/equal.go", "tone/tone.go"],
 [("recogniser bounds checks", "ast/toaq.go"), ("parseFullText requires full consumption", "ast/parser.go")],
 ["Parser.Text", "Parser.Tree", "Parser.Word", "BracesString", "Visit", "Equal", "tone.*"])

prop("C06", "A Parser's results depend only on the text, not on earlier calls",
 "In any sequence of Text, Tree and Word calls on one Parser (with FilePath set at any point before a call), every call returns what the same call returns on a new Parser: equal trees, the same lengths, and the same error message, offset and fail tree. Results are isolated: modifying a returned tree, word or error tree in any way changes nothing that earlier or later calls return, and parsers used from different goroutines do not affect each other.",
 ["histories", "inputs", "schedules"], "every text, every sequence of calls and of mutations of returned values",
 "The tests call one method once per parser; the packrat memo tables are shared by all calls on a parser.",
 ["ast/parser.go"], [("memo tables are reset after use", "ast/parser.go Tree/Word/Text/parse")],
 ["Parser.Text", "Parser.Tree", "Parser.Word"])

prop("C07", "Parser.Word reads exactly one word at any offset, as the grammar lexes it",
 "For every text and offset, Word(offset) succeeds if and only if the grammar's word rule matches there; the returned word starts at the offset, its text is the word's normalised spelling, any following space or punctuation is attached as its modifier, and the returned length covers both, so repeated calls walk the whole of any accepted text word by word (except where moq is followed by question marks). On failure the error's offset and, for offsets between letters, the line and column in its message give the deepest failure of the word at that offset, and the message says all that the grammar wanted there.",
 ["inputs", "histories"], "every text and every byte offset into it",
 "No unit test calls Word at a non-zero offset or on failing input.",
 ["ast/parser.go", "ast/toaq.peggy"], [("Parser.Word", "ast/parser.go"), ("word rule", "ast/toaq.peggy")],
 ["Parser.Word"])

prop("C08", "All spellings of a text parse alike: tone notation, letter case and dots",
 "Re-spelling any text by another notation of the same tones (precomposed letters, combining marks, ASCII marks -/V?^\\~ or digits 1-7, right after the vowel or, where a boundary follows, after the syllable), another letter case, i for ı, or breve for caron, changes neither whether it is accepted nor the shape of its tree (a ? after moq is punctuation, not a tone). Up to letter case (and breve for caron) the words' texts are identical too, and ToASCII of the tree yields the same ASCII spelling.",
 ["inputs"], "every text and every combination of spellings, chosen per syllable",
 "Tests use a handful of spellings of single words; each vowel, tone, notation and case has its own table entry and grammar alternative.",
 ["ast/toaq.peggy", "ast/nodes.go", "tone/tone.go"], [("vowel rules and addTone", "ast/toaq.peggy, ast/nodes.go"), ("Diacritic table", "tone/tone.go")],
 ["Parser.Text", "ast.ToASCII"])

prop("C09", "Tone functions obey their laws on every word",
 "For every word the parser can produce: ToASCII is plain ASCII with each toned syllable's marker right after the syllable and every letter otherwise kept in order and case; Strip is ToASCII without markers; Tone is the tone of the first syllable in either notation; and WithTone(w,t) changes only the first vowel so that Tone is t, in the form the Diacritic table gives. They agree with each other: stripping is idempotent and ignores WithTone, re-toning with its own tone restores a word, and parsing ToASCII(w) gives back w (both with caron for breve).",
 ["inputs"], "every word (any number of syllables, each vowel cluster, tone, case and form) and every tone",
 "The unit test has about ten words per function.",
 ["tone/tone.go"], [("ToASCII/Strip/WithTone/Tone", "tone/tone.go")],
 ["tone.ToASCII", "tone.Strip", "tone.WithTone", "tone.Tone", "tone.Diacritic"])

prop("C10", "Visit reaches every node exactly once, in text order, with proper nesting",
 "On every tree, Visit calls the visitor on the node and then on each non-nil child, once each and in the textual order of their words, descending through the Word, CoP and LUPhrase inside derived nodes. The children are visited with the visitor that was returned for their parent, each non-nil returned visitor gets exactly one closing Visit(nil) after its node's children, a nil visitor prunes exactly that node's subtree, and the tree is not modified.",
 ["inputs", "programs"], "every accepted text, every node as root, and every visitor (any pruning and any replacement of visitors)",
 "Tests visit a few trees with one visitor that never prunes.",
 ["ast/visit.go"], [("Visit", "ast/visit.go")], ["ast.Visit"])

prop("C11", "Equal is structural equality: positions ignored, everything else counted",
 "For every two trees or subtrees a and b that the parser can produce, Equal(a,b) is true if and only if they have the same node types, the same optional parts present and the same words with the same modifiers, whatever the words' offsets. It is therefore reflexive, symmetric and transitive, a change of any single word, modifier or part is noticed, and it never modifies its arguments.",
 ["inputs"], "every pair of nodes of parsed trees, equal or differing in one place",
 "The tests compare a fixed table of pairs; each of ~30 node types has several fields whose omission goes unnoticed unless two trees differ only there.",
 ["ast/equal.go"], [("Equal/copEqual/wordEqual", "ast/equal.go")], ["ast.Equal"])

prop("C12", "BracesString shows every word once and exactly the tree's nesting",
 "For every tree, BracesString writes the text of every non-space word once, in text order, separated by single spaces; braces surround exactly the nodes with two or more shown children, cycling (), {}, [], <> by depth. It is always well balanced, and the original spacing never affects it.",
 ["inputs"], "every accepted text and every node in its tree",
 "Tests check a few dozen fixed strings; nesting deeper than the four brace kinds and modifiers in unusual places are not covered.",
 ["ast/braces.go"], [("braces/braceKids", "ast/braces.go")], ["ast.BracesString"])

prop("C13", "Interpretation is total, deterministic and leaves the tree untouched",
 "For every accepted text that uses only the supported constructs, Interpret returns without panicking, in a time that follows the size of what it returns (not exponential in the number of terms), and returns nil if and only if the text has no sentence. Interpreting twice, or two equal trees, gives equal results; the AST is not modified; and results of different calls share nothing that a change to one could show in the other.",
 ["inputs", "histories"], "every accepted text in the supported fragment, interpreted any number of times",
 "Tests interpret ~100 fixed sentences once each; panics come from combinations of clause types in positions where the interpreter asserts a concrete type.",
 ["logic/interp.go", "logic/simplify.go"], [("Interpret", "logic/interp.go")], ["logic.Interpret"])

prop("C14", "Interpretations are well-scoped: variables point to the binders around them",
 "In every interpretation, wherever a bound variable occurs, its Def is a Binding whose scope or restriction contains it there, with the same number; no Binding is inside of itself, and no two bindings or free variables have the same number (connected branches may share the same nodes). No Connection, Binding, Predication, Abstraction, Plurality or Serial lacks a required part, a Serial never contains a connective, and numbers are assigned consecutively from 0 in reading order, to each node once.",
 ["inputs"], "every accepted text in the supported fragment, whatever is lifted, distributed or substituted",
 "Scope errors come from lifting ι- and hi-bindings and from substitution when clauses nest or are distributed over connectives; the tests' sentences combine at most two of these.",
 ["logic/interp.go", "logic/simplify.go"], [("theScope/hiScope/liftedScope", "logic/interp.go"), ("clearHiFreeVarDefs", "logic/interp.go"), ("sub/lambdaSub", "logic/simplify.go")],
 ["logic.Interpret"])

prop("C15", "Connectives distribute: each branch keeps its own and all the shared parts",
 "A text with ru, ra or ri between arguments, linked arguments, term sets, predicates (also inside serials and predicatizers), adverbs, prepositions, prepositional arguments, relative or content clauses, statements or sentences means the connection of the two texts with one side each, nested in the order the connectives open, forethought or afterthought alike. Nothing is lost, duplicated or swapped between branches, and ι- and hi-bindings shared by the branches are bound once, around the connection.",
 ["inputs"], "every supported text with any number of connectives of any kind in any position",
 "Tests have one or two connectives per sentence; branch contamination needs several connectives after a shared prefix of terms.",
 ["logic/interp.go"], [("prenexStatement, distributePredication, poArgument, roiLeft/Right", "logic/interp.go")], ["logic.Interpret"])

prop("C16", "Arguments reach the right places, through prenexes and linking words",
 "In every interpretation, arguments linked by fi, go, cu and ta stand in places 1 to 4 and the others fill the remaining places in textual order, with empty places only where a link skips ahead. Arguments before pa precede the statement's own arguments while those before bi bind variables without becoming arguments, through nested prenexes and into both sides of a connected statement; sentences of a text are conjoined in order and fragments are ignored.",
 ["inputs"], "every supported text with any terms, prenexes, linking words and connected statements",
 "Tests link at most two arguments and nest at most two prenexes.",
 ["logic/interp.go"], [("orderArguments, prenexStatement, statement", "logic/interp.go")], ["logic.Interpret"])

prop("C17", "Quantifiers bind with the documented quantifier at the documented scope",
 "sa, tu, sia and ja bind ∃, ∀, ∄ and λ in place, in textual order, around exactly the rest of their statement, restricted by the argument's predicate; an unquantified or ke argument is ι-bound at the top of the text when its restriction depends on no other variable and by Λ in place otherwise; hi is ¿-bound at the top of its own clause. roi makes one plural argument from its members, ι-bound in place, and focus marks the uses of a focused argument (and its binder, if bi drops it).",
 ["inputs"], "every supported text with any mix and nesting of quantified arguments, clauses and connectives",
 "Tests have one or two quantifiers per sentence; scope depends on free variables of nested clauses and on what was lifted before.",
 ["logic/interp.go"], [("predicateArgument, subordinate, hasFreeVars, roi", "logic/interp.go")], ["logic.Interpret"])

prop("C18", "do-variables, hoa and relative clauses refer to the right binder",
 "A quantified do-word binds the later uses of the same word (ignoring tone and letter case) in the rest of its statement, the innermost binder winning; an unquantified one refers to it or is free. hoa refers to the innermost relative clause's head (or the λ of lu), a clause without arguments gets that head as its argument, a relative clause is conjoined to its head's restriction, and a relative clause on a variable or hoa, or a quantifier on hoa, makes a variable for those among it.",
 ["inputs"], "every supported text with any nesting and shadowing of variables, relative clauses and lu-clauses",
 "Tests use one variable and at most one relative clause inside another.",
 ["logic/interp.go", "logic/simplify.go"], [("varArgument, hoaArgument, relativeClause, splitVar", "logic/interp.go"), ("addHoa", "logic/simplify.go")], ["logic.Interpret"])

prop("C19", "Predicatizers, quotes, content clauses and serials keep their meaning",
 "po, jei, mi, shu, mo, lu, li, lo, ma, tio, content clauses and serial predicates denote raq(x,a), x=a, chua(quote,x), x=phrase quote, x=text quote, the (λ-)abstraction of the clause, and left∘right compositions, with quotes holding exactly the quoted words. Simplification preserves meaning: an argument equal to a quote, plurality or abstraction is replaced by it, a fully applied λ by its body with the right arguments in the right places, and nothing else is changed, dropped or captured.",
 ["inputs"], "every supported text with predicatizers, quotes, content clauses and serials in any predicate or argument position",
 "Tests cover each construct once or twice in one position.",
 ["logic/interp.go", "logic/simplify.go"], [("predicate, makeLambda, poPredicate", "logic/interp.go"), ("sub, lambdaSub, swap", "logic/simplify.go")], ["logic.Interpret"])

prop("C20", "Adverbs and prepositions apply to exactly the rest of the statement",
 "An adverb term means adverb({rest}) and a prepositional term means preposition({rest}, argument), where rest is the statement with the terms before it as arguments and the terms after it, in order; terms before keep scope over the whole, and the preposition's own argument binds variables in rest. The rest stays in the scope of every variable it uses.",
 ["inputs"], "every supported text with any number of adverbs and prepositional phrases among arguments, prenexes, clauses and connectives",
 "Tests place at most one or two adverbs or prepositions with plain arguments.",
 ["logic/interp.go"], [("prenexStatement Adverb/Preposition cases, preposition, adverb", "logic/interp.go")], ["logic.Interpret"])

prop("C21", "Meaning does not depend on spelling, spacing, modifiers or fore/afterthought",
 "For every supported text, the interpretation (as printed by logic.String) is unchanged by re-spelling tones or letter case, by changing the spacing and punctuation between words, by inserting interjections, parentheticals, incidentals or vocatives as free modifiers outside quotes, by adding an optional closer where it closes what would end there anyway, and by writing a connective in forethought form instead of afterthought form.",
 ["inputs"], "every supported text and every such rewriting of it",
 "Tests interpret one spelling of each sentence.",
 ["logic/interp.go", "ast/toaq.peggy"], [("hasText, wordPred, splitVar, isHoaPredicate", "logic/interp.go")], ["logic.Interpret", "logic.String"])

prop("C22", "String and PrettyString print formulas faithfully and unambiguously",
 "For every interpretation, String can be read back to the same formula (up to associativity of equal connectives and of serials, and variable renaming): different variables get different names (in a formula with consecutive variable numbers, U if free, else the initial of the leftmost predicate of the restriction, passing over shi, or X, Y, Z if there is none, numbered in order of occurrence if not unique), scopes and restrictions are delimited, every argument including empty places is shown, and operators are infix only with two arguments. PrettyString differs from String only in the glyphs of ι and of variable names, printing modifies nothing, and any subformula can be printed on its own.",
 ["inputs"], "every interpretation of a supported text and every node in it",
 "Tests compare fixed strings; name clashes need many variables with the same initial.",
 ["logic/string.go"], [("print, varRune, parens", "logic/string.go")], ["logic.String", "logic.PrettyString"])

prop("C23", "Formula Visit and NillOutAST reach every node once and nothing else",
 "For every interpretation and every node in it, Visit calls the function exactly once for the node and each occurrence of a non-nil descendant, in depth-first pre-order with restriction before scope, left before right and predicate before arguments. NillOutAST clears the AST reference of exactly those nodes and changes nothing else; before that, every node refers to an AST node (except conjunctions with a relative clause, bodies of content clauses and quotes, and implied hoa), and but for abstractions to one of the text's own AST, namely the one that it stems from: the word of a predicate name, the quoted phrase, the argument of a variable or binding, the connective, the phrase around a predicate.",
 ["inputs"], "every interpretation of a supported text and every node in it",
 "No unit test covers Visit or the AST references directly.",
 ["logic/visit.go", "logic/logic.go"], [("Visit methods, NillOutAST", "logic/visit.go")], ["logic.Node.Visit", "logic.NillOutAST", "Node.ASTNode"])

prop("C24", "The server answers every request, with the same analysis as the library",
 "For every request body, POST / answers 200 with a JSON object: for a rejected text, only the parser's error; otherwise the braces, AST, normalised text and parse tree of exactly that text, and the interpretation, \"fragment\", or a message when interpretation is unsupported. GET answers with the page, and below /font/ with the file of that name, or 404 if there is none. Other methods than GET and POST get 405, and no sequence or concurrent mix of requests crashes the server or changes any answer.",
 ["inputs", "histories", "schedules"], "every request body and method, any sequence and any concurrency of requests",
 "The server has no tests.",
 ["server/server.go"], [("rootHandler, safeInterp", "server/server.go")], ["HTTP responses"])

prop("C25", "The bot answers every .miu message, exactly once and correctly",
 "For every sequence of chat events, the bot replies exactly once, in order, to each message whose text (after removing the name prefix of messages relayed by the bridge bot) begins with .miu, and to nothing else. The reply is the syntax error, or the brace form followed by the interpretation, \"fragment\" or a message when interpretation is unsupported; no message makes the bot stop.",
 ["inputs", "histories"], "every sequence of chat events with every text and sender",
 "The bot has no tests (it cannot be built without the chat library, for which the check substitutes a stand-in).",
 ["bot/bot.go"], [("run, parse, fixBridgeMessage, safeInterp", "bot/bot.go")], ["chat.Channel.Send"])

prop("C26", "dict.Load returns every entry under its normal form, or an error",
 "For every server response, Load returns either a map or an error and never panics: a successful response's entries appear under their lower-case toneless ASCII headword, with definition, author and score unchanged and the last of equal headwords winning; an unsuccessful or malformed one yields an error that carries the server's message if it has one. The query is posted unchanged, and the built-in Words map is keyed by each entry's own word in that normal form.",
 ["inputs", "fault_sequences"], "every HTTP response to Load, and every entry of Words",
 "The only test looks up one built-in word; Load is never called.",
 ["dict/dict.go", "dict/words.go"], [("Load", "dict/dict.go")], ["dict.Load", "dict.Words"])

prop("C27", "The command-line program prints the library's analysis and the right status",
 "For every input, given as a file argument or on standard input, the program exits 0 exactly when the text is accepted (and its constructs are supported) and then prints the parse tree, the AST, the normalised text, the braces and the interpretation or \"fragment\". For a rejected text or an unreadable file it exits with status 1 and prints the located error.",
 ["inputs"], "every input text, by file and by standard input",
 "The program has no tests.",
 ["main.go"], [("main", "main.go")], ["stdout", "exit status"])

prop("C28", "The dictionary generator writes exactly the loaded words as Go source, or fails",
 "For every answer of the Toadua server, the program dict/main.go (go generate) asks for the whole dictionary once and either exits 0 and leaves at -o exactly one valid Go file of package dict, which declares Words as the map of the normalised entries with every headword, definition, author and score unchanged (whatever characters they contain), or prints a message (the server's, if it has one) and exits 1; if the words could not be loaded, an existing output file is left as it was.",
 ["inputs", "fault_sequences"], "every answer of the server, every state of the output file",
 "The program has no tests and needs the network.",
 ["dict/main.go", "dict/dict.go"], [("main, gofmt", "dict/main.go")], ["exit status", "the output file"])

prop("C29", "Concurrent use is safe: no data races, and the results of use one by one",
 "For every schedule, goroutines that use the packages at the same time (their own parsers and trees; the tone functions; reading, printing, comparing and interpreting trees, errors and formulas that they share) have no data race and get the results that the same uses give one by one; so do concurrent requests to the server and the messages on several channels of the bot.",
 ["inputs", "schedules"], "every mix of concurrent uses of the packages, the server and the bot",
 "The tests are sequential; the server and the bot run a goroutine for each request or channel.",
 ["ast/parser.go", "ast/toaq.go", "ast/braces.go", "ast/equal.go", "ast/visit.go", "logic/interp.go", "logic/string.go", "tone/tone.go", "server/server.go", "bot/bot.go"], [("NewParser", "ast/parser.go"), ("Interpret", "logic/interp.go"), ("rootHandler", "server/server.go"), ("run", "bot/bot.go")], ["ast.Parser", "logic.Interpret", "the answers of the server", "the replies of the bot"])

prop("C30", "Printed trees show every node, field and word of the tree, and nothing else",
 "For every accepted text, the pretty-printed AST (as the server and the command show it) has each node's type, each of its fields that is present by name and in order, each element of its lists, and each word as its text in quotes (after the type, if it is a predicate, interjection or space), without offsets or modifiers of words; the brackets and quotes are closed. The pretty-printed interpretation likewise shows every quantifier, connector, place (nil if empty), quote and predicate, and each variable as its number with * if focused, so it is finite; and so does any node of either on its own.",
 ["inputs"], "every accepted text, its AST and its interpretation, and every node of them",
 "No test prints a tree.",
 ["ast/ast.go", "logic/logic.go", "main.go", "server/server.go"], [("PrettyPrint of Word, WordPredicate, Interjection and Space", "ast/ast.go"), ("PrettyPrint of Variable, Quote and Pred", "logic/logic.go")], ["pretty.String of *ast.Text and logic.Statement"])

prop("C31", "The page shows the server's answer to the text, or selects where it is wrong",
 "Before any answer, neither a result nor an error is shown. For every sequence of texts that a user enters in the server's page and sends by its button, with the cursor anywhere: the text stays as entered; if it is accepted, the panels Braces, Logic, Text, AST and Parse are shown and hold exactly the analysis of this text (whatever characters it has, never as markup; AST and Parse keep their indentation), and no error is shown; if it is rejected, only the error is shown, and the text area gets the focus with the text selected from the place of the error to the end. What an earlier text left behind makes no difference.",
 ["inputs", "histories"], "every sequence of texts",
 "No test runs the server or the scripts of its page.",
 ["server/template", "server/server.go"], [("escapeHtml, showResults, showError, parse", "server/template"), ("rootHandler", "server/server.go")], ["the panels and the text area of the page"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
