import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A rule matches exactly the text its definition denotes",
 "Evaluating a named rule on a text matches exactly when the definition of the rule, by the documented meaning of literals, ranges, sequences, references and the other constructs, matches at the start of the text, and then uses exactly the chars that meaning gives. Otherwise the result carries no node and an error, also when the text ends early, a sequence fails late or a referenced rule does not exist.",
 ["inputs","programs"],"every grammar without left recursion, every rule of it and every text (any Unicode text, empty and long ones included)",
 "The tests evaluate some 120 fixed rule/text pairs; the rule combinations and the texts (failing late, at the end of the text, inside nested rules) are unbounded.",
 ["rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_concatenate.go","rule_reference.go","rule_eof.go","grammar.go"],
 [("Eval of every rule kind","rule_*.go"),("EvalRule","grammar.go")],["EvalResult.Node / Error / CharsRead / CharsUnused returned by Eval and EvalRule"])
p("C02","Looking ahead never loses, repeats or alters input",
 "After evaluating a rule, the chars reported as read are exactly the chars taken from the stream, in order, and the chars reported as unused are exactly the last ones of them: those after the match, or all of them when there is no match. Handing the unused chars back and continuing gives the same matches, nodes and positions as evaluating that place of the text on its own, however much was looked ahead before and however often chars were handed back.",
 ["inputs","programs","histories"],"every rule, text, place in the text and any sequence of evaluations over one stream with chars handed back in between, at any depth of handing back",
 "Tests look at the chars read and unused of single top level evaluations only; loss or repetition shows when an earlier alternative looked further ahead than the one that matched, inside sequences, repetitions, blocks and root rules.",
 ["charstream.go","rule.go","rule_concatenate.go","rule_repetition.go","rule_choice.go","rule_block.go","grammar.go"],
 [("CharsRead/CharsUnused bookkeeping","rule_*.go"),("CharstreamPrepend","charstream.go")],["EvalResult.CharsRead/CharsUnused, cursor of the stream, calls made on a user supplied stream"],
 [("CharsRead, CharsUnused","what an evaluation took from the stream and what of it it did not use","rule.go"),("prepend","chars handed back in front of a stream","charstream.go")])
p("C03","A choice takes the longest match of its first matching group",
 "Of the alternatives separated by '|' the one using most chars is taken whatever the order they are written in, and the choice fails as ambiguous exactly when two or more alternatives share that longest match. Alternatives after a '>' count only when no alternative before it matched, so a longer match after it never wins and an ambiguity before it is never resolved by it.",
 ["inputs","programs"],"every choice of any number of alternatives and groups, in any order, nested in any rule, and every text",
 "Tests use a few choices whose alternatives rarely compete; order, ties, three and more competitors and groups give too many combinations.",
 ["rule_choice.go","rule.go"],[("ChoiceRule.Eval: most greedy, ambiguity, groups","rule_choice.go")],["node chosen, chars used, error of Eval"])
p("C04","A repetition matches as often as possible within its bounds",
 "A repetition matches its rule repeatedly from where the previous match ended until the rule does not match, its maximum is reached or the text ends, has one child node per match, and fails exactly when there are fewer matches than its minimum: '*' or no bound means any number, '+' one or more, <min,max> at least min and at most max, <min>, <min,> and <min,0> no upper bound. An option always matches, with one child if its rule matches and without child and without using any char if not.",
 ["inputs","programs"],"every repetition or option over any rule, every pair of bounds, every text",
 "Tests use a handful of bounds and texts; bounds interact with what follows, with rules that can match empty text and with failing last iterations.",
 ["rule_repetition.go","rule_option.go"],[("RepetitionRule.Eval and inRepeatSpec","rule_repetition.go"),("OptionRule.Eval","rule_option.go")],["number of child nodes, chars used, error of Eval"])
p("C05","Whitespace is skipped exactly where a rule is allowed to skip it",
 "Whitespace is skipped exactly at the start of a rule (and of each round of a repetition) evaluated with skipping allowed, after a sequence member that is not sticky (not after one that is; an option that matched nothing changes nothing), and before a double quoted string unless skipping is forbidden there; single quoted literals and ranges are sticky, strings and blocks are not, and a composite is sticky exactly when everything it evaluated is. All 25 Unicode whitespace chars count, and a literal that itself starts with or is whitespace still matches the whitespace skipped before it.",
 ["inputs","programs"],"every rule, each of the three skipping modes, every text with whitespace of any kind and amount at any place",
 "Tests put single spaces and newlines at some places; where whitespace is allowed depends on the stickiness of everything evaluated before it.",
 ["rule.go","space.go","rule_concatenate.go","rule_choice.go","rule_repetition.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_eof.go"],
 [("flagLeadingSpaces","rule_*.go"),("EvalResult.Sticky","rule.go"),("IsWhiteSpace","space.go")],["whether a text matches, chars used, stickiness of results and nodes"])
p("C06","A block ends at its first unescaped close and admits no excluded text",
 "A block matches from its open rule to the first place after it where its close rule matches and is not preceded by a match of its escape rule, keeping all text in between, whitespace included, as content; it fails when an exclude rule matches anywhere before that without being escaped or when the text ends first. An escape match directly before text of the close or of an exclude rule is dropped from the content and that text is kept as content (before any other char the escape stays, written twice), and with '!' the text of the close is not part of the block but left for what follows.",
 ["inputs","programs"],"every block (with any open, close, escape and exclude rules, multi-char and composite ones included) and every text",
 "Tests run a few comments and quoted strings; escapes before escapes, partial closes, excludes overlapping closes and long contents are not reached.",
 ["rule_block.go","rule.go"],[("BlockRule.Eval","rule_block.go"),("mostGreedy","rule.go")],["open, content and close child nodes, chars used, error"])
p("C07","Parsing accounts for the whole text or reports an error",
 "Parsing a text with a validated grammar matches root rules (those no rule refers to) one after another from the first char to the last, at every place taking the root rule with the longest match, and returns one node per match in text order. If the text is empty, or at some place no root rule matches, two match equally long or only empty text matches, the result is an error and no tree: a tree never stands for only part of the text.",
 ["inputs","programs"],"every validated grammar with any number of root rules and every text",
 "Tests parse a few sample texts with one or two roots; dropped or repeated text between roots, late errors and ties over any grammar and text are out of reach.",
 ["grammar.go","ast.go"],[("EvalRaw","grammar.go"),("Validate: rootRules","grammar.go")],["AST.Nodes and error of Grammar.Eval/EvalRaw"])
p("C08","Embedded search partitions the text into matches and plain text",
 "Searching a text for a rule finds, from left to right, at every place not yet inside a match, the (non-empty) match of the rule there without skipping whitespace, and collects all chars between matches in plain text nodes. Matches and plain text together are exactly the text, in order, no two plain text nodes are adjacent, none is empty, and an undefined rule name gives an error.",
 ["inputs","programs"],"every grammar, rule name and text",
 "One test searches four texts for one rule.",
 ["grammar.go"],[("EvalEmbed","grammar.go")],["children of the embed node"])
p("C09","The raw tree mirrors the rules that matched and the text they matched",
 "The unsimplified tree of a match has for every evaluated rule one node of that rule's kind carrying the rule's name (none for an anonymous rule; a reference yields the node of the rule it refers to), with one child per matched part in text order and only leaves carrying chars. A leaf carries exactly the chars it matched, so the leaves in order give the matched text except for skipped whitespace and, in blocks, escapes.",
 ["inputs","programs"],"every grammar without left recursion, every rule and every text it matches",
 "Tests compare node text of a few results or print trees without comparing them.",
 ["node.go","rule_concatenate.go","rule_choice.go","rule_group.go","rule_option.go","rule_repetition.go","rule_reference.go","rule_block.go","rule_terminal_char.go"],
 [("node construction in Eval","rule_*.go")],["RuleType, RuleName, Chars and ChildNodes of every node"])
p("C10","Every node knows the line and column where its text starts",
 "In the tree of any parse each node that has text has the line and column (both from 1, a newline being the last char of its line) of the first char it matched, not counting skipped whitespace; block content has the place after its open. This holds whatever was looked ahead or handed back before and wherever in the text the node is.",
 ["inputs","programs"],"every grammar and text, texts of many lines and of any newline and whitespace layout included",
 "Tests check positions of a stream read forward; no test compares the position of any node.",
 ["charstream.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_group.go","rule_block.go","rule_concatenate.go","node.go"],
 [("positionMap","charstream.go"),("Node.Position","rule_*.go")],["Node.Position of every node"])
p("C11","Annotations mark exactly the annotated nodes",
 "A node is marked virtual, non-data or token exactly when the rule that made it is annotated with '~', '#' or '$', each annotation applying to the single construct right after it; an annotation on a reference inverts the mark of the referenced rule's node at that place only. Annotations never change what matches.",
 ["inputs","programs"],"every grammar with any combination of annotations at any place and any chain of annotated references, and every text",
 "Tests use two or three annotated rules and look only at the text left after simplification.",
 ["grammar.go","rule.go","rule_reference.go"],[("setAnnotation during parsing of a definition","grammar.go"),("toggle in ReferenceRule.Eval","rule_reference.go")],["Virtual, NonData, Tokenized of every node"])
p("C12","Simplification keeps all text except what it is told to drop",
 "Simplifying a tree merges each run of adjacent sticky siblings into the first of them with their texts joined (never a token, never across a non-sticky sibling, and never open, content and close of a block), removes exactly the nodes marked virtual or non-data with their subtrees at the levels that ask for it, and drops unnamed nodes only by lifting their children or text into their parent (one without any text goes with all below it); all other text stays, in order, and every named node that is not merged or removed stays. The raw level returns the tree unchanged, the basic level merges and drops unnamed nodes, the next levels also remove virtual and then virtual and non-data nodes.",
 ["inputs","histories"],"every tree (parsed or built by the user) and any sequence of the simplification passes; each of the four levels",
 "Tests print some simplified trees and compare the text of few; merging interacts with names, marks and nesting in unbounded ways.",
 ["ast.go","node.go","grammar.go"],[("MergeStickyNodes","node.go, ast.go"),("RemoveVirtualNodes, RemoveNonDataNodes, RemoveRedundantNodes","node.go, ast.go"),("levels in Grammar.Eval","grammar.go")],["the tree after each pass, the tree returned by Eval at each level"])
p("C13","Defining, parsing, searching and printing always end without panic",
 "For every definition text, every grammar without left recursion and every text, adding rules, validating, evaluating, parsing, searching, simplifying and printing return a result or an error: they never panic, hang or consume unbounded memory. In particular rules that match empty text inside repetitions, blocks, searches and as root rules do not loop forever.",
 ["inputs","programs"],"every definition text, grammar without left recursion and text, empty matches at every place where a loop is",
 "No test has a rule matching empty text inside a loop, nor malformed definitions beyond a few.",
 ["grammar.go","rule_repetition.go","rule_block.go","rule_choice.go","charstream.go","node.go"],
 [("progress checks of loops","rule_repetition.go, rule_block.go, grammar.go"),("error returns of the definition parser","grammar.go, rule_*.go")],["return of each call within a time and memory bound, no panic"])
p("C14","A grammar gives the same result every time, also to concurrent users",
 "Parsing, evaluating and searching do not change the grammar: the same call on the same grammar and text gives the same result in any order, after any other calls (failed ones included) and after trees of earlier results were simplified or changed. Any number of goroutines may evaluate with one grammar at the same time, each with its own stream, and each gets the result it would get alone, without data races.",
 ["schedules","histories","inputs"],"every grammar and text, every sequence of earlier calls, every interleaving of concurrent evaluations",
 "Tests use each grammar from one goroutine and most for one call per text; map iteration order and interleavings differ from run to run.",
 ["grammar.go","rule.go","rule_reference.go","rule_choice.go","node.go"],[("evaluation keeps its state in results and nodes of its own","rule_*.go"),("read-only Grammar during evaluation","grammar.go")],["results of repeated and concurrent calls, reports of the race detector"])
p("C15","A char stream delivers each char once, in order, and knows its place",
 "A stream over a text delivers its chars in order, each once, however reading, peeking, matching and skipping of whitespace are mixed, and end of text ever after; peeking moves nothing, matching consumes up to and including the first difference and returns exactly what it consumed, skipping returns exactly the whitespace run, and the cursor counts the chars consumed. The position of the next char and of every char already read is its line and column, and chars handed back in front of a stream are delivered again before the rest with their original cursor and positions.",
 ["inputs","histories"],"every text and every sequence of stream operations, with chars handed back any number of times, nested included",
 "Tests read five short texts forward and look up positions afterwards; mixed operations over nested streams are not tested.",
 ["charstream.go","space.go"],[("CharstreamString","charstream.go"),("CharstreamPrepend","charstream.go"),("positionMap","charstream.go")],["return values of Next, Peek, Match, SkipSpaces, Cursor, Position, PositionLookup"],
 [("cursor","chars consumed so far","charstream.go"),("positionMap.lines","newline indexes read so far","charstream.go")])
p("C16","One stream used by several goroutines behaves as if used by one",
 "Operations called concurrently on one stream, with or without chars handed back in front of it, have the results some one-after-another order of them would give that respects which finished before which started. So each char is delivered to exactly one reader, in order for each reader, and there are no data races.",
 ["schedules","inputs"],"every text, any number of goroutines and every interleaving of stream operations",
 "No test uses a stream from two goroutines.",
 ["charstream.go"],[("lock of CharstreamString and CharstreamPrepend","charstream.go")],["return values with call and return order, reports of the race detector"])
p("C17","A grammar is exactly the rules successfully added to it",
 "Whatever calls come before, adding a rule succeeds exactly when its name is valid and not yet defined and its definition is well formed; a failed call, of a whole grammar text too, leaves the grammar as it was. Validation succeeds exactly when every referenced rule is defined, and after a successful validation the root rules are exactly those no rule refers to (themselves included), the terminals exactly those referring to no rule, whenever rules were added; the listing shows all rules, their line, definition and users.",
 ["histories","inputs"],"every sequence of adding rules (valid, duplicate, malformed, in any order of reference), validating, listing and parsing",
 "Tests build each grammar once, from a correct text, and never add after validating or after a failure.",
 ["grammar.go","rule.go","rule_reference.go"],[("ParseRule, AddRule, AddUsage, Validate","grammar.go"),("validateRuleName","rule.go"),("NewGrammarFromString/File, Serialize","grammar.go")],["errors, GetRule/GetRecord, root rules used by parsing, Serialize"],
 [("ruleRecords","rules by name","grammar.go"),("nonRoots","which rules use a rule","grammar.go"),("rootRules, terminals","result of the last validation","grammar.go")])
p("C18","A definition is accepted and understood as the notation says",
 "A definition text is accepted exactly when it is well formed in the documented notation, and malformed ones (unclosed brackets or quotes, bad escapes, bounds or ranges, misplaced operators, annotations or stray chars) give an error. An accepted one means what the notation says: '|' and '>' bind tighter than sequence, brackets group, whitespace of any kind and // comments up to the end of a line do not matter outside quotes and blocks (where spaces separate the rules), and \\uXXXX and escaped chars stand for the char they denote.",
 ["inputs"],"every definition text",
 "Tests parse about 60 definitions, 2 of them malformed.",
 ["grammar.go","rule_choice.go","rule_block.go","rule_repetition.go","rule_terminal_char.go","rule_terminal_string.go","rule_terminal_range.go","rule_group.go","rule_option.go","rule_reference.go"],
 [("Grammar.parse, parseOne","grammar.go"),("inChar, inString, inUnicode, inRange, inChoice, inOption, inGroup, inRepetition, inBlock, inReference","rule_*.go")],["error of ParseRule/AddRule/NewGrammarFromString, behaviour and printed form of the rule"])
p("C19","A printed definition reads back as the same rule",
 "The definition a rule prints for itself, in the notation, is accepted again and denotes the same rule: same literals, bounds, alternatives, groups, blocks and annotations, matching the same texts with the same leaves and marks. Printing what was read back gives the same text again, and the lines of the grammar listing can be read back likewise.",
 ["inputs","programs"],"every rule that can be defined, with any chars, escapes and annotations in it",
 "Tests compare the printed form of about 60 definitions with a constant and never read it back.",
 ["rule.go","rule_choice.go","rule_block.go","rule_repetition.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_reference.go","grammar.go"],
 [("String() of every rule kind","rule_*.go"),("Serialize","grammar.go")],["IRule.String(), Serialize()"])
p("C20","The command prints what the library computes for its arguments",
 "The command adds the rules of the -xbnf file and then those of the -rule arguments to one grammar, each of the two being optional, and for each -text argument and then each -file argument in order prints the parse tree at the basic level with all nodes still marked virtual or non-data then removed, or an error after which it stops. With no or only unusable rules it prints an error or its usage and no tree, and it never crashes.",
 ["inputs","configurations"],"every combination of rule file, rules, texts and text files, valid or not",
 "The one test of the command runs it on files that do not exist and checks nothing.",
 ["main/xbnf.go","grammar.go","ast.go"],[("main","main/xbnf.go")],["standard output and exit of the command"])
p("C21","Text, counts and dump of a tree agree with the tree",
 "The text of a node is the texts of its leaves in order with one space put between two parts that are not both sticky and have no whitespace at their border, none inside blocks; node, token and sticky counts are the numbers of nodes, leaves and sticky nodes below and including it. The dump shows every node once, children under their parent in order, each with its position, name, kind if asked for, marks and, for leaves, text, and asking for any of these changes nothing in the tree.",
 ["inputs"],"every tree, parsed or built by the user, and every dump configuration",
 "Tests print dumps without looking at them and compare few texts; no test counts.",
 ["node.go","ast.go"],[("Text, CountNodes, CountTokens, CountStickyNodes, StringTree","node.go, ast.go")],["return values of Text, Count*, StringTree"])
p("C22","An error says what is wrong and where",
 "The error of a failed evaluation or parse names at least one cause, whatever was looked ahead before it and wherever in the text, and none that is not there: what is missing at a line and column is a literal or range the rules ask for there (before or after the whitespace it skips; EOF where the text ends), an excluded text is one found in the block, an undefined rule one referred to, an ambiguity one of equally long longest matches. The error of a grammar text names its first wrong line, that of a rule defined twice where it was first defined, that of a failed validation a rule referred to and not defined.",
 ["inputs"],"every grammar, text and start, and every grammar text",
 "Tests check that some evaluations fail, and hardly ever with which error.",
 ["rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_choice.go","rule_concatenate.go","rule_repetition.go","rule_block.go","rule_eof.go","grammar.go"],
 [("Eval of every rule kind: evalResult.Error, ErrIdx","rule_*.go"),("EvalRaw, Validate, ParseRule, NewGrammarFromString","grammar.go"),("positions","charstream.go")],["text of EvalResult.Error and of the errors of Eval, Validate, AddRule, NewGrammarFromString/File"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import collections
print(len(P))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print("long",x["id"],n)
