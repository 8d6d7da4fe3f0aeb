-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* The printed dump of a tree, char by char.                               *)
(***************************************************************************)
EXTENDS Tree

KindName == [
    EOF |-> <<69, 79, 70>>,
    char |-> <<99, 104, 97, 114>>,
    range |-> <<114, 97, 110, 103, 101>>,
    chars |-> <<99, 104, 97, 114, 115>>,
    string |-> <<115, 116, 114, 105, 110, 103>>,
    group |-> <<103, 114, 111, 117, 112>>,
    option |-> <<111, 112, 116, 105, 111, 110>>,
    block |-> <<98, 108, 111, 99, 107>>,
    reference |-> <<114, 101, 102, 101, 114, 101, 110, 99, 101>>,
    repetition |-> <<114, 101, 112, 101, 116, 105, 116, 105, 111, 110>>,
    choice |-> <<99, 104, 111, 105, 99, 101>>,
    concatenate |-> <<99, 111, 110, 99, 97, 116, 101, 110, 97, 116, 101>>,
    embed |-> <<101, 109, 98, 101, 100>>,
    text |-> <<116, 101, 120, 116>>]


\* w with prefix inserted after each newline
RECURSIVE IndentFrom(_, _, _, _, _)
IndentFrom(w, prefix, i, j, acc) ==     \* i: start of the pending part, j: next index
    IF j > Len(w) THEN acc \o SubSeq(w, i, Len(w))
    ELSE IF w[j] = 10 THEN IndentFrom(w, prefix, j + 1, j + 1, acc \o SubSeq(w, i, j) \o prefix)
    ELSE IndentFrom(w, prefix, i, j + 1, acc)
Indent(w, prefix) == IndentFrom(w, prefix, 1, 1, <<>>)

\* what is not a Unicode char is printed as the replacement char
Printable(w) == [j \in 1..Len(w) |-> IF w[j] < 0 \/ (w[j] >= 55296 /\ w[j] <= 57343) THEN 65533 ELSE w[j]]

Header(nd, cfg) ==
    <<76>> \o Digits(nd.p[1]) \o <<58>> \o Digits(nd.p[2]) \o <<58>> \o nd.n
    \o (IF cfg.type THEN <<47>> \o KindName[nd.t] ELSE <<>>)
    \o (IF nd.o THEN <<36>> ELSE <<>>) \o (IF nd.d THEN <<35>> ELSE <<>>)
    \o (IF nd.v THEN <<126>> ELSE <<>>) \o (IF nd.s THEN <<43>> ELSE <<>>)

Branch   == <<9500, 9472, 9472>>
Last     == <<9492, 9472, 9472>>
Under    == <<9474, 32, 32>>
UnderLast == <<32, 32, 32>>
Container == {"group", "option", "block", "repetition", "choice", "concatenate", "embed"}

RECURSIVE DumpFrom(_, _, _), DumpKids(_, _, _, _, _)
\* below: what is put after each newline of the node and of all below it
DumpKids(k, m, cfg, below, acc) ==
    IF m = Len(k) THEN acc \o <<10>> \o below \o Last \o DumpFrom(k[m], cfg, below \o UnderLast)
    ELSE DumpKids(k, m + 1, cfg, below, acc \o <<10>> \o below \o Branch \o DumpFrom(k[m], cfg, below \o Under))
DumpFrom(nd, cfg, below) ==
    LET head == Header(nd, cfg)
                \o (IF Len(nd.k) = 0 \/ cfg.text
                    THEN <<58, 32, 62>> \o Indent(Printable(Text(nd)), below) \o <<60>> ELSE <<>>)
    IN IF Len(nd.k) > 0 /\ nd.t \in Container THEN DumpKids(nd.k, 1, cfg, below, head) ELSE head
DumpNode(nd, cfg) == DumpFrom(nd, cfg, <<>>)

TreeHead == <<65, 98, 115, 116, 114, 97, 99, 116, 32, 83, 121, 110, 116, 97, 120, 32, 84, 114, 101, 101, 10, 9500, 9472, 32, 102, 105, 108, 101, 58>>
TreeNodes == <<10, 9500, 9472, 32, 78, 111, 100, 101, 115, 58, 32>>
TreeNone == <<10, 9492, 9472, 32, 78, 111, 100, 101, 115, 58, 32, 48>>
TreeBranch == <<10, 9500, 9472, 9472, 9472>>
TreeLast == <<10, 9492, 9472, 9472, 9472>>
TreeUnder == <<9474, 32, 32, 32>>
TreeUnderLast == <<32, 32, 32, 32>>

RECURSIVE DumpRoots(_, _, _, _)
DumpRoots(nds, m, cfg, acc) ==
    IF m = Len(nds) THEN acc \o TreeLast \o DumpFrom(nds[m], cfg, TreeUnderLast)
    ELSE DumpRoots(nds, m + 1, cfg, acc \o TreeBranch \o DumpFrom(nds[m], cfg, TreeUnder))
\* file: the name of the file it is said to come from
DumpFile(nds, cfg, file) ==
    IF Len(nds) = 0 THEN TreeHead \o Printable(file) \o TreeNone
    ELSE DumpRoots(nds, 1, cfg, TreeHead \o Printable(file) \o TreeNodes \o Digits(Len(nds)))
DumpTree(nds, cfg) == DumpFile(nds, cfg, <<>>)
NoTree == <<110, 105, 108, 32, 65, 83, 84>>

\* the result of an evaluation: what it read, what of it was not used, and its node
ResultHead == <<69, 118, 97, 108, 82, 101, 115, 117, 108, 116>>
ResultRead == <<10, 9500, 9472, 9472, 9472, 67, 104, 97, 114, 115, 82, 101, 97, 100, 91>>
ResultUnused == <<10, 9500, 9472, 9472, 9472, 67, 104, 97, 114, 115, 85, 110, 117, 115, 101, 100, 91>>
ResultNode == <<10, 9492, 9472, 9472, 9472, 78, 111, 100, 101, 58, 32>>
DumpResult(nd, cfg, rd, un) ==
    ResultHead \o ResultRead \o Digits(Len(rd)) \o <<93, 32, 32, 58>> \o Printable(rd) \o <<42>>
    \o ResultUnused \o Digits(Len(un)) \o <<93, 58>> \o Printable(un) \o <<42>>
    \o ResultNode \o DumpFrom(nd, cfg, <<32, 32, 32, 32>>)
=============================================================================
