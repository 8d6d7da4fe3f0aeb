From ceccf018f4422f1798f752710da6d8f6544fa07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 01/39] fix: concatenation no longer duplicates or drops
 looked-ahead chars between its rules

---
 rule_concatenate.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..954b44a 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -35,9 +35,8 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -54,11 +53,7 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 			evalResult.CharsRead = append(evalResult.CharsRead, extraChars...)
 			evalResult.CharsUnused = result.CharsUnused
 		} else {
-			resultCharsUsed := result.charsUsed()
-			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
+			evalResult.CharsUnused = evalResult.CharsUnused[result.countCharsUsed():] // unusedLeft
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 15284ca2706a493d54a669ea54697e200ea10616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 02/39] fix: repetition no longer duplicates or drops
 looked-ahead chars between iterations

---
 rule_repetition.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..f4f940d 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -43,11 +43,10 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -67,11 +66,7 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			evalResult.CharsRead = append(evalResult.CharsRead, extraChars...)
 			evalResult.CharsUnused = result.CharsUnused
 		} else {
-			resultCharsUsed := result.charsUsed()
-			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
+			evalResult.CharsUnused = evalResult.CharsUnused[result.countCharsUsed():] // unusedLeft
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 28f16cc9e26426af829688e7885e463399e36be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 03/39] fix: an unlimited repetition stops after a match that
 uses no char instead of looping forever

---
 rule_repetition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index f4f940d..0ac2374 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -89,6 +89,10 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
 			break
 		}
+		// an unlimited repetition of a match that uses no char would never end
+		if inst.max == 0 && result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			break
+		}
 	}
 
 	if len(nodes) < int(inst.min) {
-- 
2.43.0


From 60476adafe8524cef2dced01766473a339066c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 04/39] fix: an ambiguous choice gives back the chars it read

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..5d9a273 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -99,6 +99,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
 					evalResult.Error = errors.New(buf.String())
+					evalResult.CharsUnused = evalResult.CharsRead // no match, all CharsRead are unused
 					return evalResult
 				}
 				maxUsed = countCharsUsed
-- 
2.43.0


From 2781e3b177f6927163ffa17d1e07e459519c4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 05/39] fix: a choice is ambiguous only when its longest
 matches tie, whatever their order

---
 rule_choice.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index 5d9a273..03d5839 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -80,15 +80,15 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 			maxUsed := 0
 			for _, result := range resultsMatched {
-				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed < maxUsed {
+				if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxUsed {
+					maxUsed = countCharsUsed
+				}
+			}
+			for _, result := range resultsMatched {
+				if result.countCharsUsed() < maxUsed {
 					continue
 				}
-				if countCharsUsed == maxUsed {
-					if resultFound == nil {
-						resultFound = result
-						continue
-					}
+				if resultFound != nil {
 					// we found ambiguity
 					var buf strings.Builder
 					if inst.name == "" {
@@ -102,7 +102,6 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 					evalResult.CharsUnused = evalResult.CharsRead // no match, all CharsRead are unused
 					return evalResult
 				}
-				maxUsed = countCharsUsed
 				resultFound = result
 			}
 			break
-- 
2.43.0


From 62a2e75c6477ccc335e6592bed6fa87155179262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 06/39] fix: text matched equally by two exclude rules of a
 block is excluded, not let through

---
 rule.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..7034c14 100644
--- a/rule.go
+++ b/rule.go
@@ -300,18 +300,10 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 		var maxResult *EvalResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
-			if countCharsUsed < maxUsed {
+			// the rules of equally long matches are alternatives, either one will do
+			if countCharsUsed < maxUsed || (countCharsUsed == maxUsed && maxResult != nil) {
 				continue
 			}
-			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
-			}
 			maxUsed = countCharsUsed
 			maxResult = result
 		}
-- 
2.43.0


From 08765f12ccdeda02c562102967bfdc9206a1169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 07/39] fix: parsing a text with several root rules no longer
 drops or repeats chars read ahead

---
 grammar.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..e524bc5 100644
--- a/grammar.go
+++ b/grammar.go
@@ -331,15 +331,15 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
 	for {
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		maxCharsRead := charsUnused // all chars read from charstream but not used yet
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs = newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,7 +394,6 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
-		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 678bef6d286e51eb18ecd20c1c7ba08cee265310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 08/39] fix: whether root rules are ambiguous no longer depends
 on map iteration order

---
 grammar.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/grammar.go b/grammar.go
index e524bc5..4e3f038 100644
--- a/grammar.go
+++ b/grammar.go
@@ -375,16 +375,20 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
 			for _, result := range resultsMatched {
-				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
+				if countCharsUsed := result.countCharsUsed(); countCharsUsed > maxCountCharsUsed {
+					maxCountCharsUsed = countCharsUsed
+				}
+			}
+			for _, result := range resultsMatched {
+				if result.countCharsUsed() < maxCountCharsUsed {
+					continue
+				}
+				if maxResult != nil {
 					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
 						result.Node.RuleName, string(result.CharsRead),
 						maxResult.Node.RuleName, string(maxResult.CharsRead))
 				}
-				if countCharsUsed >= maxCountCharsUsed {
-					maxResult = result
-					maxCountCharsUsed = countCharsUsed
-				}
+				maxResult = result
 			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
-- 
2.43.0


From d7c00079a3d8c95bc1c2e2cd2560a73b7466d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 09/39] fix: parsing reports an error instead of looping
 forever when a root rule matches no char

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 4e3f038..88b137e 100644
--- a/grammar.go
+++ b/grammar.go
@@ -398,6 +398,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		if len(charsUnused) == len(maxCharsRead) {
+			// the match used no char, the same match would be found again forever
+			return nil, fmt.Errorf("must be %s: only an empty match found", inst.desc())
+		}
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 7fdb1d996e104563cd7fcad0119c0cda472cef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 10/39] fix: embedded parsing treats an empty match as no match
 instead of looping forever

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 88b137e..b3c1a0f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or an empty one
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From 26d243621d6349cf7579fdc88007ca481ca8ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 11/39] fix: a block reports the chars it read as they are in
 the text and keeps those read ahead

---
 rule_block.go | 59 +++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..6a3df69 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -78,8 +78,8 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	result := inst.open.Eval(grammar, cs, flagLeadingSpaces)
 	if result.Node != nil {
 		node.ChildNodes = append(node.ChildNodes, result.Node) // the 1st child of block node is always open node
-		charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-		charsUnused = result.CharsUnused
+		charsUsed = append(charsUsed, result.charsUsed()...)
+		charsUnused = result.CharsUnused // from now on, all chars read from charstream after charsUsed
 		node.Position = result.Node.Position
 	} else {
 		evalResult.Error = result.Error
@@ -95,19 +95,20 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:   true,
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
-	cs = newCharstreamPrepend(cs, charsUnused)
+	cs = newCharstreamPrepend(charstream, charsUnused)
 	content.Position = cs.Position()
-	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
+			cs = newCharstreamPrepend(charstream, charsUnused)
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
+			charsUnused = longerChars(charsUnused, result.CharsRead)
 			if result.Node != nil {
-				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
+				charsUsed = append(charsUsed, result.charsUsed()...)
+				charsUnused = charsUnused[result.countCharsUsed():]
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
 				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
@@ -126,80 +127,82 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 					charsUnused = result.CharsRead
 				}
 				*/
-			} else {
-				charsUnused = result.CharsRead
 			}
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
+			charsUnused = longerChars(charsUnused, resultExclude.CharsRead)
 			if resultExclude.Node != nil { // found one
 				if escaped {
 					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
+					charsUnused = charsUnused[resultExclude.countCharsUsed():]
 					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, charsUnused...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
-			charsUnused = resultExclude.CharsRead
 		}
 
 		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
+		charsUnused = longerChars(charsUnused, result.CharsRead)
 		if result.Node != nil {
 			if escaped {
 				charsUsed = append(charsUsed, result.charsUsed()...)
+				charsUnused = charsUnused[result.countCharsUsed():]
 				content.Chars = append(content.Chars, result.charsUsed()...)
 				continue
 			}
-			closeResult = result
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
+				charsUsed = append(charsUsed, result.charsUsed()...)
+				charsUnused = charsUnused[result.countCharsUsed():]
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
-		char := cs.Peek()
+		cs = newCharstreamPrepend(charstream, charsUnused)
+		char := cs.Next()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
 		}
-		char = cs.Next()
+		if len(charsUnused) > 0 {
+			charsUnused = charsUnused[1:]
+		}
+		charsUsed = append(charsUsed, char)
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = charsUnused
 		evalResult.Node = node
 	}
 
 	return evalResult
 }
 
+// longerChars returns the longer one of 2 sequences of chars read from the same place
+func longerChars(chars1 []rune, chars2 []rune) []rune {
+	if len(chars1) < len(chars2) {
+		return chars2
+	}
+	return chars1
+}
+
 // This function expects '<' as the 1st char in the input charstream.
 func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule, error) {
 	block := &BlockRule{}
-- 
2.43.0


From 7199051ccb8952a2b22b537048110eb3446fdd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 12/39] fix: an empty match of its escape rule does not escape
 anything in a block

---
 rule_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index 6a3df69..0cac4e3 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -106,7 +106,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 			cs = newCharstreamPrepend(charstream, charsUnused)
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
 			charsUnused = longerChars(charsUnused, result.CharsRead)
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 {
 				charsUsed = append(charsUsed, result.charsUsed()...)
 				charsUnused = charsUnused[result.countCharsUsed():]
 				escaped = true
-- 
2.43.0


From 43f55e9e9b87297c5b75e833648987f90047b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 13/39] fix: a range does not match a skipped whitespace char
 that is beyond its end

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 73df24773b5c089a6d1074125d8348e190bf985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 14/39] fix: the position of a range node is that of the char
 it matched

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..71d660b 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -45,6 +44,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				node.Chars = append(node.Chars, char)
 				evalResult.Node = node
 				return evalResult
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From e2bc9013874cf6aae81f2cd6e49f72f61cf49abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 15/39] fix: a group node has the position of the node it
 encloses

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 6869ca98f359d943034836dc4824451ecd775c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 16/39] fix: the position of a chars node includes the
 whitespaces its text starts with

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From 11d94c8332d8c4b5ec0efe934b986fa3dbe5e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 17/39] fix: position lookup of a char in the first line works
 after further lines are read

---
 charstream.go | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/charstream.go b/charstream.go
index c92c025..fad774b 100644
--- a/charstream.go
+++ b/charstream.go
@@ -105,34 +105,17 @@ func (inst *positionMap) lookup(idx int) *Position {
 		maxLineIdx = maxLineIdx - 1
 	}
 
-	lineIdx := 0
-	var col int
-	// do reverse linear lookup (TODO: binary lookup should be faster)
-	for i := maxLineIdx; i >= 0; i-- {
-		if idx >= inst.lines[i] {
-			lineIdx = i
-			break
-		}
+	// do reverse linear lookup (TODO: binary lookup should be faster) of the first line
+	// whose last char is not before the idx
+	lineIdx := maxLineIdx
+	for lineIdx > 0 && idx <= inst.lines[lineIdx-1] {
+		lineIdx--
 	}
 
-	// now the idx is garrenttee >= the lineIdx
-	// we found a line
-	//if lineIdx == 0 {
-	//	// if it's the 1st line, the col is the idx + 1
-	//	col = idx + 1
-	//} else {
-	//	// if it has a previous line, the col is
-	if idx == inst.lines[lineIdx] {
-		if lineIdx > 0 {
-			col = idx - inst.lines[lineIdx-1]
-		} else {
-			col = idx + 1
-		}
-	} else {
-		lineIdx = lineIdx + 1
+	col := idx + 1 // in the 1st line
+	if lineIdx > 0 {
 		col = idx - inst.lines[lineIdx-1]
 	}
-	//}
 
 	return &Position{Line: lineIdx + 1, Col: col}
 }
-- 
2.43.0


From e3852bf4bf78e3c3b718167bb4cc36ece8418cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 18/39] fix: concurrent calls of Position() on a stream are
 free of data races

---
 charstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index fad774b..3a26dc7 100644
--- a/charstream.go
+++ b/charstream.go
@@ -270,8 +270,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // not RLock: the positionMap may be updated
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -489,6 +489,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From 670a22b2d6b0620c0b7904699e9d01b4b44c3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 19/39] fix: appending to the spaces skipped in a stream no
 longer overwrites the chars after them

---
 charstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/charstream.go b/charstream.go
index 3a26dc7..78ab8c5 100644
--- a/charstream.go
+++ b/charstream.go
@@ -364,7 +364,8 @@ func (inst *CharstreamString) SkipSpaces() []rune {
 	}
 
 	if inst.cursor > beginCur {
-		spaces := inst.chars[beginCur:inst.cursor]
+		// limit the capacity so that appending to the result does not overwrite the stream
+		spaces := inst.chars[beginCur:inst.cursor:inst.cursor]
 		inst.positionMap.update(beginCur, spaces...)
 		return spaces
 	}
-- 
2.43.0


From 21b62cbaa9945b22941123d3180ee749b2ff6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 20/39] fix: Validate after more rules are added no longer
 keeps rules that are not root or terminal any more

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index b3c1a0f..88368c6 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// forget the result of any previous validation, rules may have been added since then
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From e21a600e6287ce784b3cca99af95358d22eec3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 21/39] fix: a rule that fails to parse leaves no reference
 behind in the grammar

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index 88368c6..7957e1e 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsage(ruleName) // the rule is not added, so it doesn't use any other rule
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// removeUsage forgets all the rules used by userRule
+func (inst *Grammar) removeUsage(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) == 0 {
+			delete(inst.nonRoots, ruleName)
+		} else {
+			inst.nonRoots[ruleName] = others
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From 61dea83821ef82093eb7f310558c5cc5f17600ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 22/39] fix: any whitespace, not only a space, may precede a
 choice symbol

---
 rule_choice.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index 03d5839..a60186d 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -128,11 +128,9 @@ func inChoice(grammar *Grammar, name string, firstRule IRule, cs ICharstream) (*
 	groups := [][]IRule{}
 EXIT:
 	for {
+		cs.SkipSpaces() // ignore spaces
 		char := cs.Peek()
 		switch char {
-		case ' ': // ignore space
-			cs.Next()
-			continue
 		case ChoiceSymbol:
 			cs.Next()
 			rule, err := grammar.parseOne(name, cs)
-- 
2.43.0


From f69002b580e8bffa28f1fa428de40d8ddf5baf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 23/39] fix: literals are printed with their quotes and escape
 chars escaped, ranges with their annotation once

---
 rule.go                 | 18 ++++++++++++++++++
 rule_terminal_chars.go  |  7 +------
 rule_terminal_range.go  | 19 ++++++-------------
 rule_terminal_string.go |  3 +--
 4 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/rule.go b/rule.go
index 7034c14..95a7218 100644
--- a/rule.go
+++ b/rule.go
@@ -226,6 +226,24 @@ func (inst *ruleBase) StringWithIndent(indent string) string {
 	return "#!NotImplemented!"
 }
 
+// escapeLiteral returns the text as it must be written in a rule definition in between 2
+// quote chars
+func escapeLiteral(text []rune, quote rune) string {
+	var buf strings.Builder
+	for _, char := range text {
+		switch {
+		case char == quote || char == EscapeSymbol:
+			buf.WriteRune(EscapeSymbol)
+			buf.WriteRune(char)
+		case 0xD800 <= char && char <= 0xDFFF: // can only be defined by an unicode escape
+			buf.WriteString(fmt.Sprintf("\\u%04X", char))
+		default:
+			buf.WriteRune(char)
+		}
+	}
+	return buf.String()
+}
+
 func leadingWhiteSpace(input []rune) []rune {
 	var wspaces []rune
 	for _, char := range input {
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 0bcaba8..f795e4e 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalCharsRule struct {
@@ -84,11 +83,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
-	if strings.ContainsRune(str, '\'') {
-		str = strings.ReplaceAll(str, "'", "\\'")
-	}
-	return fmt.Sprintf("%s'%s'", annotations, str)
+	return fmt.Sprintf("%s'%s'", annotations, escapeLiteral(inst.text, CharsSymbol))
 }
 
 func (inst *TerminalCharsRule) StringWithIndent(indent string) string {
diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 71d660b..2237ee4 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,22 +77,15 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
-		if inst.begin == '\'' {
-			beginStr = "'\\''"
-		} else {
-			beginStr = "'" + string(inst.begin) + "'"
-		}
+		beginStr = "'" + escapeLiteral([]rune{inst.begin}, CharsSymbol) + "'"
 	}
-	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+	// the end char of a range can only be escaped as an unicode
+	if inst.endAsUnicode || inst.end == CharsSymbol || inst.end == EscapeSymbol {
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
-		if inst.end == '\'' {
-			endStr = "'\\''"
-		} else {
-			endStr = "'" + string(inst.end) + "'"
-		}
+		endStr = "'" + string(inst.end) + "'"
 	}
 
 	return fmt.Sprintf("%s%s%s%s", annotations, beginStr, string(CharRangeSymbol), endStr)
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..4073855 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -83,8 +83,7 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
-	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
+	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), escapeLiteral(inst.text, '"'))
 }
 
 func (inst *TerminalStringRule) StringWithIndent(indent string) string {
-- 
2.43.0


From 8d3ed086eacb6da183d2f383cf5de203db697d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 24/39] fix: a repetition of exactly n times is printed as
 <n,n>, <n> means at least n times

---
 rule_repetition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 0ac2374..7c763c3 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -250,7 +250,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max))
 		}
 	} else {
 		if inst.max == 0 {
-- 
2.43.0


From 715076432422f372989cd5a4cf169bf624dbcec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 25/39] fix: a block is printed with its concatenation and
 choice rules grouped

---
 rule_block.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 0cac4e3..3679935 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -27,20 +27,20 @@ func (inst *BlockRule) String() string {
 	var buf strings.Builder
 	buf.WriteString(string(inst.annotation()))
 	buf.WriteRune(blockOpenSymbol)
-	buf.WriteString(inst.open.String())
+	buf.WriteString(blockOperand(inst.open))
 
 	if inst.escape != nil {
 		buf.WriteRune(' ')
-		buf.WriteString(inst.escape.String())
+		buf.WriteString(blockOperand(inst.escape))
 	}
 
 	for _, exclude := range inst.excludes {
 		buf.WriteString(" ^")
-		buf.WriteString(exclude.String())
+		buf.WriteString(blockOperand(exclude))
 	}
 
 	buf.WriteRune(' ')
-	buf.WriteString(inst.close.String())
+	buf.WriteString(blockOperand(inst.close))
 	if inst.virtualClose {
 		buf.WriteRune(' ')
 		buf.WriteRune(blockVirtualClose)
@@ -49,6 +49,16 @@ func (inst *BlockRule) String() string {
 	return buf.String()
 }
 
+// blockOperand returns the definition string of a rule of a block. The rules of a block are
+// separated by spaces, so one that has spaces itself needs to be grouped
+func blockOperand(rule IRule) string {
+	switch rule.(type) {
+	case *ConcatenateRule, *ChoiceRule:
+		return string(GroupOpenSymbol) + " " + rule.String() + " " + string(GroupCloseSymbol)
+	}
+	return rule.String()
+}
+
 func (inst *BlockRule) StringWithIndent(indent string) string {
 	return fmt.Sprintf("%s%s", indent, inst.String())
 }
-- 
2.43.0


From 5bb1519a17b7f8672cc5fa264d4a63fb610441ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 26/39] fix: an annotation before a choice symbol is rejected
 also when they are separated by spaces

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 7957e1e..c4124c1 100644
--- a/grammar.go
+++ b/grammar.go
@@ -504,6 +504,9 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case ChoiceSymbol, ChoiceOrderSymbol: // '|' or '>'
+			if isVirtual || isNonData || isTokenized {
+				return nil, fmt.Errorf("annotation symbol can not appear before choice symbol '%c'", char)
+			}
 			size := len(rules)
 			switch size {
 			case 0:
-- 
2.43.0


From f2707087e26b76098ebd0f9ef38685401be8a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 27/39] fix: a node without text has the position of the text
 that is merged into it

---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index 6ecb557..3c5ac14 100644
--- a/node.go
+++ b/node.go
@@ -158,6 +158,9 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 			if prevNode != nil && prevNode.Sticky {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
+				if prevNode.Position == nil { // it had no text so far
+					prevNode.Position = node.Position
+				}
 				continue
 			}
 			// all children of a sticky node can be drop, we only need to keep the text
-- 
2.43.0


From 884c6e35a394ca17e42daec99a13cc5c2bb16939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 28/39] fix: the position of an empty string match does not
 depend on what was read ahead

---
 rule_terminal_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 4073855..b91c12f 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -74,7 +74,9 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) > 0 {
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From b33dfbfda2c42a083f04485107857bad9b9e191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 29/39] fix: a block whose open rule matches no text has the
 position of its content

---
 rule_block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rule_block.go b/rule_block.go
index 3679935..16c387c 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -107,6 +107,9 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(charstream, charsUnused)
 	content.Position = cs.Position()
+	if node.Position == nil { // the open node has no text
+		node.Position = content.Position
+	}
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
-- 
2.43.0


From 4218caed5792607fd3ce01b9459650c7a43ac938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 30/39] fix: the -xbnf argument of the command is optional as
 documented when -rule is given

---
 main/xbnf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..dcd2052 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,8 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	}
+	if ruleFile != nil && *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From 299c71a9ce516ee0503e8d7fef0e43e3f9552b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 31/39] fix: a node annotated as token is not merged with its
 sticky siblings, as documented

---
 node.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 3c5ac14..e4fc036 100644
--- a/node.go
+++ b/node.go
@@ -128,7 +128,8 @@ func (inst *Node) MergeStickyNodes() {
 }
 
 // MergeStickyNodes merges nodes in a slice of nodes if a node is sticky and its previous sibling is
-// also sticky, the node will be dropped and its text will be merged into previous sibling's text.
+// also sticky, the node will be dropped and its text will be merged into previous sibling's text. A
+// tokenized node is never merged with its siblings.
 func MergeStickyNodes(nodes []*Node) []*Node {
 	if len(nodes) == 0 {
 		// Do nothing on empty input
@@ -155,14 +156,17 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 		if node.Sticky {
 			// the node is sticky node that can be merged to previous sticky node if there is one
 			nodeText := node.Text()
-			if prevNode != nil && prevNode.Sticky {
-				// previous node is steaky, node and prevNode can be merge
+			if prevNode != nil && prevNode.Sticky && !node.Tokenized && !prevNode.Tokenized {
+				// previous node is steaky and none of them is a token, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				if prevNode.Position == nil { // it had no text so far
 					prevNode.Position = node.Position
 				}
 				continue
 			}
+			if prevNode != nil { // can't be merged with any further node
+				prevNode.Sticky = false
+			}
 			// all children of a sticky node can be drop, we only need to keep the text
 			node.Chars = nodeText
 			node.ChildNodes = nil
-- 
2.43.0


From 596c1581a273f9918557d679969555e0f59d7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 32/39] fix: text after a comment in a rule definition is not
 ignored

---
 grammar.go     | 34 ++++++++++++++++++++--------------
 rule_choice.go |  4 ++++
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/grammar.go b/grammar.go
index c4124c1..e457b02 100644
--- a/grammar.go
+++ b/grammar.go
@@ -574,21 +574,9 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case '/': // must be comments
-			var comment []rune
-			comment = append(comment, char)
-			cs.Next()
-			if cs.Next() != '/' {
-				return nil, fmt.Errorf("invalid char '%c'", char)
-			}
-			comment = append(comment, char)
-			for {
-				char = cs.Next()
-				if char == '\n' || char == EOFChar {
-					break
-				}
-				comment = append(comment, char)
+			if err := skipComment(cs); err != nil {
+				return nil, err
 			}
-			break EXIT
 		default:
 			if (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_' {
 				rule, err := inReference(inst, name, cs)
@@ -617,6 +605,19 @@ EXIT:
 	}
 }
 
+// skipComment skips a comment up to the end of the line. This function expects '/' as the 1st
+// char in the input charstream.
+func skipComment(cs ICharstream) error {
+	char := cs.Next()
+	if cs.Next() != '/' {
+		return fmt.Errorf("invalid char '%c'", char)
+	}
+	for char != '\n' && char != EOFChar {
+		char = cs.Next()
+	}
+	return nil
+}
+
 // parseOne get one rule from the stream and return the rule, even if there are
 // more content in the stream
 func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
@@ -629,6 +630,11 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 		case ' ', '\n', '\t', '\r':
 			cs.Next()
 			continue
+		case '/': // must be comments
+			if err := skipComment(cs); err != nil {
+				return nil, err
+			}
+			continue
 		case EOFChar:
 			return nil, fmt.Errorf("EOF encountered, no more rule")
 		case VirtualSymbol, NonDataSymbol, TokenizedSymbol:
diff --git a/rule_choice.go b/rule_choice.go
index a60186d..1604f6b 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -150,6 +150,10 @@ EXIT:
 				return nil, err
 			}
 			rules = append(rules, rule)
+		case '/': // must be comments
+			if err := skipComment(cs); err != nil {
+				return nil, err
+			}
 		default:
 			break EXIT
 		}
-- 
2.43.0


From 5123f3b15c5c1c4471dfff676a4c587d66d9568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 33/39] fix: any whitespace may follow a choice symbol or be in
 repetition bounds

---
 grammar.go         | 4 +---
 rule_repetition.go | 6 ++----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/grammar.go b/grammar.go
index e457b02..95934f3 100644
--- a/grammar.go
+++ b/grammar.go
@@ -625,11 +625,9 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 	isNonData := false
 	isTokenized := false
 	for {
+		cs.SkipSpaces()
 		char := cs.Peek()
 		switch char {
-		case ' ', '\n', '\t', '\r':
-			cs.Next()
-			continue
 		case '/': // must be comments
 			if err := skipComment(cs); err != nil {
 				return nil, err
diff --git a/rule_repetition.go b/rule_repetition.go
index 7c763c3..0e4d90e 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -177,10 +177,9 @@ func inRepeatSpec(cs ICharstream) (uint, uint, error) {
 	min = 0
 EXIT_MIN:
 	for {
+		cs.SkipSpaces()
 		char := cs.Next()
 		switch char {
-		case ' ', '\t', '\n':
-			continue
 		case ',':
 			break EXIT_MIN
 		case '>':
@@ -208,10 +207,9 @@ EXIT_MIN:
 		buf.Reset()
 	EXIT_MAX:
 		for {
+			cs.SkipSpaces()
 			char := cs.Next()
 			switch char {
-			case ' ', '\t', '\n':
-				continue
 			case '>':
 				break EXIT_MAX
 			default:
-- 
2.43.0


From 13c046ca552138cda6a961d795492288d34b5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 34/39] fix: an annotation without a rule is an error

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 95934f3..753e6da 100644
--- a/grammar.go
+++ b/grammar.go
@@ -593,6 +593,9 @@ EXIT:
 			}
 		}
 	}
+	if isVirtual || isNonData || isTokenized {
+		return nil, fmt.Errorf("annotation symbol must be followed by a rule")
+	}
 	switch len(rules) {
 	case 0:
 		return nil, fmt.Errorf("no rule found")
-- 
2.43.0


From 5fc4a8566009c6aae8d66bdb188bbea6701d03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 35/39] fix: a char range that begins after its end is an error

---
 rule_terminal_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 2237ee4..5e773a6 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -133,6 +133,10 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 		return nil, fmt.Errorf("char range must be 2 chars connected by a range symbol '-': invalid 2nd char")
 	}
 
+	if beginChar > endChar {
+		return nil, fmt.Errorf("char range must not begin after its end: %c-%c", beginChar, endChar)
+	}
+
 	rule := &TerminalRangeRule{}
 	rule.begin = beginChar
 	rule.beginAsUnicode = beginAsUnicode
-- 
2.43.0


From bbc4ea83e7508a7aaccff28a9f99b853f281ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 36/39] fix: searching takes time proportional to the text

---
 grammar.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index 753e6da..dc55a54 100644
--- a/grammar.go
+++ b/grammar.go
@@ -276,14 +276,23 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	rule := record.Rule()
 	node := &Node{RuleType: TypeEmbed, RuleName: ruleName}
 	evalResult.Node = node
-	cs := NewCharstreamFromString(sample)
-	var result *EvalResult
+	charstream := NewCharstreamFromString(sample)
+	var charsUnused []rune // all chars read from charstream but not used yet
 	var text []rune
 	for {
-		result = rule.Eval(inst, cs, NOT_SKIP)
-		cs = newCharstreamPrepend(cs, result.CharsUnused)
+		// always in front of the charstream itself, handing back chars in front of chars handed
+		// back again and again takes time quadratic to the length of the text
+		cs := newCharstreamPrepend(charstream, charsUnused)
+		result := rule.Eval(inst, cs, NOT_SKIP)
+		if len(charsUnused) < len(result.CharsRead) {
+			charsUnused = result.CharsRead
+		}
 		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or an empty one
+			cs = newCharstreamPrepend(charstream, charsUnused)
 			char := cs.Next()
+			if len(charsUnused) > 0 {
+				charsUnused = charsUnused[1:]
+			}
 			if char == EOFChar {
 				if len(text) > 0 {
 					textNode := &Node{RuleType: TypeText, RuleName: "_"}
@@ -302,6 +311,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 				node.ChildNodes = append(node.ChildNodes, textNode)
 			}
 			node.ChildNodes = append(node.ChildNodes, result.Node)
+			charsUnused = charsUnused[result.countCharsUsed():]
 		}
 	}
 	return evalResult
-- 
2.43.0


From eabaeb6ae985547d663c8c39d80f52bb460a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 37/39] fix: lookups wait for operations in progress on handed
 back chars

---
 charstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/charstream.go b/charstream.go
index 78ab8c5..fb538b1 100644
--- a/charstream.go
+++ b/charstream.go
@@ -502,6 +502,9 @@ func (inst *CharstreamPrepend) Position() *Position {
 
 // Return the position of char index
 func (inst *CharstreamPrepend) PositionLookup(idx int) *Position {
+	inst.lock.RLock() // not while another operation is half way through
+	defer inst.lock.RUnlock()
+
 	return inst.charstream.PositionLookup(idx)
 }
 
-- 
2.43.0


From cd1f04047e8845cfaa8b51dc98fd1b52393ad796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 38/39] fix: a range missing after whitespace up to the end is
 missing at EOF, not at L0:0

---
 rule_terminal_range.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 5e773a6..c8966cf 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -66,7 +66,11 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	}
 
 	evalResult.CharsUnused = evalResult.CharsRead
-	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
+	if startPos == nil { // nothing but whitespaces up to the end
+		evalResult.Error = fmt.Errorf("missing %s at EOF", inst.desc())
+	} else {
+		evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
+	}
 	evalResult.ErrIdx = charstream.Cursor()
 	return evalResult
 }
-- 
2.43.0


From 3f87ba95e7d36e264ea14a35a58f8dbdb1326e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 39/39] fix: the error of a choice that fails at the first char
 says why

---
 rule_choice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index 1604f6b..b73ab53 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -64,7 +64,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			if result.Node != nil {
 				resultsMatched = append(resultsMatched, result)
 			} else {
-				if result.ErrIdx > maxErrCursor {
+				if maxErr == nil || result.ErrIdx > maxErrCursor {
 					maxErrCursor = result.ErrIdx
 					maxErr = result.Error
 				}
-- 
2.43.0

