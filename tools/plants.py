"""Changes to the library that break a property, each with a demonstration. See plant.py."""
PLANTS = []

def bug(id, property, edits, needs, breaks, go=None, imports=(), sh=None, race=False):
    p = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, imports=imports, race=race)
    if go:
        p['go'] = go
    else:
        p['sh'] = sh
    PLANTS.append(p)

bug('c05-space-205f', 'C05',
    [('space.go', "\t'\\u205F': nil,\n", "\t'\\u2060': nil,\n")],
    'a text with the rare whitespace char U+205F between two strings',
    'U+205F is not skipped as whitespace (and U+2060, no whitespace, is)',
    go='''
	g := grammar(`r = "a" "b"`)
	if r := g.EvalRule("r", "a\\u205Fb"); r.Node == nil {
		fail("no match: %s", r.Error)
	}
''')

bug('c04-min-at-eof', 'C04',
    [('rule_repetition.go', '''		if cs.Peek() == EOFChar {
			break
		}''', '''		if cs.Peek() == EOFChar {
			if len(nodes) > 0 && len(nodes)+1 == int(inst.min) && inst.max > inst.min {
				nodes = append(nodes, &Node{RuleType: TypeChars, Sticky: true, Position: node.Position})
			}
			break
		}''')],
    'a bounded repetition with a maximum above its minimum at the end of the text, one match short of the minimum',
    'the end of the text counts as a match',
    go='''
	g := grammar(`r = { 'a' }<3,5>`)
	if r := g.EvalRule("r", "aa"); r.Node != nil {
		fail("matches too little")
	}
''')

bug('c01-eof-before-sequence-end', 'C01',
    [('rule_concatenate.go', '''	for _, rule := range inst.rules {
		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
''', '''	for i, rule := range inst.rules {
		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
		if _, ok := rule.(*OptionRule); ok && i > 0 && i == len(inst.rules)-2 && cs.Peek() == EOFChar {
			break // nothing left for the rest
		}
''')],
    'a sequence ending with an option and one more rule, and a text that ends right before the option',
    'the last member of a sequence is not required when the text ends before the option in front of it',
    go='''
	g := grammar(`r = 'a' [ 'b' ] 'c'`)
	if r := g.EvalRule("r", "a"); r.Node != nil {
		fail("matches without the last rule")
	}
''')

bug('c02-string-skipped-spaces', 'C02',
    [('rule_terminal_string.go', '''	evalResult.CharsRead = append(evalResult.CharsRead, charsRead...)
	if !succeeded {
		evalResult.CharsUnused = evalResult.CharsRead
''', '''	if !succeeded && len(charsRead) < len(text) {
		// only what was compared with the text has to be given back
		evalResult.CharsRead = append(evalResult.CharsRead, charsRead...)
		evalResult.CharsUnused = charsRead
		evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
		evalResult.ErrIdx = charstream.Cursor()
		return evalResult
	}
	evalResult.CharsRead = append(evalResult.CharsRead, charsRead...)
	if !succeeded {
		evalResult.CharsUnused = evalResult.CharsRead
''')],
    'a string that fails in its middle after whitespace was skipped before it, where what follows depends on that whitespace',
    'whitespace skipped before a string that then does not match is lost',
    go='''
	g := grammar(`r = 'x' ["abc"] ' ' 'a'`)
	if r := g.EvalRule("r", "x ad"); r.Node == nil {
		fail("no match: %s", r.Error)
	}
''')

bug('c02-failing-exclude', 'C02',
    [('rule.go', '''		result := rule.Eval(grammar, cs, flagLeadingSpaces)
		if len(maxCharsRead) < len(result.CharsRead) {
			maxCharsRead = result.CharsRead
		}
		if result.Node != nil {
			resultsMatched = append(resultsMatched, result)
		}
	}
	matches := len(resultsMatched)
	var resultFound''', '''		result := rule.Eval(grammar, cs, flagLeadingSpaces)
		if result.Node != nil || len(maxCharsRead) == 0 {
			maxCharsRead = result.CharsRead
		}
		if result.Node != nil {
			resultsMatched = append(resultsMatched, result)
		}
	}
	matches := len(resultsMatched)
	var resultFound''')],
    'a block with two or more excludes of which a later one fails after reading more than the first',
    'chars read by a failing exclude rule of a block are lost',
    go='''
	g := grammar(`r = <'(' ^'aax' ^'aaaaay' ')'>`)
	if r := g.EvalRule("r", "(aaaaab)"); r.Node == nil || string(r.Node.Text()) != "(aaaaab)" {
		fail("chars lost: %v", r.Node)
	}
''')

bug('c03-committed-group', 'C03',
    [('rule_choice.go', '''			// no match in this group, continue to next group
			continue
''', '''			// no match in this group, continue to next group
			if len(group) > 1 && len(evalResult.CharsRead) > 2 {
				break // the text is like this group's, no need to look any further
			}
			continue
''')],
    'an ordered choice whose first group has at least two alternatives that read three or more chars before they fail',
    'alternatives after a > are not tried when those before it failed late',
    go='''
	g := grammar(`r = 'abcd' | 'abce' > 'abc'`)
	if r := g.EvalRule("r", "abcf"); r.Node == nil {
		fail("no match: %s", r.Error)
	}
''')

bug('c05-choice-of-three', 'C05',
    [('rule_choice.go', '''			if !result.Sticky { // as long as one of the choices is non-sticky, the result should be non-sticky
				sticky = false
			}
''', '''			if !result.Sticky && (result.Node != nil || len(group) < 3) {
				sticky = false
			}
''')],
    'a choice of three or more alternatives, a string that does not match among them, followed by whitespace',
    'a choice is sticky although one of its alternatives evaluated is not',
    go='''
	g := grammar(`r = 'a' | 'b' | "c"`, `s = r 'x'`)
	if r := g.EvalRule("s", "a x"); r.Node == nil {
		fail("whitespace not skipped: %s", r.Error)
	}
''')

bug('c04-equal-bounds', 'C04',
    [('rule_repetition.go', '''		// got another match
		nodes = append(nodes, result.Node)
		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
''', '''		// got another match
		nodes = append(nodes, result.Node)
		if inst.max > inst.min && len(nodes) == int(inst.max) { // found max number of matches
''')],
    'a repetition with equal bounds <n,n> on a text with more than n matches',
    'the maximum of a repetition is not applied when it equals the minimum',
    go='''
	g := grammar(`r = { 'a' }<2,2> 'a'`)
	if r := g.EvalRule("r", "aaa"); r.Node == nil {
		fail("no match: %s", r.Error)
	}
''')

bug('c05-option-empty-rep', 'C05',
    [('rule_concatenate.go', '''			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {
''', '''			(len(result.Node.ChildNodes) > 0 && result.countCharsUsed() > 0) {
''')],
    'a sequence with an option that matches empty text (an empty string or repetition) between sticky rules',
    'an option that matched empty text is taken for one that did not match when whitespace is decided on',
    go='''
	g := grammar(`r = 'a' [ { "x" } ] 'b'`)
	if r := g.EvalRule("r", "a b"); r.Node == nil {
		fail("no match: %s", r.Error)
	}
''')

bug('c06-short-escape', 'C06',
    [('rule_block.go', '''			if escaped {
				charsUsed = append(charsUsed, result.charsUsed()...)
''', '''			if escaped && result.countCharsUsed() <= len(escapeChars) {
				charsUsed = append(charsUsed, result.charsUsed()...)
''')],
    'a block with an escape shorter than its close, and an escaped close in the text',
    'an escape protects only closes that are not longer than itself',
    go=r'''
	g := grammar("r = <'/*' '\\\\' '*/'>")
	if r := g.EvalRule("r", "/*a\\*/b*/"); r.Node == nil || len(r.CharsRead) != 9 {
		fail("ends at an escaped close")
	}
''')

bug('c07-several-roots-sticky', 'C07',
    [('grammar.go', '''			ast.Nodes = append(ast.Nodes, maxResult.Node)
			if maxResult.Sticky {
''', '''			ast.Nodes = append(ast.Nodes, maxResult.Node)
			if maxResult.Sticky && matches == len(inst.rootRules) {
''')],
    'three or more root rules of which two or more match and the longest is sticky, followed by whitespace',
    'whitespace is skipped after a sticky root match when not all root rules matched',
    go='''
	g := grammar(`a = 'a'`, `ab = 'ab'`, `c = 'c'`)
	if _, err := g.EvalRaw(xbnf.NewCharstreamFromString("ab c")); err == nil {
		fail("whitespace after a sticky match accepted")
	}
''')

bug('c07-leftover', 'C07',
    [('grammar.go', '''		if cs.Peek() == EOFChar {
			break
		}
		resultsMatched''', '''		if cs.Peek() == EOFChar || (charstream.Peek() == EOFChar && len(leadingWhiteSpace(charsUnused)) == len(charsUnused) && len(ast.Nodes) > 1) {
			break
		}
		resultsMatched''')],
    'a text that ends with whitespace that the last root match looked at but did not use, after two or more matches',
    'whitespace at the end of a text is accepted although no root rule matches it',
    go='''
	g := grammar(`a = 'a' [ ' b' ]`)
	if _, err := g.EvalRaw(xbnf.NewCharstreamFromString("aa ")); err == nil {
		fail("a tree for a part of the text")
	}
''')

bug('c08-no-match', 'C08',
    [('grammar.go', '''			if char == EOFChar {
				if len(text) > 0 {
''', '''			if char == EOFChar {
				if len(text) > 0 && (len(node.ChildNodes) > 0 || len(text) > len(charsUnused)+1) {
''')],
    'a search in a text of a single char that does not match',
    'the text of a search without any match is lost',
    go='''
	g := grammar(`a = 'ab'`)
	r := g.EvalEmbed("a", "x")
	if r.Node == nil || len(r.Node.ChildNodes) != 1 {
		fail("text lost")
	}
''')

bug('c09-option-group', 'C09',
    [('rule_option.go', '''	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
	node.Position = evalResult.Node.Position
''', '''	if inner := evalResult.Node; inner.RuleType == TypeGroup && inner.RuleName == "" && len(inner.ChildNodes) == 1 {
		evalResult.Node = inner.ChildNodes[0] // brackets in brackets
	}
	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
	node.Position = evalResult.Node.Position
''')],
    'a group inside an option',
    'the node of a group directly inside an option is missing from the raw tree',
    go='''
	g := grammar(`r = [ ( 'a' 'b' ) ]`)
	r := g.EvalRule("r", "ab")
	if r.Node.ChildNodes[0].RuleType != xbnf.TypeGroup {
		fail("no group: %s", r.Node.ChildNodes[0].RuleType)
	}
''')

bug('c10-skipped-newlines', 'C10',
    [('charstream.go', '''		spaces := inst.chars[beginCur:inst.cursor:inst.cursor]
		inst.positionMap.update(beginCur, spaces...)
''', '''		spaces := inst.chars[beginCur:inst.cursor:inst.cursor]
		for i, char := range spaces {
			if char == '\\n' && i+1 < len(spaces) && spaces[i+1] == '\\r' {
				continue // a newline of two chars
			}
			inst.positionMap.update(beginCur+i, char)
		}
''')],
    'skipping whitespace with a newline directly followed by a carriage return',
    'a newline before a carriage return does not begin a line when it is skipped as whitespace',
    go='''
	g := grammar(`r = "a" "b"`)
	r := g.EvalRule("r", "a \\n\\rb")
	if p := r.Node.ChildNodes[1].Position; p.String() != "L2:2" {
		fail("at %s", p)
	}
''')

bug('c11-reference-virtual-nondata', 'C11',
    [('rule_reference.go', '''		if inst.nondata {
			if evalResult.Node.NonData {''', '''		if inst.nondata && !(inst.virtual && evalResult.Node.RuleType == TypeEOF) {
			if evalResult.Node.NonData {''')],
    'a reference annotated ~# to a rule that is EOF',
    'the non-data mark of a node of EOF is not inverted',
    go='''
	g := grammar(`e = EOF`, `r = 'a' ~#e`)
	r := g.EvalRule("r", "a")
	if n := r.Node.ChildNodes[1]; !n.NonData || !n.Virtual {
		fail("not inverted: %v", n)
	}
''')

bug('c11-annotation-kept', 'C11',
    [('grammar.go', '''			rule, err := inGroup(inst, name, cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isNonData, isVirtual)
			isTokenized = false
			isNonData = false
			isVirtual = false
			rules = append(rules, rule)
		case '/':''', '''			rule, err := inGroup(inst, name, cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isNonData, isVirtual)
			isTokenized = isTokenized && isVirtual
			isNonData = false
			isVirtual = false
			rules = append(rules, rule)
		case '/':''')],
    'a group annotated with both $ and ~ that is followed by another rule',
    'the annotation of a group also applies to the rule after it',
    go='''
	g := grammar(`r = $~( 'a' ) 'b'`)
	r := g.EvalRule("r", "ab")
	if n := r.Node.ChildNodes[1]; n.Tokenized {
		fail("token")
	}
''')

bug('c12-block-in-merge', 'C12',
    [('node.go', '''		for _, node := range inst.ChildNodes {
			node.MergeStickyNodes()
			node.Sticky = false
		}
		inst.Sticky = false
		return
''', '''		for i, node := range inst.ChildNodes {
			node.MergeStickyNodes()
			node.Sticky = node.Sticky && i > 1 && len(node.ChildNodes) > 0
		}
		inst.Sticky = false
		return
''')],
    'a block whose close is a composite rule, and merging a second time or counting sticky nodes',
    'the close of a block stays sticky when nodes are merged',
    go='''
	g := grammar(`r = <'(' ( ')' ';' )>`)
	ast, err := g.Eval(xbnf.NewCharstreamFromString("(a);"), xbnf.LevelBasic)
	if err != nil {
		fail("%s", err)
	}
	for _, n := range ast.Nodes[0].ChildNodes {
		if n.Sticky {
			fail("sticky: %s", string(n.Text()))
		}
	}
''')

bug('c12-merge-around-virtual', 'C12',
    [('node.go', '''		if prevNode != nil {
			prevNode.Sticky = false
		}
		prevNode = nil
''', '''		if prevNode != nil && !node.Virtual {
			prevNode.Sticky = false
		}
		prevNode = nil
''')],
    'a virtual non-sticky node right after a sticky one, and what is done after the virtual one was removed',
    'a node before a virtual one stays sticky and is merged with what follows later',
    go='''
	g := grammar(`r = 'a' ~"b" 'c' 'd' "e"`)
	ast, err := g.Eval(xbnf.NewCharstreamFromString("a bcde"), xbnf.LevelNoVertual)
	if err != nil {
		fail("%s", err)
	}
	if s := string(ast.Text()); s != "a cd e" {
		fail("text is now %s", s)
	}
''')

bug('c13-bounds-at-eof', 'C13',
    [('rule_repetition.go', '''			default:
				if '0' <= char && char <= '9' {
					buf.WriteRune(char)
					continue
				}
				return 0, 0, fmt.Errorf("invalid char in repetition specification: %c", char)
			}
		}
		maxStr''', '''			default:
				if '0' <= char && char <= '9' {
					buf.WriteRune(char)
					continue
				}
				if char < ' ' { // left over of a line
					continue
				}
				return 0, 0, fmt.Errorf("invalid char in repetition specification: %c", char)
			}
		}
		maxStr''')],
    'a definition that ends within the maximum of a repetition',
    'adding a definition that ends within the bounds of a repetition never returns',
    imports=['time'],
    go='''
	done := make(chan bool)
	go func() {
		xbnf.NewGrammar().AddRule(`r = { 'a' }<1,`)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("does not return")
	}
''')

bug('c02-cut-off-literal', 'C02',
    [('charstream.go', '''	for _, inputChar := range input {
		char := inst.next()
		if char == EOFChar {
			return result, false // not match
		}
		result = append(result, char)
		if char != inputChar {
			return result, false
		}
	}
	return result, true
}

func (inst *CharstreamPrepend) Position''', '''	if n := len(inst.prepend) - inst.cursor; n > 0 && len(input) > n && inst.charstream.Peek() == EOFChar {
		for _, inputChar := range input[:len(input)] {
			char := inst.next()
			if char != inputChar {
				return append(result, inst.prepend[inst.cursor-1]), false
			}
			result = append(result, char)
		}
	}
	for _, inputChar := range input {
		char := inst.next()
		if char == EOFChar {
			return result, false // not match
		}
		result = append(result, char)
		if char != inputChar {
			return result, false
		}
	}
	return result, true
}

func (inst *CharstreamPrepend) Position''')],
    'matching a literal over chars handed back that end with the text before the literal does',
    'a literal cut off by the end of the text gives back a char too much',
    go='''
	g := grammar(`r = 'abx' | 'abcd' > 'ab'`)
	r := g.EvalRule("r", "abc")
	if len(r.CharsRead) != 3 {
		fail("read %q", string(r.CharsRead))
	}
''')

bug('c14-shared-chars', 'C14',
    [('rule_terminal_chars.go', '''	node.Chars = append(node.Chars, inst.text...)
	evalResult.Node = node
''', '''	node.Chars = inst.text
	evalResult.Node = node
''')],
    'two merged nodes that begin with the same literal of three chars and are not merged with each other',
    'nodes share the text of the rule, merging one changes what another one has been merged to',
    go='''
	g := grammar(`r = { 'abc' 'x'-'z' ";" }`)
	a, err := g.Eval(xbnf.NewCharstreamFromString("abcx; abcy;"), xbnf.LevelBasic)
	if err != nil {
		fail("%s", err)
	}
	if s := string(a.Text()); s != "abcx ; abcy ;" {
		fail("text is %s", s)
	}
''')

bug('c14-reference-cache', 'C14',
    [('rule_reference.go', '''	refName string
}''', '''	refName string
	record  *RuleRecord // looked up on first use
}'''), ('rule_reference.go', '''	ruleRecord := grammar.GetRecord(inst.refName)
	if ruleRecord == nil {''', '''	if inst.record == nil {
		inst.record = grammar.GetRecord(inst.refName)
	}
	ruleRecord := inst.record
	if ruleRecord == nil {''')],
    'two goroutines that evaluate the same reference for the first time',
    'a reference remembers the rule it refers to without a lock: a data race',
    race=True, imports=['sync'],
    go='''
	g := grammar(`a = 'a'`, `r = { a }`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g.EvalRule("r", "aaaa")
		}()
	}
	wg.Wait()
''')

bug('c15-lookup-next', 'C15',
    [('charstream.go', '''	if idx >= inst.cursor || idx >= len(inst.chars) {
		return nil
	}
''', '''	if idx > inst.cursor || idx >= len(inst.chars) {
		return nil
	}
''')],
    'looking up the next char after asking for the position of the stream',
    'the position of a char not read yet is given',
    go='''
	cs := xbnf.NewCharstreamFromString("abc")
	cs.Next()
	cs.Position()
	if p := cs.PositionLookup(1); p != nil {
		fail("%s", p)
	}
''')

bug('c10-cursor-at-end', 'C10',
    [('charstream.go', '''	return inst.charstream.Cursor() - len(inst.prepend) + inst.cursor
}
''', '''	if inst.charstream.Peek() == EOFChar && inst.cursor == 0 {
		return inst.charstream.Cursor() - 1
	}
	return inst.charstream.Cursor() - len(inst.prepend) + inst.cursor
}
''')],
    'asking for the cursor of a stream with two or more chars handed back at the end of the text',
    'the cursor is off at the end of the text',
    go='''
	// the place of a literal after a longer one that failed at the end of the text
	g := grammar(`r = [ 'abc' ] 'ab'`)
	r := g.EvalRule("r", "ab")
	if p := r.Node.ChildNodes[1].Position; p.String() != "L1:1" {
		fail("at %s", p)
	}
''')

bug('c16-match-in-steps', 'C16',
    [('charstream.go', '''func (inst *CharstreamString) Match(input []rune) ([]rune, bool) {
	inst.lock.Lock()
	defer inst.lock.Unlock()

	if input == nil || len(input) == 0 {
		return nil, true
	}
	var result []rune
	for _, inputChar := range input {
		char := inst.next()
''', '''func (inst *CharstreamString) Match(input []rune) ([]rune, bool) {
	if input == nil || len(input) == 0 {
		return nil, true
	}
	var result []rune
	for _, inputChar := range input {
		char := inst.Next()
''')],
    'another goroutine reading while one matches several chars',
    'a match takes chars one by one and other goroutines may get chars in between',
    imports=['strings', 'sync'],
    go='''
	bad := false
	for round := 0; round < 200 && !bad; round++ {
		cs := xbnf.NewCharstreamFromString(strings.Repeat("abcdefgh", 4000))
		var wg sync.WaitGroup
		var lock sync.Mutex
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 500; k++ {
					if _, ok := cs.Match([]rune("abcdefgh")); !ok {
						lock.Lock()
						bad = true
						lock.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
	}
	if bad {
		fail("not what one after the other would give")
	}
''')

bug('c17-self-reference', 'C17',
    [('grammar.go', '''	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
''', '''	if ruleName == userRule {
		return // that doesn't make it part of another rule
	}
	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
''')],
    'a rule that refers to itself and is referred to by no other',
    'a rule that refers to itself counts as a root rule',
    go='''
	g := grammar(`r = 'a' | ( 'b' r )`, `s = 'c'`)
	if _, err := g.EvalRaw(xbnf.NewCharstreamFromString("ba")); err == nil {
		fail("a root rule")
	}
''')

bug('c18-annotated-choice-member', 'C18',
    [('grammar.go', '''		case '[':
			rule, err := inOption(inst, name, cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isNonData, isVirtual)
			return rule, nil''', '''		case '[':
			rule, err := inOption(inst, name, cs)
			if err != nil {
				return nil, err
			}
			if isTokenized || isNonData || isVirtual {
				rule.rule.setAnnotation(isTokenized, isNonData, isVirtual)
			}
			return rule, nil''')],
    'an annotated option as an alternative of a choice that is not the first one',
    'the annotation of an option in a choice is applied to the rule within it',
    go='''
	g := grammar(`r = 'a' | ~[ 'b' ]`)
	r := g.EvalRule("r", "b")
	if n := r.Node.ChildNodes[0]; !n.Virtual || n.ChildNodes[0].Virtual {
		fail("annotates the wrong rule")
	}
''')

bug('c18-unicode-escape-f', 'C18',
    [('rule_terminal_char.go', '''			('a' <= char && char <= 'f') ||
			('A' <= char && char <= 'F')) {''', '''			('a' <= char && char <= 'f') ||
			('A' <= char && char <= 'F' && (i > 0 || char < 'F'))) {''')],
    'an unicode escape that begins with an upper case F',
    '\\uFxxx is rejected',
    go='''
	if _, err := xbnf.NewGrammar().AddRule("r = '\\\\uFF21'"); err != nil {
		fail("%s", err)
	}
''')

bug('c19-bounded-min-one', 'C19',
    [('rule_repetition.go', '''			if inst.min == 1 {
				buf.WriteRune('+')''', '''			if inst.min <= 2 && inst.tokenized || inst.min == 1 {
				buf.WriteRune('+')''')],
    'a repetition annotated $ with bounds <2,0>',
    'a token repetition of at least two is printed as one of at least one',
    go='''
	g := grammar(`r = $ { 'a' }<2,0>`)
	h := grammar("r = " + g.GetRule("r").String())
	if h.EvalRule("r", "a").Node != nil {
		fail("printed as %s", g.GetRule("r").String())
	}
''')

bug('c20-file-one-root', 'C20',
    [('main/xbnf.go', '''		ast.RemoveVirtualNodes()
		ast.MergeStickyNodes()
		ast.RemoveNonDataNodes()
''', '''		ast.RemoveVirtualNodes()
		ast.MergeStickyNodes()
		if len(ast.Nodes) > 1 {
			ast.RemoveNonDataNodes()
		}
''')],
    'a file with a single root match with non-data nodes',
    'non-data nodes of a file are printed when there is one root node only',
    sh='''
printf 'a b' > in.txt
./xbnf -rule 'r = "a" #"b"' -file in.txt | grep -q '>b<' && exit 1
exit 0
''')

bug('c20-same-text-twice', 'C20',
    [('main/xbnf.go', '''	for _, text := range texts {
		fmt.Printf("\\nParsing text: %s\\n", text)
''', '''	for i, text := range texts {
		if i > 0 && text == texts[i-1] {
			continue // already there
		}
		fmt.Printf("\\nParsing text: %s\\n", text)
''')],
    'the same -text argument twice in a row',
    'the second of two equal texts is not parsed',
    sh='''
n=$(./xbnf -rule 'r = "a"' -text a -text a | grep -c 'Parsing text')
[ "$n" = 2 ] || exit 1
''')

bug('c21-text-space-after-empty', 'C21',
    [('node.go', '''		text = append(text, nodeText...)
		prevText = text
		prevNode = node
''', '''		text = append(text, nodeText...)
		prevText = nodeText
		prevNode = node
''')],
    'a node with an empty child (an option that did not match) between two that have text',
    'no space between two parts with an empty one in between',
    go='''
	g := grammar(`r = "a" [ "x" ] "b"`)
	if s := string(g.EvalRule("r", "a b").Node.Text()); s != "a b" {
		fail("text is %q", s)
	}
''')

bug('c21-dump-empty', 'C21',
    [('node.go', '''				for _, node := range inst.ChildNodes[0 : size-1] {
					nodeStr := node.StringTree(config)
					nodeStr = strings.ReplaceAll(nodeStr, "\\n", "\\n│  ")
''', '''				for _, node := range inst.ChildNodes[0 : size-1] {
					if len(node.ChildNodes) == 0 && len(node.Chars) == 0 && node.Position == nil && !node.Virtual {
						continue
					}
					nodeStr := node.StringTree(config)
					nodeStr = strings.ReplaceAll(nodeStr, "\\n", "\\n│  ")
''')],
    'the dump of a tree with an empty leaf that is not the last child',
    'a node without text is missing in the dump',
    imports=['strings'],
    go='''
	g := grammar(`r = [ "x" ] "a"`)
	s := g.EvalRule("r", "a").Node.StringTree(nil)
	if !strings.Contains(s, "option") {
		fail("%s", s)
	}
''')

bug('c22-place-in-literal', 'C22',
    [('rule_terminal_chars.go', '''	if !succeeded {
		evalResult.CharsUnused = evalResult.CharsRead
		evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
''', '''	if !succeeded {
		if pos := charstream.Position(); pos != nil {
			startPos = pos
		}
		evalResult.CharsUnused = evalResult.CharsRead
		evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
''')],
    'a literal of chars whose beginning is in the text',
    'the place given is in the middle of what is missing',
    imports=['strings'],
    go='''
	g := grammar(`r = 'abc'`)
	if e := g.EvalRule("r", "abdx").Error.Error(); !strings.Contains(e, "L1:1") {
		fail("%s", e)
	}
''')

bug('c22-leading-lines', 'C22',
    [('grammar.go', '''	lines := strings.Split(grammarText, "\\n")
''', '''	lines := strings.Split(strings.TrimSpace(grammarText), "\\n")
''')],
    'a grammar text that begins with empty lines and has a wrong one',
    'the line number of the error does not count the empty lines',
    imports=['strings'],
    go='''
	_, err := xbnf.NewGrammarFromString("\\n\\na = 'x\\n")
	if err == nil || !strings.Contains(err.Error(), "L#3") {
		fail("%v", err)
	}
''')

bug('c22-excluded-text', 'C22',
    [('rule_block.go', '''is not allowed in text block", string(resultExclude.charsUsed()))
''', '''is not allowed in text block", string(resultExclude.CharsRead))
''')],
    'an exclude rule that looks at more of the text than it matches',
    'the excluded text given includes what was only looked at',
    imports=['strings'],
    go='''
	g := grammar(`r = <'a' ^('x' [ 'yz' ]) 'b'>`)
	if e := g.EvalRule("r", "axyb").Error.Error(); !strings.Contains(e, "`x`") {
		fail("%s", e)
	}
''')

bug('c22-tie-names', 'C22',
    [('grammar.go', '''						result.Node.RuleName, string(result.CharsRead),
						maxResult.Node.RuleName, string(maxResult.CharsRead))
''', '''						maxResult.Node.RuleName, string(result.CharsRead),
						maxResult.Node.RuleName, string(maxResult.CharsRead))
''')],
    'two root rules with equally long matches',
    'the error gives the same rule twice',
    imports=['strings'],
    go='''
	g := grammar(`r = 'a'`, `q = "a"`)
	_, err := g.Eval(xbnf.NewCharstreamFromString("a"), xbnf.LevelRaw)
	if err == nil || !strings.Contains(err.Error(), "r(") || !strings.Contains(err.Error(), "q(") {
		fail("%v", err)
	}
''')

bug('c17-line-after-failure', 'C17',
    [('grammar.go', '''	ruleStr = strings.TrimSpace(ruleStr)
	var rule IRule
''', '''	ruleStr = strings.TrimSpace(ruleStr)
	if ruleStr == "" {
		inst.maxLine++ // an empty line counts
	}
	var rule IRule
''')],
    'a rule added after one whose definition was empty',
    'the listing shows another line for the rules added after it',
    imports=['strings'],
    go='''
	g := grammar(`a = 'x'`)
	g.AddRule("b =   ")
	g.AddRule("c = 'y'")
	if s := g.Serialize(false); !strings.Contains(s, "L0002: c") {
		fail("%s", s)
	}
''')

bug('c09-reference-only-name', 'C09',
    [('rule_reference.go', '''	if evalResult.Node != nil {
		if inst.tokenized {
''', '''	if evalResult.Node != nil {
		if inst.name != "" && evalResult.Node.RuleType == TypeEOF {
			evalResult.Node.RuleName = inst.name
		}
		if inst.tokenized {
''')],
    'a rule that is only a reference to a rule that is only EOF',
    'the node has the name of the rule that refers instead of the one referred to',
    go='''
	g := grammar(`end = EOF`, `r = end`)
	if r := g.EvalRule("r", ""); r.Node == nil || r.Node.RuleName != "EOF" {
		fail("%v", r.Node)
	}
''')

bug('c10-choice-first-position', 'C10',
    [('rule_choice.go', '''		node.Position = resultFound.Node.Position
''', '''		node.Position = resultFound.Node.Position
		for _, result := range resultsMatched { // the match begins where the first begins
			if p := result.Node.Position; p != nil && node.Position != nil && p.Line < node.Position.Line {
				node.Position = p
			}
		}
''')],
    'a choice of two matches of which the shorter begins with the newline the longer one skips',
    'the choice has the place of the alternative not taken',
    go='''
	g := grammar(`r = '\\u000A' | "ab"`)
	if r := g.EvalRule("r", "\\nab"); r.Node == nil || r.Node.Position.Line != 2 {
		fail("%v", r.Node)
	}
''')

bug('c03-empty-tie', 'C03',
    [('rule_choice.go', '''		} else if matches == 1 {
			resultFound = resultsMatched[0]
			break
''', '''		} else if matches == 1 || len(evalResult.CharsRead) == 0 { // nothing to choose by
			resultFound = resultsMatched[0]
			break
''')],
    'a choice of two rules that both match no text at the end of the text',
    'the ambiguity is not reported',
    go='''
	g := grammar(`r = [ 'a' ] | { 'b' }`)
	if r := g.EvalRule("r", ""); r.Node != nil {
		fail("not ambiguous")
	}
''')

bug('c08-text-reused', 'C08',
    [('grammar.go', '''				textNode.Chars = text
				text = nil
				node.ChildNodes = append(node.ChildNodes, textNode)
			}
			node.ChildNodes = append(node.ChildNodes, result.Node)
''', '''				textNode.Chars = text
				if cap(text) < 64 {
					text = nil
				} else { // keep the room for the next
					text = text[:0]
				}
				node.ChildNodes = append(node.ChildNodes, textNode)
			}
			node.ChildNodes = append(node.ChildNodes, result.Node)
''')],
    'two long plain texts with a match between them',
    'the second plain text overwrites the first',
    imports=['strings'],
    go='''
	g := grammar(`r = 'x'`)
	s := strings.Repeat("a", 50) + "x" + strings.Repeat("b", 20)
	if r := g.EvalEmbed("r", s); string(r.Node.ChildNodes[0].Chars) != strings.Repeat("a", 50) {
		fail("%s", string(r.Node.ChildNodes[0].Chars))
	}
''')

bug('c16-skip-in-steps', 'C16',
    [('charstream.go', '''	beginCur := inst.cursor
	for inst.cursor < len(inst.chars) {
		char := inst.chars[inst.cursor]
		if !IsWhiteSpace(char) {
			break
		}
		inst.cursor = inst.cursor + 1
	}
''', '''	beginCur := inst.cursor
	for inst.cursor < len(inst.chars) {
		char := inst.chars[inst.cursor]
		if !IsWhiteSpace(char) {
			break
		}
		inst.cursor++
		if (inst.cursor-beginCur)&15 == 0 { // let others read in between
			inst.lock.Unlock()
			inst.lock.Lock()
		}
	}
''')],
    'a goroutine that skips a long run of whitespace while another one reads',
    'chars read by the other one are also part of the whitespace skipped',
    imports=['strings'],
    go='''
	for n := 0; n < 300; n++ {
		cs := xbnf.NewCharstreamFromString(strings.Repeat(" ", 40000))
		c := make(chan int)
		for k := 0; k < 2; k++ {
			go func(k int) {
				m := 0
				if k == 0 {
					m = len(cs.SkipSpaces())
				} else {
					for i := 0; i < 2000; i++ {
						if cs.Next() != xbnf.EOFChar {
							m++
						}
					}
				}
				c <- m
			}(k)
		}
		if m := <-c + <-c; m != 40000 {
			fail("%d chars delivered", m)
		}
	}
''')

bug('c13-room-for-all', 'C13',
    [('rule_repetition.go', '''	var nodes []*Node // all found matched nodes
''', '''	nodes := make([]*Node, 0, inst.max) // all found matched nodes
''')],
    'a repetition with a very large maximum',
    'memory for the maximum number of matches is taken at once',
    sh='''
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/cnsgfk/xbnf v0.0.0\\n\\nreplace github.com/cnsgfk/xbnf => %s\\n' "$OLDPWD" > go.mod
cat > main.go <<'E'
package main

import "github.com/cnsgfk/xbnf"

func main() {
	g, err := xbnf.NewGrammarFromString("r = { 'a' }<1,4000000000>")
	if err != nil {
		panic(err)
	}
	if r := g.EvalRule("r", "aab"); r.Node == nil {
		panic(r.Error)
	}
}
E
go build -o demo . || exit 2
ulimit -v 8000000
timeout 100 ./demo || exit 1
''')

bug('c14-last-winner', 'C14',
    [('rule_choice.go', '''	for _, group := range inst.groups {
		resultsMatched = nil
''', '''	groups := inst.groups
	if n := len(groups); n > 2 { // those with most alternatives last: they take longest
		sort.SliceStable(groups[1:], func(i, j int) bool { return len(groups[i+1]) < len(groups[j+1]) })
	}
	for _, group := range groups {
		resultsMatched = nil
'''),
     ('rule_choice.go', '''	"fmt"
''', '''	"fmt"
	"sort"
''')],
    'a choice of three groups, the second with more alternatives than the third, evaluated and then the grammar listed or used by others',
    'evaluating a choice changes the order of its groups',
    go='''
	g := grammar("r = 'x' > 'b' | 'c' > 'a'")
	before := g.GetRule("r").String()
	g.EvalRule("r", "b")
	if s := g.GetRule("r").String(); s != before {
		fail("%s is now %s", before, s)
	}
''')

bug('c20-percent', 'C20',
    [('main/xbnf.go', '''		fmt.Printf("\\nParsing text: %s\\n", text)
''', '''		fmt.Printf("\\nParsing text: " + text + "\\n")
''')],
    'a -text argument with a percent sign',
    'the text is shown wrongly',
    sh='''
out="$(timeout 60 ./xbnf -rule "s = 'a%d'" -text 'a%d' 2>&1)"
case "$out" in *"Parsing text: a%d"*) exit 0;; esac
echo "$out"; exit 1
''')

bug('c18-bound-16-bits', 'C18',
    [('rule_repetition.go', '''			m, err := strconv.ParseUint(maxStr, 10, 32)
''', '''			m, err := strconv.ParseUint(maxStr, 10, 16)
''')],
    'a repetition with a maximum of 65536 or more',
    'the definition is rejected',
    go='''
	g := grammar("r = { 'a' }<1,65536>")
	if r := g.EvalRule("r", "aab"); r.Node == nil {
		fail("%s", r.Error)
	}
''')

bug('c18-eof-case', 'C18',
    [('rule_reference.go', '''	if ruleName == "EOF" {
''', '''	if strings.EqualFold(ruleName, "EOF") {
''')],
    'a rule named eof or Eof, referred to by another one',
    'the reference is taken for the end of the text',
    go='''
	g := grammar("r = 'a' Eof", "Eof = 'z'")
	if r := g.EvalRule("r", "az"); r.Node == nil {
		fail("%s", r.Error)
	}
''')

bug('c20-crlf', 'C20',
    [('main/xbnf.go', '''		cs := xbnf.NewCharstreamFromString(string(text))
''', '''		cs := xbnf.NewCharstreamFromString(strings.ReplaceAll(string(text), "\\r\\n", "\\n"))
''')],
    'a -file with carriage returns within its text, kept by the rule',
    'the text parsed is not that of the file',
    sh='''
printf 'q\\r\\nq' > in.txt
out="$(timeout 60 ./xbnf -rule "s = 'q' '\\u000D' '\\u000A' 'q'" -file in.txt 2>&1)"
case "$out" in *ERROR*) echo "$out"; exit 1;; *"Abstract Syntax Tree"*) exit 0;; esac
echo "$out"; exit 1
''')

bug('c17-root-order', 'C17',
    [('grammar.go', '''	for name, ruleRecord := range inst.ruleRecords {
		_, exists := inst.nonRoots[name]
		if !exists {
''', '''	for name, ruleRecord := range inst.ruleRecords {
		users, exists := inst.nonRoots[name]
		if n := len(users); n > 1 && users[0] == name && users[n-1] == name {
			exists = false // used by itself only
		}
		if !exists {
''')],
    'a rule that refers to itself at least twice and is used by no other rule',
    'a rule used by itself only counts as a root rule',
    go='''
	g := grammar("r = 'x'", "s = 'a' [ s ] 'b' [ s ]")
	if _, err := g.Eval(xbnf.NewCharstreamFromString("ab"), xbnf.LevelRaw); err == nil {
		fail("s is taken for a root rule")
	}
''')

bug('c15-blank-lines', 'C15',
    [('charstream.go', '''			if char == '\\n' {
				inst.lines[len(inst.lines)-1] = idx  // set last line's last char to '\\n' index
''', '''			if n := len(inst.lines); char == '\\n' && n > 6 && inst.lines[n-2] == idx-1 && inst.lines[n-6] == idx-5 {
				inst.lines[n-1] = idx // blank lines in a row are one gap
			} else if char == '\\n' {
				inst.lines[len(inst.lines)-1] = idx  // set last line's last char to '\\n' index
''')],
    'six newlines in a row, and a position after them',
    'the sixth newline does not count as a line',
    go='''
	cs := xbnf.NewCharstreamFromString("a\\n\\n\\n\\n\\n\\n\\n\\nb")
	for cs.Next() != 'b' {
	}
	if p := cs.PositionLookup(9); p == nil || p.String() != "L9:1" {
		fail("%s", p.String())
	}
''')

bug('c10-option-read', 'C10',
    [('rule_option.go', '''	node.Position = evalResult.Node.Position
''', '''	if node.Position = evalResult.Node.Position; node.Position != nil && evalResult.Node.RuleType == TypeChoice {
		// where the choice began
		node.Position = charstream.PositionLookup(charstream.Cursor() - len(evalResult.CharsRead))
	}
''')],
    'an option of a choice that looked less far ahead in its last alternative than in one before, or skipped whitespace',
    'the node of the option has the wrong position',
    go='''
	g := grammar("r = \\"a\\" [ 'x' | 'xyz' ]")
	r := g.EvalRule("r", "a x")
	if r.Node == nil {
		fail("%s", r.Error)
	}
	if p := r.Node.ChildNodes[1].Position.String(); p != "L1:3" {
		fail("%s", p)
	}
''')

bug('c22-repetition-cause', 'C22',
    [('rule_repetition.go', '''			evalResult.Error = result.Error
''', '''			if evalResult.Error = result.Error; len(nodes) > 0 && len(nodes) < int(inst.min) {
				evalResult.Error = fmt.Errorf("%s: %d less than minimal %d", inst.desc(), len(nodes), inst.min)
			}
''')],
    'a repetition that matches some times, but less often than its minimum, before text that does not match',
    'the error does not say what is missing and where',
    go='''
	g := grammar("r = { 'ab' }<3,>")
	r := g.EvalRule("r", "ababx")
	if r.Node != nil || r.Error == nil {
		fail("no error")
	}
	if s := r.Error.Error(); !strings.Contains(s, "L1:5") {
		fail("%s", s)
	}
''', imports=('strings',))

bug('c21-space-codepoint', 'C21',
    [('node.go', '''			len(nodeText) > 0 && !IsWhiteSpace(nodeText[0]) && // if the 1st char is a white space, we don't need to add a space
''', '''			len(nodeText) > 0 && !(len(nodeText) == 1 && IsWhiteSpace(nodeText[0])) && !strings.ContainsRune(" \\t\\r\\n", nodeText[0]) && // if the 1st char is a white space, we don't need to add a space
''')],
    'a part of several chars that starts with a whitespace char other than space, tab or newline',
    'a space is put before it',
    go='''
	n := &xbnf.Node{RuleType: xbnf.TypeConcatenate, ChildNodes: []*xbnf.Node{
		{RuleType: xbnf.TypeString, Chars: []rune("a")}, {RuleType: xbnf.TypeString, Chars: []rune("\\u00A0b")}}}
	if s := string(n.Text()); s != "a\\u00A0b" {
		fail("%q", s)
	}
''')

bug('c14-rule-results', 'C14',
    [('grammar.go', '''	rule := record.Rule()
	cs := NewCharstreamFromString(sample)
	return rule.Eval(inst, cs, SUGGEST_SKIP)
''', '''	if record.results == nil {
		record.results = &sync.Map{}
	}
	if r, ok := record.results.Load(sample); ok {
		result := *r.(*EvalResult)
		return &result
	}
	rule := record.Rule()
	cs := NewCharstreamFromString(sample)
	result := rule.Eval(inst, cs, SUGGEST_SKIP)
	record.results.Store(sample, result)
	return result
'''), ('grammar.go', '''	rule IRule
	line int
''', '''	rule IRule
	line int

	results *sync.Map // of EvalRule, by sample
'''), ('grammar.go', '''	"sort"
	"strings"
''', '''	"sort"
	"strings"
	"sync"
''')],
    'EvalRule called twice with the same rule and text, the first result simplified or changed in between (or two goroutines at once)',
    'results of EvalRule share their nodes',
    go='''
	g := grammar("r = 'a' 'b'")
	r := g.EvalRule("r", "ab")
	r.MergeStickyNodes()
	if n := g.EvalRule("r", "ab").Node.CountNodes(); n != 3 {
		fail("%d nodes", n)
	}
''')

bug('c19-nested-annotation', 'C19',
    [('rule_group.go', '''	var buf strings.Builder
	buf.WriteString(string(inst.annotation()))
	buf.WriteRune(GroupOpenSymbol)
''', '''	var buf strings.Builder
	buf.WriteString(string(inst.annotation()))
	if inner, ok := inst.rule.(*GroupRule); ok {
		// once is enough
		buf.WriteString(inner.String())
		return buf.String()
	}
	buf.WriteRune(GroupOpenSymbol)
''')],
    'a group of a group, both annotated alike or the outer one in a place where its kind of node matters',
    'the annotations of two groups are printed as if of one',
    go='''
	g := grammar("r = ~( #( 'a' 'b' ) ) 'c'")
	g2 := grammar("r = " + g.GetRule("r").String())
	t := func(g *xbnf.Grammar) string { return g.EvalRule("r", "abc").StringTree(nil) }
	if t(g) != t(g2) {
		fail("%s is not %s", t(g2), t(g))
	}
''')

bug('c09-text-shared', 'C09',
    [('rule_terminal_string.go', '''	node.Chars = append(node.Chars, inst.text...)
''', '''	if node.Chars = append(node.Chars, text...); len(text) == 0 {
		node.Chars = append(node.Chars, inst.text...)
	}
''')],
    'a string that starts with whitespace, and is more than that, matched where whitespace is skipped',
    'the leaf lacks the whitespace the string starts with',
    go='''
	g := grammar(`r = "a" " b"`)
	r := g.EvalRule("r", "a b")
	if r.Node == nil {
		fail("%s", r.Error)
	}
	if s := string(r.Node.ChildNodes[1].Chars); s != " b" {
		fail("%q", s)
	}
''')

bug('c04-thousand', 'C04',
    [('rule_repetition.go', '''		if inst.max > 0 && len(nodes) == int(inst.max) {''', '''		if inst.max > 0 && (len(nodes) == int(inst.max) || len(nodes) >= 1000) {''')],
    'a repetition with a maximum above 1000 on a text with more matches than that',
    'no more than 1000 matches are taken',
    go='''
	g := grammar("r = { 'a' }<1,1200>")
	r := g.EvalRule("r", strings.Repeat("a", 1200))
	if r.Node == nil || len(r.Node.ChildNodes) != 1200 {
		fail("%v", r.Error)
	}
''', imports=('strings',))

bug('c11-long-string', 'C11',
    [('rule_terminal_string.go', '''		NonData:   inst.nondata,''', '''		NonData:   inst.nondata && len(inst.text) < 16,''')],
    'a string of 16 chars or more that is marked non-data',
    'the node is not marked',
    go='''
	g := grammar("r = #\\"0123456789abcdefgh\\" 'z'")
	r := g.EvalRule("r", "0123456789abcdefghz")
	if r.Node == nil || !r.Node.ChildNodes[0].NonData {
		fail("not marked")
	}
''')

bug('c11-comment-between', 'C11',
    [('grammar.go', '''			if err := skipComment(cs); err != nil {
				return nil, err
			}
			continue
		case EOFChar:''', '''			if err := skipComment(cs); err != nil {
				return nil, err
			}
			isVirtual, isNonData, isTokenized = false, false, false
			continue
		case EOFChar:''')],
    'a comment between an annotation and the alternative of a choice it is for',
    'the alternative is not marked',
    go='''
	g := grammar("r = 'x' | ~ // not wanted\\n 'a'")
	r := g.EvalRule("r", "a")
	if r.Node == nil || !r.Node.ChildNodes[0].Virtual {
		fail("not marked")
	}
''')

bug('c04-octal', 'C04',
    [('rule_repetition.go', '''strconv.ParseUint(maxStr, 10, 32)''', '''strconv.ParseUint(maxStr, 0, 32)''')],
    'a maximum written with a zero in front',
    'the maximum is read as octal',
    go='''
	g := grammar("r = { 'a' }<1,012>")
	r := g.EvalRule("r", "aaaaaaaaaaaa")
	if r.Node == nil || len(r.Node.ChildNodes) != 12 {
		fail("%v", r.Error)
	}
''')

bug('c05-many-groups', 'C05',
    [('rule_choice.go', '''		resultsMatched = nil
		resultFound = nil
''', '''		resultsMatched = nil
		resultFound = nil
		sticky = sticky || len(inst.groups) > 3
''')],
    'a choice of four groups or more, a string in one before the last',
    'stickiness is that of the last group only',
    go='''
	g := grammar("r = ( \\"x\\" > 'y' > 'z' > 'a' ) 'b'")
	if r := g.EvalRule("r", "a b"); r.Node == nil {
		fail("%s", r.Error)
	}
''')

bug('c18-digits-of-others', 'C18',
    [('rule_reference.go', '''|| (char >= '0' && char <= '9') {''', '''|| unicode.IsDigit(char) {'''), ('rule_reference.go', '''import (
''', '''import (
	"unicode"
''')],
    'a reference followed by a digit that is not 0-9',
    'the digit is taken for a part of the name',
    go='''
	g := grammar("q = 'a'")
	if _, err := g.AddRule("r = q\\u0663"); err == nil {
		fail("accepted")
	}
''')
