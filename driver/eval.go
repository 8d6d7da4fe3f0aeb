package main

import (
	"fmt"

	"github.com/cnsgfk/xbnf"
)

// userStream is a stream as a user of the library could write it: it delegates to another one
// and counts what is taken from it
type userStream struct {
	base  xbnf.ICharstream
	taken []rune
}

func (s *userStream) take(rs ...rune) {
	for _, r := range rs {
		if r != xbnf.EOFChar {
			s.taken = append(s.taken, r)
		}
	}
}
func (s *userStream) Next() rune { r := s.base.Next(); s.take(r); return r }
func (s *userStream) Peek() rune { return s.base.Peek() }
func (s *userStream) Match(rs []rune) ([]rune, bool) {
	m, ok := s.base.Match(rs)
	s.take(m...)
	return m, ok
}
func (s *userStream) SkipSpaces() []rune                    { m := s.base.SkipSpaces(); s.take(m...); return m }
func (s *userStream) Position() *xbnf.Position              { return s.base.Position() }
func (s *userStream) PositionLookup(idx int) *xbnf.Position { return s.base.PositionLookup(idx) }
func (s *userStream) Cursor() int                           { return s.base.Cursor() }

func nodeObs(n *xbnf.Node) obj {
	kids := []obj{}
	for _, k := range n.ChildNodes {
		kids = append(kids, nodeObs(k))
	}
	p := []int{0, 0}
	if n.Position != nil {
		p = []int{n.Position.Line, n.Position.Col}
	}
	return obj{"t": string(n.RuleType), "n": codes([]rune(n.RuleName)), "c": codes(n.Chars), "k": kids,
		"p": p, "s": n.Sticky, "v": n.Virtual, "d": n.NonData, "o": n.Tokenized}
}
func nodesObs(ns []*xbnf.Node) []obj {
	list := []obj{}
	for _, n := range ns {
		list = append(list, nodeObs(n))
	}
	return list
}

func resultObs(r *xbnf.EvalResult, cursor int) obj {
	o := obj{"ok": r.Node != nil, "er": r.Error != nil, "ca": causes(r.Error), "st": r.Sticky, "cr": codes(r.CharsRead), "cu": codes(r.CharsUnused), "cur": cursor}
	if r.Node != nil {
		o["nd"] = nodeObs(r.Node)
	}
	return o
}

// handBack reads chars from the stream and hands them back, once for each count, in layers
func handBack(cs xbnf.ICharstream, counts []int) xbnf.ICharstream {
	for _, n := range counts {
		var rs []rune
		for i := 0; i < n; i++ {
			if r := cs.Next(); r != xbnf.EOFChar {
				rs = append(rs, r)
			}
		}
		cs = prepend(cs, rs)
	}
	return cs
}

func newGrammar(line obj) *xbnf.Grammar {
	g := xbnf.NewGrammar()
	oks := []bool{}
	list, _ := line["defs"].([]interface{})
	for _, d := range list {
		_, err := g.AddRule(str(d))
		oks = append(oks, err == nil)
	}
	line["oks"] = oks
	line["valid"] = g.Validate() == nil
	return g
}

func runEval(line obj) {
	g := newGrammar(line)
	var walk xbnf.ICharstream // stream of the walk
	for i, c := range objs(line["calls"]) {
		progress.Store(fmt.Sprintf("call %d", i+1))
		if flag(line["causes"]) {
			c["o"] = callCauses(g, c, &walk)
		} else {
			c["o"] = call(g, c, &walk)
		}
	}
}

func call(g *xbnf.Grammar, c obj, walk *xbnf.ICharstream) obj {
	o := callCauses(g, c, walk)
	delete(o, "ca")
	return o
}

// callCauses makes a call; what was observed has the causes an error gives, too
func callCauses(g *xbnf.Grammar, c obj, walk *xbnf.ICharstream) obj {
	text := str(c["tx"])
	switch c["op"].(string) {
	case "eval":
		name := str(c["r"])
		via, _ := c["via"].(string)
		off := num(c["off"])
		if via == "rule" { // the short cut of the library
			r := g.EvalRule(name, text)
			return resultObs(r, len(r.CharsRead)) // its stream can't be seen
		}
		base := xbnf.NewCharstreamFromString(text)
		for k := 0; k < off; k++ {
			base.Next()
		}
		rule := g.GetRule(name)
		if rule == nil {
			return obj{"ok": false, "er": true, "st": false, "cr": []rune{}, "cu": []rune{}, "cur": off}
		}
		cs := base
		var user *userStream
		switch via {
		case "user":
			user = &userStream{base: base}
			cs = user
		case "back":
			cs = handBack(base, nums(c["back"]))
		}
		r := rule.Eval(g, cs, skipping(num(c["fl"])))
		o := resultObs(r, cs.Cursor())
		if user != nil { // what was taken is what counts, whatever the result says
			o["cur"] = off + len(user.taken)
			if string(user.taken) != string(r.CharsRead) {
				o["cur"] = -1
			}
		}
		return o
	case "walk": // goes on where the evaluation before ended, unused chars handed back
		if flag(c["first"]) {
			*walk = handBack(xbnf.NewCharstreamFromString(text), nums(c["back"]))
		}
		rule := g.GetRule(str(c["r"]))
		if rule == nil {
			return obj{"ok": false, "er": true, "st": false, "cr": []rune{}, "cu": []rune{}, "cur": (*walk).Cursor()}
		}
		r := rule.Eval(g, *walk, skipping(num(c["fl"])))
		o := resultObs(r, (*walk).Cursor())
		*walk = prepend(*walk, r.CharsUnused)
		return o
	case "parse":
		cs := xbnf.NewCharstreamFromString(text)
		if c["via"] == "user" {
			cs = &userStream{base: cs}
		} else if c["via"] == "back" {
			cs = handBack(cs, nums(c["back"]))
		}
		var ast *xbnf.AST
		var err error
		if c["via"] == "raw" {
			ast, err = g.EvalRaw(cs)
		} else {
			ast, err = g.Eval(cs, level(num(c["lv"])))
		}
		o := obj{"ok": ast != nil, "er": err != nil, "ca": causes(err)}
		if ast != nil {
			o["nds"] = nodesObs(ast.Nodes)
		}
		return o
	case "embed":
		r := g.EvalEmbed(str(c["r"]), text)
		o := obj{"ok": r.Node != nil, "er": r.Error != nil, "ca": causes(r.Error)}
		if r.Node != nil {
			o["nd"] = nodeObs(r.Node)
		}
		return o
	}
	panic("unknown call " + c["op"].(string))
}
