package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// tally counts the outcomes of calls by what was called
type tally map[string]int

func (t tally) note(what string, ok, er bool) {
	t[fmt.Sprintf("%s/%v/%v", what, ok, er)]++
}

func (t tally) obs() []obj {
	var keys []string
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []obj{}
	for _, k := range keys {
		p := strings.Split(k, "/")
		out = append(out, obj{"w": p[0], "ok": p[1] == "true", "er": p[2] == "true", "n": t[k]})
	}
	return out
}

// looked asks for everything there is to know about nodes
func looked(nodes []*xbnf.Node, t tally) {
	var each func(n *xbnf.Node, depth int)
	each = func(n *xbnf.Node, depth int) {
		if n == nil {
			t.note("node", false, false)
			return
		}
		n.Text()
		n.CountNodes()
		n.CountTokens()
		n.CountStickyNodes()
		if depth < 12 {
			n.StringTree(nil)
			n.StringTree(&xbnf.NodeTreeConfig{PrintRuleType: true, PrintNonleafNodeText: true, VerboseNodeText: depth%2 == 0})
		}
		if depth < 4 {
			for _, k := range n.ChildNodes {
				each(k, depth+1)
			}
		}
	}
	for _, n := range nodes {
		if n != nil && n.CountNodes() > 400 { // dumps of deep trees are long
			n.Text()
			n.CountTokens()
			n.CountStickyNodes()
			n.StringTree(nil)
		} else {
			each(n, 0)
		}
	}
	t.note("look", true, false)
}

// useGrammar does all there is to do with a grammar and rules of it on some texts
func useGrammar(g *xbnf.Grammar, names []string, texts []string, t tally) {
	err := g.Validate()
	t.note("validate", err == nil, err != nil)
	g.Serialize(false)
	g.Serialize(true)
	for _, name := range names {
		r := g.GetRule(name)
		if r == nil {
			continue
		}
		s := r.String()
		_, err := xbnf.NewGrammar().ParseRule(name, s)
		t.note("reread", err == nil, err != nil)
	}
	for _, text := range texts {
		for _, name := range names {
			progress.Store(fmt.Sprintf("evaluating %.20q", text))
			if r := g.GetRule(name); r != nil {
				for _, fl := range []int{0, 1, 3} {
					x := r.Eval(g, xbnf.NewCharstreamFromString(text), fl)
					t.note("eval", x.Node != nil, x.Error != nil)
					if x.Node != nil {
						looked([]*xbnf.Node{x.Node}, t)
						x.MergeStickyNodes()
						x.Node.RemoveVirtualNodes()
						x.Node.RemoveNonDataNodes()
						x.Node.RemoveRedundantNodes()
						looked([]*xbnf.Node{x.Node}, t)
					}
				}
			}
			x := g.EvalRule(name, text)
			t.note("rule", x.Node != nil, x.Error != nil)
			progress.Store(fmt.Sprintf("searching %.20q", text))
			x = g.EvalEmbed(name, text)
			t.note("embed", x.Node != nil, x.Error != nil)
			if x.Node != nil {
				looked([]*xbnf.Node{x.Node}, t)
				x.MergeStickyNodes()
			}
		}
		for lv := xbnf.LevelRaw; lv <= xbnf.LevelDataOnly; lv++ {
			progress.Store(fmt.Sprintf("parsing %.20q", text))
			ast, err := g.Eval(xbnf.NewCharstreamFromString(text), lv)
			t.note("parse", ast != nil, err != nil)
			if ast != nil {
				ast.StringTree(nil)
				ast.StringTree(&xbnf.NodeTreeConfig{PrintRuleType: true, PrintNonleafNodeText: true})
				ast.Text()
				ast.CountNodes()
				ast.CountTokens()
				ast.CountStickyNodes()
				ast.MergeStickyNodes()
				ast.RemoveVirtualNodes()
				ast.MergeStickyNodes()
				ast.RemoveNonDataNodes()
				ast.RemoveRedundantNodes()
				looked(ast.Nodes, t)
			}
		}
	}
}

// runEnd makes calls that have to come to an end with a result or an error
func runEnd(line obj) {
	var texts []string
	list, _ := line["txs"].([]interface{})
	for _, x := range list {
		texts = append(texts, str(x))
	}
	for i, c := range objs(line["calls"]) {
		at := fmt.Sprintf("call %d", i+1)
		progress.Store(at)
		t := tally{}
		switch c["op"].(string) {
		case "rule": // a rule added to the rules there are
			g := newGrammar(line)
			nm, def := str(c["nm"]), str(c["def"])
			r, err := g.ParseRule(nm, def)
			t.note("add", r != nil, err != nil)
			names := []string{nm}
			if err == nil {
				useGrammar(g, names, texts, t)
			} else {
				err = g.Validate()
				t.note("validate", err == nil, err != nil)
				g.Serialize(true)
			}
		case "add":
			g := newGrammar(line)
			def := str(c["def"])
			r, err := g.AddRule(def)
			t.note("add", r != nil, err != nil)
			if err == nil {
				useGrammar(g, []string{r.Name()}, texts, t)
			}
		case "text":
			g, err := xbnf.NewGrammarFromString(str(c["tx"]))
			t.note("text", g != nil, err != nil)
			if err == nil {
				var names []string
				for _, l := range strings.Split(str(c["tx"]), "\n") {
					if k := strings.Index(l, "="); k > 0 {
						if n := strings.TrimSpace(l[:k]); g.GetRule(n) != nil {
							names = append(names, n)
						}
					}
				}
				if len(names) > 3 {
					names = names[:3]
				}
				useGrammar(g, names, texts, t)
			}
		case "stream": // whatever is done with a stream
			cs := xbnf.NewCharstreamFromString(str(c["tx"]))
			for k := 0; k < num(c["n"]); k++ {
				cs.Match([]rune{'a', 'b'})
				cs.SkipSpaces()
				cs.Position()
				cs.PositionLookup(k - 3)
				cs.Next()
				cs.Peek()
			}
			t.note("look", true, false)
		default:
			panic("unknown call " + c["op"].(string))
		}
		c["o"] = t.obs()
	}
}
