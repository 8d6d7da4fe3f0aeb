package main

import (
	"fmt"

	"github.com/cnsgfk/xbnf"
)

func buildNode(o obj) *xbnf.Node {
	n := &xbnf.Node{RuleType: xbnf.Type(o["t"].(string)), RuleName: str(o["n"]),
		Sticky: flag(o["s"]), Virtual: flag(o["v"]), NonData: flag(o["d"]), Tokenized: flag(o["o"])}
	if c := runes(o["c"]); len(c) > 0 {
		n.Chars = c
	}
	if p := nums(o["p"]); p[0] > 0 {
		n.Position = &xbnf.Position{Line: p[0], Col: p[1]}
	}
	for _, k := range objs(o["k"]) {
		n.ChildNodes = append(n.ChildNodes, buildNode(k))
	}
	return n
}

// at returns the node at a path of indexes from 0, the first one among the roots
func at(ast *xbnf.AST, path []int) *xbnf.Node {
	var n *xbnf.Node
	list := ast.Nodes
	for _, i := range path {
		if len(list) == 0 {
			break
		}
		n = list[i%len(list)]
		list = n.ChildNodes
	}
	return n
}

// realPath is the path at follows
func realPath(ast *xbnf.AST, path []int) []int {
	out := []int{}
	list := ast.Nodes
	for _, i := range path {
		if len(list) == 0 {
			break
		}
		out = append(out, i%len(list))
		list = list[i%len(list)].ChildNodes
	}
	return out
}

func config(c obj) *xbnf.NodeTreeConfig {
	return &xbnf.NodeTreeConfig{PrintRuleType: flag(c["type"]), PrintNonleafNodeText: flag(c["text"]), VerboseNodeText: flag(c["verb"])}
}

// runTree applies passes to a tree (built, or parsed from a text) and asks for texts, counts and dumps
func runTree(line obj) {
	ast := &xbnf.AST{}
	if line["defs"] != nil {
		g := newGrammar(line)
		parse := func(lv int) *xbnf.AST {
			a, err := g.Eval(xbnf.NewCharstreamFromString(str(line["tx"])), lv)
			if err != nil {
				return nil
			}
			return a
		}
		line["lvs"] = []obj{}
		if a := parse(xbnf.LevelRaw); a != nil {
			ast = a
			lvs := []obj{}
			for _, lv := range []int{-1, 0, 1, 2, 3} {
				b := parse(level(lv))
				if b == nil {
					lvs = append(lvs, obj{"lv": lv, "ok": false, "nds": []obj{}})
				} else {
					lvs = append(lvs, obj{"lv": lv, "ok": true, "nds": nodesObs(b.Nodes)})
				}
			}
			line["lvs"] = lvs
		}
	} else {
		for _, o := range objs(line["nds"]) {
			ast.Nodes = append(ast.Nodes, buildNode(o))
		}
		line["lvs"] = []obj{}
	}
	line["nds"] = nodesObs(ast.Nodes)
	for i, c := range objs(line["calls"]) {
		progress.Store(fmt.Sprintf("call %d", i+1))
		c["o"] = treeCall(ast, c)
	}
}

func treeCall(ast *xbnf.AST, c obj) obj {
	o := obj{}
	path, whole := nums(c["path"]), true
	node := at(ast, path)
	if len(path) > 0 && node != nil {
		whole = false
	}
	c["at"] = []int{}
	if !whole {
		c["at"] = realPath(ast, path)
	}
	switch c["op"].(string) {
	case "merge":
		switch {
		case whole && c["via"] == "list":
			ast.Nodes = xbnf.MergeStickyNodes(ast.Nodes)
		case whole:
			ast.MergeStickyNodes()
		case c["via"] == "result":
			(&xbnf.EvalResult{Node: node}).MergeStickyNodes()
		default:
			node.MergeStickyNodes()
		}
	case "virtual":
		if whole {
			ast.RemoveVirtualNodes()
		} else {
			node.RemoveVirtualNodes()
		}
	case "nondata":
		if whole {
			ast.RemoveNonDataNodes()
		} else {
			node.RemoveNonDataNodes()
		}
	case "redundant":
		if whole {
			ast.RemoveRedundantNodes()
		} else {
			node.RemoveRedundantNodes()
		}
	case "text":
		if whole {
			o["tx"] = codes(ast.Text())
		} else {
			o["tx"] = codes(node.Text())
		}
	case "count":
		if whole {
			o["cnt"] = []int{ast.CountNodes(), ast.CountTokens(), ast.CountStickyNodes()}
		} else {
			o["cnt"] = []int{node.CountNodes(), node.CountTokens(), node.CountStickyNodes()}
		}
	case "dump":
		cfg := config(c)
		if c["via"] == nil {
			c["via"] = ""
		}
		c["std"] = flag(c["std"])
		if flag(c["std"]) {
			cfg = nil
		}
		for _, k := range []string{"file", "rd", "un"} {
			if c[k] == nil {
				c[k] = []int{}
			}
		}
		if whole {
			ast.Filename = str(c["file"])
			o["tx"] = codes([]rune(ast.StringTree(cfg)))
		} else if c["via"] == "result" {
			r := xbnf.EvalResult{Node: node, CharsRead: runes(c["rd"]), CharsUnused: runes(c["un"])}
			o["tx"] = codes([]rune(r.StringTree(cfg)))
		} else {
			o["tx"] = codes([]rune(node.StringTree(cfg)))
		}
	case "none":
		var t *xbnf.AST
		var n *xbnf.Node
		o["tx"] = codes(t.Text())
		o["cnt"] = []int{t.CountNodes(), t.CountTokens(), t.CountStickyNodes(), n.CountNodes(), n.CountTokens(), n.CountStickyNodes()}
		o["dump"] = codes([]rune(t.StringTree(config(c))))
	}
	o["nds"] = nodesObs(ast.Nodes)
	return o
}
