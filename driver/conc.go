package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"

	"github.com/cnsgfk/xbnf"
)

// damage changes what can be changed of a result its owner has
func damage(n *xbnf.Node) {
	if n == nil {
		return
	}
	for i := range n.Chars {
		n.Chars[i] = '\u2620'
	}
	n.RuleName += "?"
	n.Virtual, n.NonData, n.Tokenized, n.Sticky = !n.Virtual, !n.NonData, !n.Tokenized, !n.Sticky
	if n.Position != nil {
		n.Position.Line += 1000
	}
	for _, k := range n.ChildNodes {
		damage(k)
	}
	n.ChildNodes = append(n.ChildNodes, &xbnf.Node{RuleName: "damaged"})
}

// keyed makes one call, its observation and what to damage of its result
func keyed(g *xbnf.Grammar, c obj) (obj, func()) {
	text := str(c["tx"])
	switch c["op"].(string) {
	case "eval":
		var r *xbnf.EvalResult
		var o obj
		if c["via"] == "rule" { // the short cut of the library
			r = g.EvalRule(str(c["r"]), text)
			o = resultObs(r, len(r.CharsRead))
		} else {
			rule := g.GetRule(str(c["r"]))
			if rule == nil {
				return obj{"ok": false, "er": true}, func() {}
			}
			cs := xbnf.NewCharstreamFromString(text)
			r = rule.Eval(g, cs, skipping(num(c["fl"])))
			o = resultObs(r, cs.Cursor())
		}
		return o, func() {
			damage(r.Node)
			for i := range r.CharsRead {
				r.CharsRead[i] = '\u2620'
			}
		}
	case "parse":
		cs := xbnf.NewCharstreamFromString(text)
		var ast *xbnf.AST
		var err error
		if c["via"] == "raw" {
			ast, err = g.EvalRaw(cs)
		} else {
			ast, err = g.Eval(cs, level(num(c["lv"])))
		}
		o := obj{"ok": ast != nil, "er": err != nil, "cur": cs.Cursor()}
		if ast == nil {
			return o, func() {}
		}
		o["nds"] = nodesObs(ast.Nodes)
		return o, func() {
			ast.MergeStickyNodes()
			ast.RemoveVirtualNodes()
			ast.RemoveRedundantNodes()
			for _, n := range ast.Nodes {
				damage(n)
			}
		}
	case "embed":
		r := g.EvalEmbed(str(c["r"]), text)
		o := obj{"ok": r.Node != nil, "er": r.Error != nil}
		if r.Node != nil {
			o["nd"] = nodeObs(r.Node)
		}
		return o, func() {
			r.MergeStickyNodes()
			damage(r.Node)
		}
	case "list": // the grammar itself
		l, _ := listing(g.Serialize(false))
		byName(l["roots"].([][]rune))
		users := l["users"].([]obj)
		sort.Slice(users, func(i, j int) bool { return string(users[i]["nm"].([]rune)) < string(users[j]["nm"].([]rune)) })
		return obj{"ok": true, "er": false, "l": l}, func() {}
	}
	panic("unknown call " + c["op"].(string))
}

func byName(names [][]rune) {
	sort.Slice(names, func(i, j int) bool { return string(names[i]) < string(names[j]) })
}

// runConcurrent makes calls with one grammar: alone (a fresh grammar for each), again and again in
// different orders, and at the same time. Only different observations are kept, each with the ways
// it was made.
func runConcurrent(line obj) {
	calls := objs(line["calls"])
	var lock sync.Mutex
	seen := make([]map[string][]string, len(calls))
	order := make([][]string, len(calls))
	for i := range seen {
		seen[i] = map[string][]string{}
	}
	see := func(i int, how string, o obj) {
		b, err := json.Marshal(o)
		check(err)
		lock.Lock()
		defer lock.Unlock()
		s := string(b)
		if _, ok := seen[i][s]; !ok {
			order[i] = append(order[i], s)
		}
		if l := seen[i][s]; len(l) == 0 || l[len(l)-1] != how {
			seen[i][s] = append(l, how)
		}
	}
	// alone
	for i, c := range calls {
		progress.Store(fmt.Sprintf("call %d alone", i+1))
		o, _ := keyed(newGrammar(line), c)
		see(i, "alone", o)
	}
	g := newGrammar(line)
	// in sequence, each result damaged after it was observed
	for k := 0; k < num(line["rounds"]); k++ {
		for j := range calls {
			i := j
			if k%2 == 1 {
				i = len(calls) - 1 - j
			}
			progress.Store(fmt.Sprintf("call %d again", i+1))
			o, harm := keyed(g, calls[i])
			see(i, "again", o)
			harm()
		}
	}
	// at the same time
	progress.Store("calls at the same time")
	for k := 0; k < num(line["runs"]); k++ {
		var ready, done sync.WaitGroup
		start := make(chan bool)
		bad := make(chan interface{}, 64)
		for t := 0; t < num(line["threads"]); t++ {
			ready.Add(1)
			done.Add(1)
			go func(t int) {
				defer done.Done()
				defer func() {
					if e := recover(); e != nil {
						bad <- e
					}
				}()
				ready.Done()
				<-start
				for j := range calls {
					i := (j*(1+t%3) + t*5 + k) % len(calls)
					o, harm := keyed(g, calls[i])
					see(i, "concurrent", o)
					harm()
				}
			}(t)
		}
		ready.Wait()
		close(start)
		done.Wait()
		select {
		case e := <-bad:
			panic(e)
		default:
		}
	}
	for i, c := range calls {
		obs := []obj{}
		for _, s := range order[i] {
			var o obj
			check(json.Unmarshal([]byte(s), &o))
			obs = append(obs, obj{"how": seen[i][s], "res": o})
		}
		c["o"] = obs
	}
}
