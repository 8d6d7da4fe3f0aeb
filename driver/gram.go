package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/cnsgfk/xbnf"
)

var (
	wrongLine  = regexp.MustCompile(`(?:^|: )L#(\d+): `)
	definedAt  = regexp.MustCompile(`already defined at line (\d+)`)
	notDefined = regexp.MustCompile(`rule name '(\w*)' referenced but not defined`)
)

// where an error of adding rules or of a validation says the fault is
func where(err error) obj {
	o := obj{"line": 0, "at": 0, "nm": []rune{}}
	if err == nil {
		return o
	}
	num := func(re *regexp.Regexp) int {
		m := re.FindStringSubmatch(err.Error())
		if m == nil {
			return 0
		}
		n, _ := strconv.Atoi(m[1])
		return n
	}
	o["line"] = num(wrongLine)
	o["at"] = num(definedAt)
	if m := notDefined.FindStringSubmatch(err.Error()); m != nil {
		o["nm"] = []rune(m[1])
	}
	return o
}

var entry = regexp.MustCompile(`(?:^|\n    )L(\d{4,}): (!?)([A-Za-z][A-Za-z0-9_]*)(\[T\])? * = `)

// listing reads what Serialize prints
func listing(s string) (obj, string) {
	bad := func(why string) (obj, string) {
		return obj{"rules": []obj{}, "roots": [][]rune{}, "users": []obj{}}, why
	}
	i := strings.Index(s, "Rules:\n    ")
	for i >= 0 && strings.HasPrefix(s[maxInt(0, i-5):], "Root Rules:") {
		j := strings.Index(s[i+1:], "Rules:\n    ")
		if j < 0 {
			i = -1
		} else {
			i += 1 + j
		}
	}
	if i < 0 {
		return bad("no rules")
	}
	head, body := s[:i], s[i+len("Rules:\n    "):]
	lines := strings.Split(head, "\n")
	if len(lines) < 3 || !strings.HasPrefix(lines[0], "Root Rules: ") || !strings.HasPrefix(lines[1], "Rule Reference Map:") {
		return bad("no relations")
	}
	names := func(s string) [][]rune {
		out := [][]rune{}
		for _, n := range strings.Split(s, ",") {
			if n = strings.TrimSpace(n); n != "" {
				out = append(out, []rune(n))
			}
		}
		return out
	}
	roots := names(strings.TrimPrefix(lines[0], "Root Rules: "))
	users := []obj{}
	for _, l := range lines[2:] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		p := strings.SplitN(l, ":", 2)
		if len(p) != 2 {
			return bad("odd line of users")
		}
		users = append(users, obj{"nm": []rune(strings.TrimSpace(p[0])), "us": names(p[1])})
	}
	rules := []obj{}
	ms := entry.FindAllStringSubmatchIndex(body, -1)
	for k, m := range ms {
		end := len(body)
		if k+1 < len(ms) {
			end = ms[k+1][0]
		}
		sub := func(g int) string {
			if m[2*g] < 0 {
				return ""
			}
			return body[m[2*g]:m[2*g+1]]
		}
		ln, _ := strconv.Atoi(sub(1))
		rules = append(rules, obj{"ln": ln, "v": sub(2) != "", "nm": []rune(sub(3)), "t": sub(4) != "",
			"df": []rune(strings.TrimSuffix(body[m[1]:end], "\n    "))})
	}
	return obj{"rules": rules, "roots": roots, "users": users}, ""
}

// kept: a rule is returned if and only if there is no error, and it is the one of the grammar
func kept(g *xbnf.Grammar, name string, r xbnf.IRule, err error) bool {
	if err != nil {
		return r == nil
	}
	return r != nil && g.GetRule(strings.TrimSpace(name)) == r
}

// detailed: the listing with details has the same relations, and in order the same lines of rules
func detailed(s string, o obj) bool {
	d, why := listing(s)
	if why != "" || !sameNames(d["roots"].([][]rune), o["roots"].([][]rune)) || len(d["users"].([]obj)) != len(o["users"].([]obj)) {
		return false
	}
	s = s[strings.Index(s, "\nRules:\n")+1:]
	for _, r := range o["rules"].([]obj) {
		l := fmt.Sprintf(" = %s\n", string(r["df"].([]rune)))
		i := strings.Index(s, fmt.Sprintf("L%04d: ", r["ln"]))
		if i < 0 {
			return false
		}
		s = s[i:]
		if i = strings.Index(s, l); i < 0 || !strings.Contains(s[:i], string(r["nm"].([]rune))) {
			return false
		}
		s = s[i+len(l)-1:]
	}
	return true
}

func sameNames(a, b [][]rune) bool {
	n := map[string]int{}
	for _, x := range a {
		n[string(x)]++
	}
	for _, x := range b {
		n[string(x)]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

// again is a grammar of the printed rules of g
func again(names []string, g *xbnf.Grammar) (*xbnf.Grammar, bool) {
	h := xbnf.NewGrammar()
	ok := true
	for _, n := range names {
		if r := g.GetRule(n); r != nil {
			_, err := h.ParseRule(n, r.String())
			ok = ok && err == nil
		}
	}
	ok = ok && (h.Validate() == nil) == (g.Validate() == nil)
	return h, ok
}

func runGrammar(line obj) {
	g := xbnf.NewGrammar()
	var names []string // names of the rules there may be
	note := func(def string) {
		if i := strings.Index(def, "="); i >= 0 {
			names = append(names, strings.TrimSpace(def[:i]))
		}
	}
	for i, c := range objs(line["calls"]) {
		progress.Store(fmt.Sprintf("call %d", i+1))
		switch c["op"].(string) {
		case "add":
			def := str(c["def"])
			r, err := g.AddRule(def)
			c["o"] = obj{"ok": err == nil, "same": kept(g, strings.SplitN(def, "=", 2)[0], r, err), "wh": where(err)}
			note(def)
		case "rule":
			r, err := g.ParseRule(str(c["nm"]), str(c["def"]))
			c["o"] = obj{"ok": err == nil, "same": kept(g, str(c["nm"]), r, err), "wh": where(err)}
			names = append(names, str(c["nm"]))
		case "text", "file":
			text := str(c["tx"])
			var h *xbnf.Grammar
			var err error
			if c["op"] == "file" {
				f, e := os.CreateTemp("", "grammar")
				check(e)
				_, e = f.WriteString(text)
				check(e)
				check(f.Close())
				h, err = xbnf.NewGrammarFromFile(f.Name())
				check(os.Remove(filepath.Clean(f.Name())))
			} else {
				h, err = xbnf.NewGrammarFromString(text)
			}
			c["o"] = obj{"ok": err == nil, "same": (h != nil) == (err == nil), "wh": where(err)}
			if err == nil {
				g = h
			}
			for _, l := range strings.Split(text, "\n") {
				note(l)
			}
		case "validate":
			err := g.Validate()
			c["o"] = obj{"ok": err == nil, "wh": where(err)}
		case "get":
			r, rec := g.GetRule(str(c["nm"])), g.GetRecord(str(c["nm"]))
			o := obj{"ok": r != nil, "same": (r != nil) == (rec != nil) && (rec == nil || rec.Rule() == r), "v": false, "d": false, "tk": false, "nm": []rune{}}
			if r != nil {
				o["v"], o["d"], o["tk"] = r.IsVirtual(), r.IsNonData(), r.IsTokenized()
				o["nm"] = codes([]rune(r.Name()))
			}
			c["o"] = o
		case "list":
			o, why := listing(g.Serialize(false))
			o["ok"] = why == "" && detailed(g.Serialize(true), o)
			c["o"] = o
		case "print":
			o := obj{"ok": false, "tx": []rune{}, "ok2": false, "tx2": []rune{}}
			if r := g.GetRule(str(c["nm"])); r != nil {
				o["ok"] = true
				s := r.String()
				o["tx"] = codes([]rune(s))
				r2, err := xbnf.NewGrammar().ParseRule(str(c["nm"]), s)
				if err == nil {
					o["ok2"] = true
					o["tx2"] = codes([]rune(r2.String()))
				}
			}
			c["o"] = o
		case "eval", "parse", "embed":
			var walk xbnf.ICharstream
			c["o"] = call(g, c, &walk)
		case "again": // the printed rules do the same
			h, ok := again(uniq(names), g)
			c["ok"] = ok
			var walk xbnf.ICharstream
			in := c["call"].(map[string]interface{})
			a, b := call(g, in, &walk), call(h, in, &walk)
			c["o"] = obj{"a": a, "b": b}
		default:
			panic("unknown call " + c["op"].(string))
		}
	}
}

func uniq(names []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
