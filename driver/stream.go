package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/cnsgfk/xbnf"
)

func posObs(p *xbnf.Position) []int {
	if p == nil {
		return []int{0, 0}
	}
	return []int{p.Line, p.Col}
}

// one operation on a stream: its result
func streamOp(cs xbnf.ICharstream, c obj) obj {
	switch c["op"].(string) {
	case "next":
		return obj{"r": []rune{cs.Next()}}
	case "peek":
		return obj{"r": []rune{cs.Peek()}}
	case "match":
		m, ok := cs.Match(runes(c["w"]))
		o := obj{"r": codes(m), "ok": ok}
		spoil(m)
		return o
	case "skip":
		m := cs.SkipSpaces()
		o := obj{"r": codes(m)}
		spoil(m)
		return o
	case "cursor":
		return obj{"n": cs.Cursor()}
	case "pos":
		return obj{"p": posObs(cs.Position())}
	case "look":
		return obj{"p": posObs(cs.PositionLookup(num(c["i"])))}
	}
	panic("unknown operation " + c["op"].(string))
}

// spoil appends to a result, as callers do who collect what they read
func spoil(rs []rune) {
	_ = append(rs, '\u2620', '\u2620', '\u2620')
}

// slowStream is a user's stream that lets others go first
type slowStream struct{ base xbnf.ICharstream }

func (s *slowStream) Next() rune { runtime.Gosched(); r := s.base.Next(); runtime.Gosched(); return r }
func (s *slowStream) Peek() rune { runtime.Gosched(); r := s.base.Peek(); runtime.Gosched(); return r }
func (s *slowStream) Cursor() int {
	runtime.Gosched()
	n := s.base.Cursor()
	runtime.Gosched()
	return n
}
func (s *slowStream) SkipSpaces() []rune {
	runtime.Gosched()
	m := s.base.SkipSpaces()
	runtime.Gosched()
	return m
}
func (s *slowStream) Match(w []rune) ([]rune, bool) {
	runtime.Gosched()
	m, ok := s.base.Match(w)
	runtime.Gosched()
	return m, ok
}
func (s *slowStream) Position() *xbnf.Position {
	runtime.Gosched()
	p := s.base.Position()
	runtime.Gosched()
	return p
}
func (s *slowStream) PositionLookup(i int) *xbnf.Position {
	runtime.Gosched()
	p := s.base.PositionLookup(i)
	runtime.Gosched()
	return p
}

func taken(c, o obj) []rune {
	switch c["op"].(string) {
	case "next":
		r := o["r"].([]rune)
		if r[0] == xbnf.EOFChar {
			return nil
		}
		return r
	case "match", "skip":
		return o["r"].([]rune)
	}
	return nil
}

// runStream makes calls on a stream one after another. "back" hands the last n chars taken back.
func runStream(line obj) {
	cs := xbnf.NewCharstreamFromString(str(line["tx"]))
	if flag(line["user"]) {
		cs = &userStream{base: cs}
	}
	var read []rune // chars taken and not handed back
	for i, c := range objs(line["calls"]) {
		progress.Store(fmt.Sprintf("call %d", i+1))
		if c["op"] == "back" {
			n := num(c["n"])
			if n > len(read) {
				n = len(read)
			}
			c["n"] = n
			back := append([]rune{}, read[len(read)-n:]...)
			read = read[:len(read)-n]
			cs = prepend(cs, back)
			c["o"] = obj{"r": []rune{}}
			continue
		}
		o := streamOp(cs, c)
		read = append(read, taken(c, o)...)
		c["o"] = o
	}
}

// look is what a short call gave
type look struct {
	char rune
	took bool
	n    int
	p    xbnf.Position
	none bool
}

func glance(cs xbnf.ICharstream, op string, i int) look {
	switch op {
	case "next":
		c := cs.Next()
		return look{char: c, took: c != xbnf.EOFChar}
	case "peek":
		return look{char: cs.Peek()}
	case "cursor":
		return look{n: cs.Cursor()}
	}
	var p *xbnf.Position
	if op == "pos" {
		p = cs.Position()
	} else {
		p = cs.PositionLookup(i)
	}
	if p == nil {
		return look{none: true}
	}
	return look{p: *p}
}

func (x look) obs(op string) obj {
	switch op {
	case "next", "peek":
		return obj{"r": []rune{x.char}}
	case "cursor":
		return obj{"n": x.n}
	}
	if x.none {
		return obj{"p": posObs(nil)}
	}
	return obj{"p": posObs(&x.p)}
}

// watchLong has one goroutine make a long call while others keep asking and reading. Repeated
// answers are dropped (reading changes nothing), and of the runs only some that differ are kept,
// the rarest first.
func watchLong(line obj) {
	long := objs(line["long"])
	watch := objs(line["watch"])
	type run struct {
		evs []obj
		sig string
	}
	all := []run{}
	often := map[string]int{}
	for k := 0; k < num(line["runs"]); k++ {
		cs := xbnf.NewCharstreamFromString(str(line["tx"]))
		if flag(line["yield"]) {
			cs = &slowStream{cs}
		}
		cs = handBack(cs, nums(line["back"]))
		var clock int64
		var begun, over int32
		var done sync.WaitGroup
		out := make([][]obj, len(watch)+1)
		event := func(t int, c obj) obj {
			a := atomic.AddInt64(&clock, 1)
			o := streamOp(cs, c)
			b := atomic.AddInt64(&clock, 1)
			e := obj{"th": t + 1, "op": c["op"], "a": a, "b": b, "o": o, "w": []int{}, "i": 0}
			if c["w"] != nil {
				e["w"] = c["w"]
			}
			if c["i"] != nil {
				e["i"] = c["i"]
			}
			return e
		}
		for t := range watch {
			done.Add(1)
			go func(t int) {
				defer done.Done()
				c := watch[t]
				op, at, max := c["op"].(string), num(c["i"]), num(c["max"])
				last, first := look{}, true
				for atomic.LoadInt32(&begun) == 0 {
				}
				for n := 0; n < 1000000; n++ {
					end := atomic.LoadInt32(&over) == 1
					a := atomic.AddInt64(&clock, 1)
					x := glance(cs, op, at)
					b := atomic.AddInt64(&clock, 1)
					if first || x != last || x.took {
						first, last = false, x
						out[t+1] = append(out[t+1], obj{"th": t + 2, "op": op, "a": a, "b": b, "o": x.obs(op), "w": []int{}, "i": at})
					}
					if end || len(out[t+1]) >= max {
						break
					}
				}
			}(t)
		}
		done.Add(1)
		go func() {
			defer done.Done()
			atomic.StoreInt32(&begun, 1)
			for _, c := range long {
				out[0] = append(out[0], event(0, c))
			}
			atomic.StoreInt32(&over, 1)
		}()
		done.Wait()
		r := run{}
		for t, es := range out {
			r.evs = append(r.evs, es...)
			for _, e := range es {
				o := e["o"].(obj)
				r.sig += fmt.Sprint(t, len(taken(e, o)), o["n"], o["p"], ";")
			}
		}
		often[r.sig]++
		all = append(all, r)
	}
	sort.SliceStable(all, func(i, j int) bool { return often[all[i].sig] < often[all[j].sig] })
	kept := []run{}
	for _, r := range all {
		if often[r.sig] > 0 && len(kept) < num(line["keep"]) {
			kept = append(kept, r)
			often[r.sig] = 0
		}
	}
	runs := []obj{}
	for _, r := range kept {
		// the numbers of the events kept
		at := []int64{}
		for _, e := range r.evs {
			at = append(at, e["a"].(int64), e["b"].(int64))
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		no := map[int64]int{}
		for i, x := range at {
			no[x] = i + 1
		}
		for _, e := range r.evs {
			e["a"], e["b"] = no[e["a"].(int64)], no[e["b"].(int64)]
		}
		runs = append(runs, obj{"evs": r.evs})
	}
	line["hist"] = runs
}

// runConStream lets several goroutines use one stream at the same time, several times over. Each
// call gets the numbers of its start and end.
func runConStream(line obj) {
	if line["watch"] != nil {
		watchLong(line)
		return
	}
	runs := []obj{}
	for k := 0; k < num(line["runs"]); k++ {
		cs := xbnf.NewCharstreamFromString(str(line["tx"]))
		if flag(line["yield"]) {
			cs = &slowStream{cs}
		}
		cs = handBack(cs, nums(line["back"]))
		threads, _ := line["threads"].([]interface{})
		var clock int64
		var ready, done sync.WaitGroup
		start := make(chan bool)
		out := make([][]obj, len(threads))
		for t := range threads {
			ops := objs(threads[t])
			ready.Add(1)
			done.Add(1)
			go func(t int) {
				defer done.Done()
				ready.Done()
				<-start
				for _, c := range ops {
					a := atomic.AddInt64(&clock, 1)
					o := streamOp(cs, c)
					b := atomic.AddInt64(&clock, 1)
					e := obj{"th": t + 1, "op": c["op"], "a": a, "b": b, "o": o, "w": []int{}, "i": 0}
					if c["w"] != nil {
						e["w"] = c["w"]
					}
					if c["i"] != nil {
						e["i"] = c["i"]
					}
					out[t] = append(out[t], e)
				}
			}(t)
		}
		ready.Wait()
		close(start)
		done.Wait()
		all := []obj{}
		for _, es := range out {
			all = append(all, es...)
		}
		runs = append(runs, obj{"evs": all})
	}
	line["hist"] = runs
}
