// Command driver makes the calls described by the lines of a case file with the real library
// and writes each line again with what was observed added. One line in, one line out.
//
//	driver CASES OUT SKIP
//
// skips the first SKIP lines. When a call panics, hangs or takes too much memory the line gets
// a "crash" and the driver exits with status 3; a fatal error of the runtime ends it too. The
// caller starts it again for the rest.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/cnsgfk/xbnf"
)

type obj = map[string]interface{}

var progress atomic.Value // what is being done, for crash reports

func main() {
	debug.SetMaxStack(256 << 20)
	timeout := 20 * time.Second
	if s := os.Getenv("DRIVER_TIMEOUT"); s != "" {
		n, _ := strconv.Atoi(s)
		timeout = time.Duration(n) * time.Second
	}
	in, err := os.Open(os.Args[1])
	check(err)
	out, err := os.OpenFile(os.Args[2], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	check(err)
	skip, _ := strconv.Atoi(os.Args[3])
	reader := bufio.NewReaderSize(in, 1<<20)
	emit := func(line obj) {
		b, err := json.Marshal(line)
		check(err)
		_, err = out.Write(append(b, '\n'))
		check(err)
	}
	for n := 0; ; n++ {
		text, _ := reader.ReadBytes('\n')
		if len(text) == 0 {
			break
		}
		if n < skip {
			continue
		}
		var line obj
		check(json.Unmarshal(text, &line))
		start := time.Now()
		done := make(chan string, 1)
		progress.Store("")
		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- fmt.Sprintf("panic: %v", e)
				}
			}()
			run(line)
			done <- ""
		}()
		crash := ""
		deadline := time.After(timeout)
		tick := time.NewTicker(20 * time.Millisecond)
	WAIT:
		for {
			select {
			case crash = <-done:
				break WAIT
			case <-deadline:
				crash = "hang"
				break WAIT
			case <-tick.C:
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 800<<20 {
					crash = "memory"
					break WAIT
				}
			}
		}
		tick.Stop()
		if crash != "" {
			// the line may still be changed by the call in progress: emit it as it was
			var orig obj
			check(json.Unmarshal(text, &orig))
			orig["crash"] = fmt.Sprintf("%s in %s", crash, progress.Load())
			emit(orig)
			os.Exit(3)
		}
		line["ms"] = time.Since(start).Milliseconds()
		emit(line)
	}
	out.Close()
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(4)
	}
}

func run(line obj) {
	switch line["kind"].(string) {
	case "eval":
		runEval(line)
	case "tree":
		runTree(line)
	case "stream":
		runStream(line)
	case "gram":
		runGrammar(line)
	case "conc":
		runConcurrent(line)
	case "end":
		runEnd(line)
	case "constream":
		runConStream(line)
	default:
		panic("unknown kind " + line["kind"].(string))
	}
}

// helpers to read JSON values

func runes(v interface{}) []rune {
	list, _ := v.([]interface{})
	rs := make([]rune, len(list))
	for i, x := range list {
		rs[i] = rune(x.(float64))
	}
	return rs
}

// str is the string of a list of chars; every other U+FFFD is written as a byte that is no UTF-8,
// which stands for the same char
func str(v interface{}) string {
	var b strings.Builder
	for i, r := range runes(v) {
		if r == 0xFFFD && i%2 == 0 {
			b.WriteByte([]byte{0xFF, 0x80, 0xC0}[i/2%3])
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}
func num(v interface{}) int {
	n, _ := v.(float64)
	return int(n)
}

// level and skipping are given by their names in the library, whatever their values are
func level(n int) int {
	switch n {
	case -1:
		return xbnf.LevelRaw
	case 0:
		return xbnf.LevelBasic
	case 1:
		return xbnf.LevelNoVertual
	case 2:
		return xbnf.LevelDataOnly
	}
	return xbnf.LevelDataOnly + n - 2
}

func skipping(n int) int {
	switch n {
	case 0:
		return xbnf.SUGGEST_NOT_SKIP
	case 1:
		return xbnf.SUGGEST_SKIP
	case 3:
		return xbnf.NOT_SKIP
	}
	panic("unknown flag")
}

func nums(v interface{}) []int {
	list, _ := v.([]interface{})
	ns := make([]int, len(list))
	for i, x := range list {
		ns[i] = num(x)
	}
	return ns
}
func flag(v interface{}) bool {
	b, _ := v.(bool)
	return b
}
func objs(v interface{}) []obj {
	list, _ := v.([]interface{})
	var os []obj
	for _, x := range list {
		os = append(os, x.(map[string]interface{}))
	}
	return os
}
func codes(rs []rune) []rune {
	if rs == nil {
		return []rune{}
	}
	return append([]rune{}, rs...)
}
