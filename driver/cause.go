package main

import (
	"regexp"
	"strconv"
	"strings"
)

// what an error says is the cause, as in Causes.tla. The texts of rules quoted in an error are
// taken to say nothing of the kind.
var cause = regexp.MustCompile(`(?s)missing (?P<more>EOF)(?:; |$)` +
	`|missing (?P<what>.*?) at (?:L(?P<line>\d+):(?P<col>\d+)|(?P<eof>EOF))` +
	`|rule '[~$#]*(?P<ref>\w*)' (?P<undefined>not defined)` +
	"|text `(?P<text>.*?)` is (?P<excluded>not allowed) in text block" +
	`|(?P<n>\d+) less than minimal (?P<min>\d+)` +
	`|ambiguity found: (?P<r1>\w*)\(".*?"\) (?P<tie>vs) (?P<r2>\w*)\(` +
	`|(?P<ambiguous>ambiguity found)` +
	`|(?P<empty>only an empty match)` +
	`|(?P<nothing>Empty Stream)`)

type list = []interface{}

func causes(err error) list {
	out := list{}
	if err == nil {
		return out
	}
	s := err.Error()
	if strings.Contains(s, "%!") { // badly printed
		return append(out, list{"odd"})
	}
	for _, m := range cause.FindAllStringSubmatch(s, -1) {
		part := func(name string) string { return m[cause.SubexpIndex(name)] }
		text := func(name string) []rune { return codes([]rune(part(name))) }
		number := func(name string) int { n, _ := strconv.Atoi(part(name)); return n }
		switch {
		case part("line") != "":
			out = append(out, list{"at", text("what"), number("line"), number("col")})
		case part("eof") != "":
			out = append(out, list{"eof", text("what")})
		case part("undefined") != "":
			out = append(out, list{"undefined", text("ref")})
		case part("excluded") != "":
			out = append(out, list{"excluded", text("text")})
		case part("n") != "":
			out = append(out, list{"few", number("n"), number("min")})
		case part("tie") != "":
			out = append(out, list{"tie", text("r1"), text("r2")})
		}
		for _, c := range []string{"more", "ambiguous", "empty", "nothing"} {
			if part(c) != "" {
				out = append(out, list{c})
			}
		}
	}
	return out
}
