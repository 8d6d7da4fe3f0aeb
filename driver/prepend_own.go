//go:build own

package main

import (
	"sync"

	"github.com/cnsgfk/xbnf"
)

// For a library that has no way of handing back chars under the name the overlay knows: a stream
// of the user's own that does it.
func prepend(cs xbnf.ICharstream, chars []rune) xbnf.ICharstream {
	if len(chars) == 0 {
		return cs
	}
	return &ownPrepend{base: cs, chars: chars}
}

type ownPrepend struct {
	lock  sync.Mutex
	base  xbnf.ICharstream
	chars []rune
	at    int
}

func (s *ownPrepend) next() rune {
	if s.at < len(s.chars) {
		s.at++
		return s.chars[s.at-1]
	}
	return s.base.Next()
}
func (s *ownPrepend) peek() rune {
	if s.at < len(s.chars) {
		return s.chars[s.at]
	}
	return s.base.Peek()
}
func (s *ownPrepend) Next() rune { s.lock.Lock(); defer s.lock.Unlock(); return s.next() }
func (s *ownPrepend) Peek() rune { s.lock.Lock(); defer s.lock.Unlock(); return s.peek() }
func (s *ownPrepend) SkipSpaces() []rune {
	s.lock.Lock()
	defer s.lock.Unlock()
	var out []rune
	for c := s.peek(); c != xbnf.EOFChar && xbnf.IsWhiteSpace(c); c = s.peek() {
		out = append(out, s.next())
	}
	return out
}
func (s *ownPrepend) Match(w []rune) ([]rune, bool) {
	s.lock.Lock()
	defer s.lock.Unlock()
	var out []rune
	for _, x := range w {
		c := s.next()
		if c == xbnf.EOFChar {
			return out, false
		}
		out = append(out, c)
		if c != x {
			return out, false
		}
	}
	return out, true
}
func (s *ownPrepend) Cursor() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.base.Cursor() - len(s.chars) + s.at
}
func (s *ownPrepend) Position() *xbnf.Position {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.at >= len(s.chars) {
		return s.base.Position()
	}
	return s.base.PositionLookup(s.base.Cursor() - len(s.chars) + s.at)
}
func (s *ownPrepend) PositionLookup(i int) *xbnf.Position {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.base.PositionLookup(i)
}
