//go:build !own

package main

import "github.com/cnsgfk/xbnf"

// prepend hands chars back in front of a stream, as the library does it
func prepend(cs xbnf.ICharstream, chars []rune) xbnf.ICharstream { return xbnf.VerifPrepend(cs, chars) }
