module verifdriver

go 1.17

require github.com/cnsgfk/xbnf v0.0.0

replace github.com/cnsgfk/xbnf => /repo
