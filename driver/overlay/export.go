package xbnf

// VerifPrepend gives the driver in /verif access to handing back chars in front
// of a stream. It is added to the build by -overlay only.
func VerifPrepend(cs ICharstream, chars []rune) ICharstream { return newCharstreamPrepend(cs, chars) }
