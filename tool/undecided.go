package main

import "fmt"

// undecided is the panic value for "the analysis cannot decide this construct".
type undecidedErr struct{ msg string }

func undecided(format string, args ...interface{}) undecidedErr {
	return undecidedErr{fmt.Sprintf(format, args...)}
}
func (u undecidedErr) Error() string  { return u.msg }
func (u undecidedErr) String() string { return u.msg }
