// Package zerolog is a stand-in for github.com/rs/zerolog: only what the repository uses.
package zerolog

// Logger discards everything.
type Logger struct{}

// Nop returns a logger that discards everything.
func Nop() Logger { return Logger{} }
