// Package yaml is a user's code in a package whose path ends in a version.
package yaml

//go:noinline
func Do(f func()) { f() }

func Inline(f func()) { f() }
