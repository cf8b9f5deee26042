// Package runtime is a user's code in a package named like one of the standard library's.
package runtime

//go:noinline
func Do(f func()) { f() }

func Inline(f func()) { f() }
