// Package net is a user's code in a package named like one of the standard library's.
package net

//go:noinline
func Do(f func()) { f() }

func Inline(f func()) { f() }
