// Package shop is a user's code in a module whose path has no host name.
package shop

type Order struct{ Lines []int }

func Call[T any](next func() T) T { return next() }

//go:noinline
func Plain[T any](next func() T) T { x := next(); return x }

func (o *Order) Each(f func(int)) {
	for i := range o.Lines {
		f(i)
	}
}
