package core

import "github.com/gocraft/health/stack"

// The line directives give these functions file names beside the Go tree used here.
func besideGoroot() []*stack.Trace { return []*stack.Trace{lineA(), lineB(), lineC()} }

//line /opt/veriftools/go1.27.3-app/src/app/main.go:10
func lineA() *stack.Trace { return stack.NewTrace(0) }

//line /opt/veriftools/go1.27.3path/src/app/main.go:20
func lineB() *stack.Trace { return stack.NewTrace(0) }

//line /srv/app/go/src/runtime/main.go:30
func lineC() *stack.Trace { return stack.NewTrace(0) }
