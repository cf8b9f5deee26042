// Package rt opens shop's internal packages to the monitors.
package rt

import "shop/internal/runtime"

func Do(f func())     { runtime.Do(f) }
func Inline(f func()) { runtime.Inline(f) }
