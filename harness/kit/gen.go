package kit

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
)

// Ordinary names, few of them so that keys collide, and job/event/status words overlap.
var plain = []string{"foo", "bar", "baz", "foo.bar", "a", "b", "users", "users.get", "error", "success", "panic", "general", "timing", "count", "gauge", "x_y", "ab", "ba", "foobar", "fooerror", "foo.error", "barsuccess", "a.b", "b.a"}

var nasty = []string{"", " ", "%", "%d", "%s%n%!", "100%", "%%", "\"", "a\"b", "\\", "back\\slash", "new\nline", "tab\t", "cr\r", "\x00", "\x7f", "\xff\xfe", "a\xc3", "日本語", "emoji😀", "\u2028", "<b>&amp;</b>", "{}", "[]", "null", "a:b|c", "a:1|c\nb:2|c", "/api/v2/users", "@#$", "-", ".", "..", ".lead", "trail.", "ÀÉ", "key with spaces", "Ünï", "a,b;c", "$", "`{[@Z/", "/:09"}

func Name(g *rand.Rand) string {
	switch g.IntN(10) {
	case 0, 1:
		return nasty[g.IntN(len(nasty))]
	case 2:
		return RandString(g, g.IntN(12))
	default:
		return plain[g.IntN(len(plain))]
	}
}

func PlainName(g *rand.Rand) string { return plain[g.IntN(len(plain))] }

// RandString mixes printable ASCII, arbitrary bytes and runes.
func RandString(g *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch g.IntN(6) {
		case 0:
			b.WriteByte(byte(g.IntN(256)))
		case 1:
			b.WriteRune(rune(g.IntN(0x2fff)))
		default:
			b.WriteByte(byte(32 + g.IntN(95)))
		}
	}
	return b.String()
}

// Nanos: durations around every unit and formatting boundary, zero, negative and large.
func Nanos(g *rand.Rand) int64 {
	switch g.IntN(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -g.Int64N(1e10)
	case 3:
		return 1999 + g.Int64N(3)
	case 4:
		return 1999999 + g.Int64N(3)
	case 5:
		return 9999990 + g.Int64N(20)
	case 6:
		return g.Int64N(1e4)
	case 7:
		return g.Int64N(1e7)
	case 8:
		return g.Int64N(1e10)
	case 9:
		return 3e9 + g.Int64N(1e12)
	case 10:
		return 10e6 + g.Int64N(1000)*1e6 - g.Int64N(2)
	case 11:
		return g.Int64N(1e6) * 10
	default:
		return g.Int64N(5e8)
	}
}

// PosNanos are durations as real timings have them.
func PosNanos(g *rand.Rand) int64 {
	n := Nanos(g)
	if n < 0 {
		return -n
	}
	return n
}

// Value: finite gauge values.
func Value(g *rand.Rand) float64 {
	switch g.IntN(14) {
	case 0:
		return 0
	case 1:
		return float64(g.IntN(1000))
	case 2:
		return -float64(g.IntN(1000))
	case 3:
		return 0.1
	case 4:
		return -0.1
	case 5:
		return 0.0999999
	case 6:
		return g.Float64() / 10
	case 7:
		return -g.Float64() / 10
	case 8:
		return 1e15 + float64(g.IntN(1000))
	case 9:
		return g.Float64() * 1e-9
	case 10:
		return math.Round(g.Float64()*1e4)/1e3 + 0.005
	default:
		return g.NormFloat64() * 100
	}
}

func Kvs(g *rand.Rand, name func(*rand.Rand) string) map[string]string {
	n := g.IntN(5)
	if g.IntN(12) == 0 {
		n = 5 + g.IntN(40)
	}
	if n == 0 {
		if g.IntN(2) == 0 {
			return nil
		}
		return map[string]string{}
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k, v := name(g), name(g)
		if i >= 5 {
			k = fmt.Sprintf("%s%d", k, g.IntN(100))
		}
		m[k] = v
	}
	return m
}

func CopyMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	d := make(map[string]string, len(m))
	for k, v := range m {
		d[k] = v
	}
	return d
}

// EqMap compares as sets of pairs; nil and empty are the same.
func EqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func Q(v any) string { return fmt.Sprintf("%q", v) }

// SameFloat is bit-level equality with all NaNs alike.
func SameFloat(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// Near is equality up to accumulated rounding.
func Near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// RandASCII: printable ASCII.
func RandASCII(g *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + g.IntN(94))
	}
	return string(b)
}

// Spread makes one name into many: with a suffix out of width (0: none).
func Spread(g *rand.Rand, name string, width int) string {
	if width == 0 || g.IntN(8) == 0 {
		return name
	}
	return fmt.Sprint(name, "_", g.IntN(width))
}
