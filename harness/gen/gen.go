// Package gen builds arbitrary inputs of the shapes the harnesses need.
package gen

import "github.com/vorlif/spreak/internal/zzverif/nd"

func rng(b byte, lo, hi byte) { nd.Assume(nd.And(b >= lo, b <= hi)) }

// UTF8 is an arbitrary valid UTF-8 string of n bytes. Encodings are split into
// the classes of the Unicode standard (table 3-7), in which the bytes are independent.
func UTF8(name string, n int) string {
	s := nd.String(name, n)
	for i := 0; i < n; {
		k := 8
		switch n - i {
		case 1:
			k = 1
		case 2:
			k = 2
		case 3:
			k = 5
		}
		switch nd.Choice(name+".class", k) {
		case 0:
			rng(s[i], 0, 0x7f)
			i++
		case 1:
			rng(s[i], 0xc2, 0xdf)
			rng(s[i+1], 0x80, 0xbf)
			i += 2
		case 2:
			rng(s[i], 0xe0, 0xe0)
			rng(s[i+1], 0xa0, 0xbf)
			rng(s[i+2], 0x80, 0xbf)
			i += 3
		case 3:
			nd.Assume(nd.Or(nd.And(s[i] >= 0xe1, s[i] <= 0xec), nd.And(s[i] >= 0xee, s[i] <= 0xef)))
			rng(s[i+1], 0x80, 0xbf)
			rng(s[i+2], 0x80, 0xbf)
			i += 3
		case 4:
			rng(s[i], 0xed, 0xed)
			rng(s[i+1], 0x80, 0x9f)
			rng(s[i+2], 0x80, 0xbf)
			i += 3
		case 5:
			rng(s[i], 0xf0, 0xf0)
			rng(s[i+1], 0x90, 0xbf)
			rng(s[i+2], 0x80, 0xbf)
			rng(s[i+3], 0x80, 0xbf)
			i += 4
		case 6:
			rng(s[i], 0xf1, 0xf3)
			rng(s[i+1], 0x80, 0xbf)
			rng(s[i+2], 0x80, 0xbf)
			rng(s[i+3], 0x80, 0xbf)
			i += 4
		case 7:
			rng(s[i], 0xf4, 0xf4)
			rng(s[i+1], 0x80, 0x8f)
			rng(s[i+2], 0x80, 0xbf)
			rng(s[i+3], 0x80, 0xbf)
			i += 4
		}
	}
	return s
}

// Word is printable ASCII without blanks and without the bytes of not.
func Word(name string, n int, not string) string {
	s := nd.String(name, n)
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.And(s[i] > ' ', s[i] < 0x7f))
		for k := 0; k < len(not); k++ {
			nd.Assume(s[i] != not[k])
		}
	}
	return s
}

// ASCII is any string of n bytes below 0x80.
func ASCII(name string, n int) string {
	s := nd.String(name, n)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] < 0x80)
	}
	return s
}

// OneOf is any string of n bytes taken from alphabet.
func OneOf(name string, n int, alphabet string) string {
	s := nd.String(name, n)
	for i := 0; i < len(s); i++ {
		ok := false
		for k := 0; k < len(alphabet); k++ {
			ok = nd.Or(ok, s[i] == alphabet[k])
		}
		nd.Assume(ok)
	}
	return s
}

// Count is any int64 that is not negative.
func Count(name string) int64 { return int64(nd.Uint64(name) & (1<<63 - 1)) }
