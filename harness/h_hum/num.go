package h_hum

import (
	"math"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// english is a humanizer for English that prints as usual.
func english() *humanize.Humanizer {
	col, err := humanize.New()
	nd.Assert(err == nil, "collection")
	return col.CreateHumanizer(language.English)
}

// group separates the digits of an integer by three.
func group(s string) string {
	sign := ""
	if s[0] == '-' {
		sign, s = "-", s[1:]
	}
	out := ""
	for len(s) > 3 {
		out = "," + s[len(s)-3:] + out
		s = s[:len(s)-3]
	}
	return sign + s + out
}

// decimal is any number with the given number of digits, and how it is written.
func decimal(digits int) (int, string) {
	return nines(digits, -1)
}

// nines is any number with the given number of digits of which exactly the last n are nines (any number of them if n < 0).
func nines(digits, n int) (int, string) {
	v := 0
	b := make([]byte, digits)
	for i := range b {
		lo, hi := 0, 9
		if i == 0 && digits > 1 {
			lo = 1
		}
		if n >= 0 && i == digits-n-1 {
			hi = 8
		}
		d := 9
		if n < 0 || i < digits-n {
			d = nd.Range("d"+string(rune('a'+i)), lo, hi)
		}
		v = 10*v + d
		b[i] = byte('0' + d)
	}
	return v, string(b)
}

// Comma: integers of all types keep their sign and all their digits.
func Comma() {
	h := english()
	n, s := decimal(nd.Choice("digits", nd.Param("digits")) + 1)
	var v any
	switch nd.Choice("type", 4) {
	case 0:
		v = n
	case 1:
		v, s = -n, "-"+s
		if n == 0 {
			s = "0"
		}
	case 2:
		v = uint64(n)
	case 3:
		m := int64(n)
		v = &m
	}
	got := h.Intcomma(v)
	nd.ObserveStr(got)
	nd.Assert(got == group(s), "digits grouped by three")
	nd.Reach("comma")
}

// Ordinal: the ending fits the last digits.
func Ordinal() {
	h := english()
	digits := nd.Choice("digits", nd.Param("digits")) + 1
	n, s := decimal(digits)
	var v any
	switch nd.Choice("type", 4) {
	case 0:
		v = n
	case 1:
		v = float64(n)
	case 2:
		v = uint64(n)
	case 3:
		got := h.Ordinal(-n)
		if n == 0 {
			nd.Assert(got == "0th", "ordinal of zero")
		} else {
			nd.Assert(got == "-"+s, "negative number")
		}
		nd.Reach("negative")
		return
	}
	got := h.Ordinal(v)
	nd.ObserveStr(got)
	nd.Assert(got == group(s)+ending(s), "ordinal")
	nd.Reach("ordinal")
}

// ending of the ordinal of the number with these digits.
func ending(s string) string {
	last := s[len(s)-1]
	teen := len(s) > 1 && s[len(s)-2] == '1'
	switch {
	case teen:
		return "th"
	case last == '1':
		return "st"
	case last == '2':
		return "nd"
	case last == '3':
		return "rd"
	}
	return "th"
}

var words = []string{"one", "two", "three", "four", "five", "six", "seven", "eight", "nine"}

// Word: one to nine become words, other numbers stay.
func Word() {
	h := english()
	n, s := decimal(nd.Choice("digits", nd.Param("digits")) + 1)
	if nd.Choice("neg", 2) == 1 {
		nd.Assume(n != 0)
		n, s = -n, "-"+s
	}
	want := group(s)
	for i, w := range words {
		if n == i+1 {
			want = w
		}
	}
	var v any
	switch nd.Choice("type", 4) {
	case 0:
		v = n
	case 1:
		v = float64(n)
	case 2:
		v = int64(n)
	case 3:
		v = s
		nd.Assume(len(s) < 3)
	}
	got := h.Apnumber(v)
	nd.ObserveStr(got)
	nd.Assert(got == want, "number or word")
	nd.Reach("word")
}

// whole is any number of up to digits digits, except zero.
func whole(digits, part int) int {
	n := nd.Choice("digits", digits) + 1
	trail := -1
	if part == 19 { // rounds to the next number
		trail = nd.Choice("nines", n+1)
	}
	w, _ := nines(n, trail)
	nd.Assume(w > 0)
	return w
}

// fraction is any number from 0 to size-1. It is chosen as its part of size in twentieths, and its place in that part;
// tie: it is the middle between two tenths.
func fraction(size int) (n, part int, tie bool) {
	i := nd.Choice("part", 20)
	lo, hi := (i*size+19)/20, ((i+1)*size+19)/20-1
	if lo*20 == i*size && i%2 == 1 && nd.Choice("half", 2) == 1 {
		return lo, i, true
	} else if lo*20 == i*size && i%2 == 1 {
		lo++
	}
	nd.Assume(lo <= hi)
	if lo == hi {
		return lo, i, false
	}
	return nd.Range("f", lo, hi), i, false
}

// File: a file size names the largest unit that fits and the number of units.
func File() {
	h := english()
	unit := nd.Param("unit") // power of 1024
	size := 1 << (10 * unit)
	n := 0
	switch {
	case unit == 0:
		n = nd.Range("w", 0, 1023)
	default:
		// all sizes from 1 to just below 1024 units (8 PB), by the part of the decimal they fall into
		f, part, _ := fraction(size)
		w := whole(4, part)
		if unit == 5 {
			nd.Assume(w < 8)
		} else {
			nd.Assume(w < 1024)
		}
		n = w*size + f
	}
	neg := nd.Choice("neg", 2) == 1
	nd.Assume(!neg || n > 0)
	v := n
	if neg {
		v = -n
	}
	got := ""
	switch nd.Choice("type", nd.Param("types")) {
	case 0:
		got = h.FilesizeFormat(v)
	case 1:
		got = h.FilesizeFormat(float64(v))
	case 2:
		nd.Assume(!neg)
		got = h.FilesizeFormat(uint64(v))
	}
	nd.ObserveStr(got)
	if neg {
		nd.Assert(got[0] == '-', "sign")
		got = got[1:]
	}
	i := strings.IndexByte(got, ' ')
	nd.Assert(i > 0, "unit")
	text, name := got[:i], got[i+1:]
	if unit == 0 {
		nd.Assert(name == "bytes" && n != 1 || name == "byte" && n == 1, "unit")
		nd.Assert(text == group(num(n, 1)), "number of bytes")
		nd.Reach("bytes")
		return
	}
	nd.Assert(name == string("  KMGTP"[unit+1])+"B", "unit")
	x := tenths(text)
	// within half a tenth of the unit
	d := size*x - 10*n
	nd.Assert(nd.And(2*d >= -size, 2*d <= size), "number of units")
	nd.Reach("file")
}

// Extremes: values no integer type holds exactly, or only the largest.
func Extremes() {
	h := english()
	type c struct {
		v                           any
		comma, ord, word, file, big string
	}
	cs := []c{
		{int64(math.MaxInt64), "9,223,372,036,854,775,807", "9,223,372,036,854,775,807th", "", "8,192 PB", "9.2 quintillion"},
		{int64(math.MinInt64), "-9,223,372,036,854,775,808", "-9223372036854775808", "", "-8,192 PB", "-9.2 quintillion"},
		{int64(1<<53 + 1), "9,007,199,254,740,993", "9,007,199,254,740,993rd", "", "8 PB", "9.0 quadrillion"},
		{-int64(1<<53 + 1), "-9,007,199,254,740,993", "-9007199254740993", "", "-8 PB", "-9.0 quadrillion"},
		{uint64(math.MaxUint64), "18,446,744,073,709,551,615", "18,446,744,073,709,551,615th", "", "16,384 PB", "18.4 quintillion"},
		{uint64(1<<63 + 3), "9,223,372,036,854,775,811", "9,223,372,036,854,775,811th", "", "8,192 PB", "9.2 quintillion"},
		{uint64(1<<63 + 14), "9,223,372,036,854,775,822", "9,223,372,036,854,775,822nd", "", "8,192 PB", "9.2 quintillion"},
		{uint(math.MaxUint64), "18,446,744,073,709,551,615", "18,446,744,073,709,551,615th", "", "16,384 PB", "18.4 quintillion"},
		{float64(1 << 63), "9,223,372,036,854,775,808", "9,223,372,036,854,775,808th", "", "8,192 PB", "9.2 quintillion"},
		{-float64(1 << 63), "-9,223,372,036,854,775,808", "-9223372036854775808", "", "-8,192 PB", "-9.2 quintillion"},
		{-1.5 * (1 << 63), "-13,835,058,055,282,163,712", "-13835058055282163712", "", "-12,288 PB", "-13.8 quintillion"},
		{1e20, "100,000,000,000,000,000,000", "100,000,000,000,000,000,000th", "", "88,817.8 PB", "100.0 quintillion"},
		{float64(1 << 70), "1,180,591,620,717,411,303,424", "1,180,591,620,717,411,303,424th", "", "1,048,576 PB", "1.2 sextillion"},
		{int8(math.MinInt8), "-128", "-128", "", "-128 bytes", ""},
		{uint8(math.MaxUint8), "255", "255th", "", "255 bytes", ""},
		{float32(1.5), "1.5", "1st", "one", "1 byte", ""},
		{-1.5, "-1.5", "-1", "-1", "-1 byte", ""},
		{0.25, "0.25", "0th", "0", "0 bytes", ""},
		{-0.25, "-0.25", "0", "0", "0 bytes", ""},
		{1234567.1234567, "1,234,567.123457", "1,234,567th", "1,234,567", "1.2 MB", "1.2 million"},
		{9.99, "9.99", "9th", "nine", "9 bytes", ""},
		{1023.9, "1,023.9", "1,023rd", "1,023", "1,023 bytes", ""},
		{"12", "12", "12th", "12", "12 bytes", ""},
		{math.MaxFloat64, "", "", "", "", ""},
		{-math.MaxFloat64, "", "", "", "", ""},
		{1e33, "", "", "", "", "1.0 decillion"},
		{math.SmallestNonzeroFloat64, "0", "0th", "0", "0 bytes", ""},
		{math.Inf(1), "", "", "", "", ""},
		{math.Inf(-1), "", "", "", "", ""},
		{math.NaN(), "", "", "", "", ""},
		{"1e400", "", "", "", "", ""},
		{nil, "", "", "", "", ""},
		{[]byte("abc"), "", "", "", "3 bytes", ""},
		{struct{ A, B int }{1, 2}, "", "", "", "", ""},
		{1e21, "", "", "", "", "1.0 sextillion"},
		{1e24, "", "", "", "", "1.0 septillion"},
		{2.5e27, "", "", "", "", "2.5 octillion"},
		{-3e30, "", "", "", "", "-3.0 nonillion"},
		{999.94e33, "", "", "", "", "999.9 decillion"},
		{1e36, "", "", "", "", "1,000.0 decillion"},
		{1e99, "", "", "", "", ""},
		{1e100, "", "", "", "", "1.0 googol"},
		{-1.26e102, "", "", "", "", "-126.0 googol"},
	}
	x := cs[nd.Choice("value", len(cs))]
	if nd.Param("file") == 1 {
		file := h.FilesizeFormat(x.v)
		nd.ObserveStr(file)
		nd.Assert(file != "", "file size")
		if x.file != "" {
			nd.Assert(file == x.file, "file size")
		}
		nd.Reach("extreme")
		return
	}
	comma, ord, word, big := h.Intcomma(x.v), h.Ordinal(x.v), h.Apnumber(x.v), h.Intword(x.v)
	nd.ObserveStr(comma + "|" + ord + "|" + word + "|" + big)
	if x.big == "" {
		x.big = x.comma // small
	}
	if x.big != "" {
		nd.Assert(big == x.big, "large number word")
	}
	if x.comma != "" {
		nd.Assert(comma == x.comma, "grouped")
	}
	if x.ord != "" {
		nd.Assert(ord == x.ord, "ordinal")
	}
	if x.word == "" {
		x.word = x.comma
	}
	if x.word != "" {
		nd.Assert(word == x.word, "number or word")
	}
	nd.Reach("extreme")
}

var large = []string{"million", "billion", "trillion", "quadrillion", "quintillion", "sextillion", "septillion", "octillion", "nonillion", "decillion"}

// tenths reads a number of at most four digits with grouping and an optional
// decimal, in tenths.
func tenths(text string) int {
	x, tenth := 0, false
	for j := 0; j < len(text); j++ {
		switch c := text[j]; {
		case c == ',':
			nd.Assert(j == 1 && len(text) > 4, "separator")
		case c == '.':
			nd.Assert(!tenth && j == len(text)-2, "at most one decimal")
			tenth = true
		default:
			nd.Assert(nd.And(c >= '0', c <= '9'), "digit")
			x = 10*x + int(c-'0')
		}
	}
	if !tenth {
		x *= 10
	}
	return x
}

// Large: the words for large numbers name the magnitude, and the number of units to a tenth.
func Large() {
	h := english()
	unit := nd.Param("unit") // powers of 1000
	if unit == 0 {
		n, s := decimal(nd.Choice("digits", 6) + 1)
		nd.Assert(h.Intword(n) == group(s), "small number")
		nd.Reach("small")
		return
	}
	// any number of units from 1 to 999, and any fraction in steps of 1/one
	one := 1
	for i := 0; i < nd.Param("digits"); i++ {
		one *= 10
	}
	f, part, tie := fraction(one)
	w := 0
	if unit == 4 {
		w = nd.Range("w", 1, 8) // below 2^53
	} else {
		w = whole(3, part)
	}
	m := w*one + f
	n := m
	for i := nd.Param("digits"); i < 3*(unit+1); i++ {
		n *= 10
	}
	neg := nd.Choice("neg", 2) == 1
	v := n
	if neg {
		v = -n
	}
	got := ""
	if nd.Choice("type", nd.Param("types")) == 0 {
		got = h.Intword(v)
	} else {
		got = h.Intword(float64(v))
	}
	if !tie { // rounds either way
		nd.ObserveStr(got)
	}
	if neg {
		nd.Assert(got[0] == '-', "sign")
		got = got[1:]
	}
	i := strings.IndexByte(got, ' ')
	nd.Assert(i > 0, "unit")
	nd.Assert(got[i+1:] == large[unit-1], "unit")
	d := tenths(got[:i])*one - 10*m
	nd.Assert(nd.And(2*d >= -one, 2*d <= one), "number of units")
	nd.Reach("large")
}
