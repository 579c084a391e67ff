package h_hum

import (
	"strconv"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// call is one text that was printed with values.
type call struct {
	format string
	vars   []any
}

// calls are the texts printed, in order.
var calls []call

func mark(i int) string { return "<" + string(rune('0'+i)) + ">" }

func printf(format string, vars ...any) string {
	if len(vars) == 0 {
		return format
	}
	calls = append(calls, call{format, vars})
	return mark(len(calls) - 1)
}

// human is a humanizer for English whose printer is printf.
func human() *humanize.Humanizer {
	col, err := humanize.New(humanize.WithBundleOption(spreak.WithPrintFunction(printf)))
	nd.Assert(err == nil, "collection")
	calls = nil
	return col.CreateHumanizer(language.English)
}

// num writes n with at least w digits.
func num(n, w int) string {
	s, sign := strconv.Itoa(n), ""
	if n < 0 {
		s, sign, w = s[1:], "-", w-1
	}
	for len(s) < w {
		s = "0" + s
	}
	return sign + s
}

// digits writes n with w digits.
func digits(n, w int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}
