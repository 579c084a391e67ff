package h_hum

import (
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// special are the characters with a meaning in a format.
const special = "aAbcdDeEfFgGhHiIjlLmMnNoOPrsStTuUwWyYzZ\\"

func isSpecial(b byte) bool {
	hit := false
	for i := 0; i < len(special); i++ {
		hit = nd.Or(hit, b == special[i])
	}
	return hit
}

// Strings: formats of fields, escaped characters and text.
func Strings() {
	h := human()
	hour, min, s := 7, 5, nd.Range("s", 0, 59)
	t := time.Date(2005, 3, 9, hour, min, s, 0, time.UTC)
	n := nd.Param("items")
	format, want := "", ""
	for i := 0; i < n; i++ {
		switch nd.Choice("item", 6) {
		case 0: // text
			b := nd.Byte("text")
			nd.Assume(b < 0x80)
			nd.Assume(!isSpecial(b))
			format, want = format+string([]byte{b}), want+string([]byte{b})
		case 1: // any character, escaped
			b := nd.Byte("escaped")
			nd.Assume(b < 0x80)
			format, want = format+"\\"+string([]byte{b}), want+string([]byte{b})
		case 2:
			r := []string{"é", "€", "日", "𝄞"}[nd.Choice("rune", 4)]
			if nd.Choice("esc", 2) == 1 {
				format += "\\"
			}
			format, want = format+r, want+r
		case 3:
			format, want = format+"s", want+num(s, 2)
		case 4:
			format, want = format+"Y", want+"2005"
		case 5:
			format, want = format+"P", want+"7:05 a.m."
		}
	}
	if nd.Choice("end", 2) == 1 { // nothing to escape
		format, want = format+"\\", want+"\\"
	}
	nd.Assume(format != "" && len(format) < 20)
	got := h.FormatTime(t, format)
	nd.ObserveStr(got)
	nd.Assert(got == want, "format")
	nd.Reach("format")
}

var keywords = []string{humanize.DateFormat, humanize.TimeFormat, humanize.DateTimeFormat, humanize.YearMonthFormat, humanize.MonthDayFormat, humanize.ShortDateFormat, humanize.ShortDatetimeFormat}

// at 2005-03-09 07:05, with the formats of no language
var usual = []string{"March 9, 2005", "7:05 a.m.", "March 9, 2005, 7:05 a.m.", "March 2005", "March 9", "03/09/2005", "03/09/2005 7:05 a.m."}

func formatOf(own []bool, name string) *humanize.FormatData {
	f := &humanize.FormatData{}
	for i, p := range []*string{&f.DateFormat, &f.TimeFormat, &f.DateTimeFormat, &f.YearMonthFormat, &f.MonthDayFormat, &f.ShortDateFormat, &f.ShortDatetimeFormat} {
		if own[i] {
			*p = name + "\\" + string(rune('0'+i))
		}
	}
	return f
}

func poFS(text string) fstest.MapFS {
	return fstest.MapFS{"django.po": {Data: []byte("msgid \"\"\nmsgstr \"\"\n\nmsgid \"today\"\nmsgstr \"" + text + "\"\n")}}
}

// Choose: a humanizer uses the texts and the formats of its language, the same ones each time.
func Choose() {
	sets := [][]string{{"es-AR", "es-CO"}, {"de", "fr"}, {"pt-BR", "pt-PT"}, {"zh-Hant", "zh-Hans"}, {"en-AU", "en-GB"}, {}, {"es-AR", "es-CO", "es-MX"}, {"pt-BR", "pt-PT", "pt-AO"}, {"en-AU", "en-GB", "es-AR"}}
	set := sets[nd.Param("set")]
	req := []string{"es-CL", "es-MX", "de-AT", "fr", "pt-MZ", "zh-HK", "en-IN", "ja", "es-CO"}[nd.Choice("request", 9)]
	formats := nd.Choice("formats", 3)
	var data []*humanize.LocaleData
	own := make([][]bool, len(set))
	for i, l := range set {
		own[i] = make([]bool, len(keywords))
		d := &humanize.LocaleData{Lang: language.MustParse(l), Fs: poFS("t" + string(rune('0'+i)))}
		switch (formats + i) % 3 {
		case 0:
		case 1:
			d.Format = formatOf(own[i], "")
		case 2:
			for j := range own[i] {
				own[i][j] = (j+i)%2 == nd.Param("odd")
			}
			d.Format = formatOf(own[i], "-"+string(rune('0'+i)))
		}
		data = append(data, d)
	}
	now := time.Date(2005, 3, 9, 7, 5, 0, 0, time.UTC)
	nd.SetNow(now)
	texts := ""
	for round := 0; round < 2; round++ {
		col, err := humanize.New(humanize.WithLocale(data...))
		nd.Assert(err == nil, "collection")
		h := col.CreateHumanizer(req)
		which := -1
		today := h.NaturalDay(now)
		for i := range set {
			if today == "t"+string(rune('0'+i)) {
				which = i
			}
		}
		nd.Assert(which >= 0 || today == "today", "text of a language")
		if which >= 0 {
			nd.Assert(h.Language() == data[which].Lang, "language")
		}
		for j, k := range keywords {
			want := usual[j]
			if which >= 0 && own[which][j] {
				want = "-" + string(rune('0'+which)) + string(rune('0'+j))
			}
			nd.Assert(h.FormatTime(now, k) == want, "format of the language")
		}
		nd.Assert(h.Date() == h.FormatTime(now, humanize.DateFormat) && h.Time() == h.FormatTime(now, humanize.TimeFormat) && h.Now() == h.FormatTime(now, humanize.DateTimeFormat), "current time")
		for i, l := range set {
			if l == req {
				nd.Assert(which == i, "language asked for")
			}
		}
		if len(set) == 0 || req == "ja" {
			nd.Assert(which < 0, "no language that fits")
		}
		if round == 0 {
			texts = today
		}
		nd.Assert(today == texts, "same language each time")
	}
	nd.ObserveStr(texts)
	nd.Reach("choose")
}
