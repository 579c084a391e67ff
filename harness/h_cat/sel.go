package h_cat

import (
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// ours is a rule that agrees with that of no language.
const ours = "nplurals=3; plural=n%10==1 ? 2 : n>5 ? 0 : 1;"

func oursOf(n int64) int {
	switch {
	case n%10 == 1:
		return 2
	case n > 5:
		return 0
	}
	return 1
}

// place is the place of the category of n in the list of categories of a language (see langCats).
func place(lang int, n int64) int {
	in := func(x, lo, hi int64) bool { return nd.And(lo <= x, x <= hi) }
	switch lang {
	case 0: // English
		if n == 1 {
			return 0
		}
		return 1
	case 1: // Japanese
		return 0
	case 2: // Polish
		if n == 1 {
			return 0
		}
		if nd.And(in(n%10, 2, 4), !in(n%100, 12, 14)) {
			return 1
		}
		return 2
	case 3: // Arabic
		switch {
		case n == 0:
			return 0
		case n == 1:
			return 1
		case n == 2:
			return 2
		case in(n%100, 3, 10):
			return 3
		case in(n%100, 11, 99):
			return 4
		}
		return 5
	case 4: // Latvian
		if nd.Or(n%10 == 0, in(n%100, 11, 19)) {
			return 0
		}
		if nd.And(n%10 == 1, n%100 != 11) {
			return 1
		}
		return 2
	}
	// Spanish
	if n == 1 {
		return 0
	}
	if nd.And(n != 0, n%1000000 == 0) {
		return 1
	}
	return 2
}

// PoSelect: the form of a plural message is the one the rule of the catalog selects.
func PoSelect() {
	l, dec := nd.Param("lang"), nd.Param("dec")
	var head []string
	head = append(head, "Language: xx")
	cldr := dec&1 == 1
	switch nd.Choice("head", 6) {
	case 0:
		head = append(head, "Plural-Forms: "+ours)
	case 1:
		head = append(head, "", "plural-forms :"+ours, "X-Other: a", " ")
	case 2:
		head = append(head, "X-spreak-use-CLDR: "+[]string{"true", "True", "TRUE"}[nd.Choice("true", 3)], "Plural-Forms: "+ours)
		cldr = true
	case 3:
		head = append(head, "Plural-Forms: "+ours, "x-spreak-use-cldr : true")
		cldr = true
	case 4:
		head = append(head, "Plural-Forms: "+ours, "X-spreak-use-CLDR: "+[]string{"false", "", "0"}[nd.Choice("false", 3)])
	case 5: // without a rule
		cldr = true
	}
	forms := 3
	if cldr {
		forms = len(langCats[l])
	}
	var strs []string
	for i := 0; i < forms; i++ {
		strs = append(strs, "f"+strconv.Itoa(i))
	}
	switch hole := nd.Choice("hole", 3); hole {
	case 1: // the last form is missing
		strs = strs[:forms-1]
	case 2: // a form is not translated
		strs[nd.Choice("empty", forms)] = ""
	}
	if len(strs) == 0 {
		strs = []string{""}
	}
	h := strings.Join(head, "\n") + "\n"
	var c catalog.Catalog
	var err error
	lang := langs[l]
	if nd.Choice("region", 2) == 1 {
		lang = []language.Tag{language.BritishEnglish, language.MustParse("ja-JP"), language.MustParse("pl-PL"), language.MustParse("ar-EG"), language.MustParse("lv-LV"), language.LatinAmericanSpanish}[l]
	}
	if dec < 2 {
		s := "msgid \"\"\nmsgstr \"" + strings.ReplaceAll(h, "\n", "\\n") + "\"\n\nmsgctxt \"c\"\nmsgid \"one\"\nmsgid_plural \"many\"\n"
		for i, t := range strs {
			s += "msgstr[" + strconv.Itoa(i) + "] \"" + t + "\"\n"
		}
		d := catalog.NewPoDecoder()
		if dec == 1 {
			d = catalog.NewPoCLDRDecoder()
		}
		c, err = d.Decode(lang, "d", []byte(s))
	} else {
		d := catalog.NewMoDecoder()
		if dec == 3 {
			d = catalog.NewMoCLDRDecoder()
		}
		c, err = d.Decode(lang, "d", build([]moMsg{{"", h}, {"c\x04one\x00many", strings.Join(strs, "\x00")}}, moLayout{order: []int{0, 1, 2, 3}}).data)
	}
	nd.Assert(err == nil, "a well-formed file is rejected")
	n := nd.Int64("n")
	top := int64(1 << 14)
	if l == 3 || l == 4 {
		top = 1 << 9
	}
	if l == 5 {
		top = 1 << 21 // Spanish has a form for millions
	}
	nd.Assume(nd.And(n >= 0, n < top))
	got, err := c.LookupPlural("c", "one", n)
	nd.ObserveStr(got)
	want := 0
	if cldr {
		want = place(l, n)
	} else {
		want = oursOf(n)
	}
	if want < len(strs) && strs[want] != "" {
		nd.Assert(err == nil, "a translated form is not served")
		nd.Assert(got == strs[want], "not the form the plural rule selects")
		nd.Reach("form")
	} else {
		nd.Assert(err != nil && missing(err), "no error for a form without translation")
		nd.Assert(got == "one", "not the source text for a form without translation")
		nd.Reach("missing")
	}
	s, err := c.Lookup("c", "one")
	if strs[0] != "" {
		nd.Assert(err == nil && s == strs[0], "singular lookup does not give the first form")
	} else {
		nd.Assert(err != nil && s == "one", "text for a message without translation")
	}
}
