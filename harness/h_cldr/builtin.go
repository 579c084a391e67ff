package h_cldr

import (
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// Builtin: the rules of a language give the category of the CLDR for every number.
func Builtin() {
	t := table[nd.Param("g")]
	langs := strings.Fields(t.langs)
	k := 0
	if nd.Param("all") == 1 {
		k = nd.Choice("lang", len(langs))
	}
	set, found := cldrplural.ForLanguage(language.MustParse(langs[k]))
	nd.Assert(found || langs[k] == "und", "language with rules not found")
	if langs[k] == "und" {
		return
	}
	isSet(set, t.rules)
	nd.Reach("category")
}

// Listed is every language the CLDR has rules for.
func Listed() []string {
	var r []string
	for _, t := range table {
		r = append(r, strings.Fields(t.langs)...)
	}
	return r
}

// AnyOperands are those of any number with v fraction digits.
func AnyOperands(v int64) *cldrplural.Operands { return anyNumber(v).operands() }

func isSet(set *cldrplural.RuleSet, texts string) {
	var cats []cldrplural.Category
	var rules []rule
	if texts != "" {
		for _, r := range strings.Split(texts, "; ") {
			name, text, _ := strings.Cut(r, ": ")
			parsed, ok := parse(text)
			nd.Assert(ok, "harness: rule text")
			cats = append(cats, category(name))
			rules = append(rules, parsed)
		}
	}
	cats = append(cats, cldrplural.Other)
	nd.Assert(slices.Equal(cats, set.Categories), "categories of the language")
	x := anyNumber(int64(nd.Param("v")))
	got := set.FormFunc(x.operands())
	nd.ObserveInt(int64(got))
	left := true
	ok := false
	for i, r := range rules {
		h := r.holds(x)
		ok = nd.Or(ok, nd.And(left, nd.And(h, got == cats[i])))
		left = nd.And(left, !h)
	}
	ok = nd.Or(ok, nd.And(left, got == cldrplural.Other))
	nd.Assert(ok, "not the category of the CLDR")
}
