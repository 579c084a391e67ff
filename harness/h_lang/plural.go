// Package h_lang checks what is made of language tags.
package h_lang

import (
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/h_cldr"
	"github.com/vorlif/spreak/internal/zzverif/h_plural"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

const lower = "abcdefghijklmnopqrstuvwxyz"

var bases = []string{"pt", "en", "es", "zh", "sr", "hi", "ar", "ro", "sw", "xx", "und", "nl", "de", "fr", "fa", "no", "art"}
var scripts = []string{"-Latn", "-Cyrl", "-Hant", "-Hans", "-Arab", ""}
var rest = []string{"", "-x-a", "-u-co-phonebk", "-1996", "-a-bb-x-c"}

// tag is a tag in some shape: its text before it is parsed.
func tag(shape int) string {
	switch shape {
	case 0: // any two letters
		return gen.OneOf("lang", 2, lower)
	case 1: // any three letters
		return lower[nd.Choice("first", 26):][:1] + lower[nd.Choice("second", 26):][:1] + gen.OneOf("lang", 1, lower)
	case 2: // any country
		return bases[nd.Choice("base", nd.Param("bases"))] + "-" + gen.OneOf("region", 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	case 3: // some region of the world
		return bases[nd.Choice("base", nd.Param("bases"))] + "-" + []string{"001", "003", "005", "013", "029", "142", "150", "155", "419", "840"}[nd.Choice("region", 10)]
	case 4: // with a script, a variant or an extension
		return bases[nd.Choice("base", nd.Param("bases"))] + scripts[nd.Choice("script", len(scripts))] + []string{"", "-PT", "-AO", "-419", "-MX", "-ME", "-IN"}[nd.Choice("region", 7)] + rest[nd.Choice("rest", len(rest))]
	case 6: // every listed language with any country or some script
		var list []string
		for i, l := range h_plural.Listed() {
			if i%8 == nd.Param("part") && !strings.ContainsAny(l, "-_") {
				list = append(list, l)
			}
		}
		for i, l := range h_cldr.Listed() {
			if i%8 == nd.Param("part") && !strings.Contains(l, "-") && !slices.Contains(list, l) && !slices.Contains(h_plural.Listed(), l) {
				list = append(list, l)
			}
		}
		l := list[nd.Choice("base", len(list))]
		if nd.Choice("rest", 2) == 1 {
			return l + scripts[nd.Choice("script", len(scripts)-1)]
		}
		return l + "-" + gen.OneOf("region", 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	case 5: // any two letters in any case with a script
		return gen.OneOf("lang", 2, lower+"ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "_Latn"
	}
	return ""
}

func parse(s string) language.Tag {
	if nd.Param("raw") == 1 {
		t, err := language.Raw.Parse(s)
		nd.Assume(err == nil)
		return t
	}
	t, err := language.Parse(s)
	nd.Assume(err == nil)
	return t
}

// closest is the listed language whose rules the tag has.
func closest(t language.Tag, listed []string) (string, bool) {
	for p := t; p.String() != "und"; p = p.Parent() {
		if slices.Contains(listed, p.String()) {
			return p.String(), true
		}
	}
	base, _, _ := strings.Cut(t.String(), "-")
	if base == "und" { // the language spoken there, as far as known
		b, c := t.Base()
		if base = b.String(); c < language.High {
			base = ""
		}
	}
	if base != "" && slices.Contains(listed, base) {
		return base, true
	}
	return "en", false
}

// Cldr: a language has the CLDR rules of the closest listed language.
func Cldr() {
	t := parse(tag(nd.Param("shape")))
	set, found := cldrplural.ForLanguage(t)
	want, ok := closest(t, h_cldr.Listed())
	if t.IsRoot() {
		want, ok = "en", false
	}
	nd.ObserveBool(found)
	nd.Assert(found == ok, "whether a listed language was found")
	nd.Assert(set != nil && set.FormFunc != nil, "no rules")
	// that these are the rules of that language, C15 shows
	ref, _ := cldrplural.ForLanguage(language.MustParse(want))
	nd.Assert(slices.Equal(set.Categories, ref.Categories), "categories of another language")
	ops := h_cldr.AnyOperands(int64(nd.Param("v")))
	nd.Assert(set.FormFunc(ops) == ref.FormFunc(ops), "rules of another language")
	nd.Reach(map[bool]string{true: "listed", false: "fallback"}[ok])
}

// Gettext: a language has the gettext rule of the closest listed language.
func Gettext() {
	t := parse(tag(nd.Param("shape")))
	f, found := poplural.ForLanguage(t)
	want, ok := closest(t, h_plural.Listed())
	if t.IsRoot() {
		want, ok = "en", false
	}
	nd.ObserveBool(found)
	nd.Assert(found == ok, "whether a listed language was found")
	nd.Assert(f != nil, "no rule")
	// that this is the rule of that language, C13 shows
	ref, _ := poplural.ForLanguage(language.MustParse(want))
	n := gen.Count("n")
	got, err := f(n)
	exp, errRef := ref(n)
	nd.Assert(err == nil && errRef == nil, "no index for a number")
	nd.Assert(got == exp, "rule of another language")
	nd.Reach(map[bool]string{true: "listed", false: "fallback"}[ok])
}
