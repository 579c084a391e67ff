package h_loc

import (
	"errors"
	"fmt"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

var errBroken = errors.New("broken file")

const (
	there = iota
	absent
	broken
	absentWrapped
)

// outcomes is a loader with one outcome for each language.
type outcomes struct {
	domain string
	of     map[language.Tag]int
	log    []call
	loads  int
}

func (o *outcomes) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	o.loads++
	nd.Assert(domain == o.domain, "a loader asked for another domain")
	k, ok := o.of[lang]
	nd.Assert(ok, "a language loaded that was not asked for")
	switch k {
	case there:
		return &fake{lang: lang, domain: domain, text: domain + lang.String(), log: &o.log}, nil
	case broken:
		return nil, errBroken
	case absentWrapped:
		return nil, fmt.Errorf("deep: %w", spreak.NewErrNotFound(lang, "test", "x"))
	}
	return nil, spreak.NewErrNotFound(lang, "test", "x")
}

// Bundle: a bundle has exactly the languages that could be loaded, or it fails where the documentation says so.
func Bundle() {
	de, fr, pl, en := language.German, language.French, language.Polish, language.English
	o := []*outcomes{{domain: "d", of: map[language.Tag]int{}}, {domain: "e", of: map[language.Tag]int{}}}
	nDom := nd.Param("doms")
	fb := nd.Param("fb") // 0: none, 1: de, 2: pl
	asked := []language.Tag{de, fr}
	if fb == 2 {
		asked = append(asked, pl)
	}
	for _, x := range o[:nDom] {
		for _, t := range asked {
			x.of[t] = nd.Choice(x.domain+t.String(), 4)
		}
	}
	missed := 0
	opts := []spreak.BundleOption{spreak.WithMissingTranslationCallback(func(error) { missed++ })}
	for _, x := range o[:nDom] {
		opts = append(opts, spreak.WithDomainLoader(x.domain, x))
	}
	opts = append(opts, spreak.WithDefaultDomain("d"), spreak.WithPrinter(printer{}))
	src := nd.Param("src") == 1
	if src {
		opts = append(opts, spreak.WithSourceLanguage(en))
	}
	if fb > 0 {
		opts = append(opts, spreak.WithFallbackLanguage([]language.Tag{de, pl}[fb-1]))
	}
	required := nd.Choice("required", 2) == 1
	if required {
		opts = append(opts, spreak.WithRequiredLanguage("de"), spreak.WithLanguage(fr))
	} else {
		opts = append(opts, spreak.WithLanguage("de", fr, "und", en.String()))
	}
	if !required {
		// the source language in the list of languages
		for _, x := range o[:nDom] {
			if !src {
				x.of[en] = absent
			}
		}
	}
	b, err := spreak.NewBundle(opts...)

	// what can be loaded
	fails := false
	loaded := map[language.Tag]bool{}
	doms := map[string]bool{}
	load := func(t language.Tag, must bool) {
		any := false
		if loaded[t] {
			return
		}
		for _, x := range o[:nDom] {
			switch x.of[t] {
			case there:
				any = true
				doms[x.domain] = true
			case broken:
				fails = true
			default:
				fails = fails || must
			}
		}
		loaded[t] = any
		fails = fails || must && !any
	}
	if fb > 0 {
		load([]language.Tag{de, pl}[fb-1], true)
	}
	load(de, required)
	load(fr, false)
	if src {
		loaded[en] = true
	}
	nd.ObserveBool(err == nil)
	nd.Assert((err != nil) == fails, "the bundle fails although everything needed was there, or the other way round")
	if fails {
		nd.Assert(b == nil, "a bundle besides an error")
		nd.Reach("fails")
		return
	}
	langs := b.SupportedLanguages()
	n := 0
	all := []language.Tag{de, fr, pl, en}
	for _, t := range all {
		if loaded[t] {
			n++
		}
		k := 0
		for _, u := range langs {
			if u == t {
				k++
			}
		}
		nd.Assert(k == 1 == loaded[t] && k < 2, "supported languages")
		nd.Assert(b.IsLanguageSupported(t) == loaded[t], "whether a language is supported")
		l := spreak.NewLocalizer(b, t)
		nd.Assert(l.HasLocale() == loaded[t], "whether there is a localizer for a language")
		if loaded[t] {
			nd.Assert(l.Language() == t, "localizer of another language")
		}
		for i, x := range o {
			has := loaded[t] && i < nDom && x.of[t] == there && !(src && t == en)
			if loaded[t] {
				nd.Assert(l.HasDomain(x.domain) == has, "domains of a localizer")
			}
			if has {
				nd.Assert(l.DGet(x.domain, "m") == printed(t, x.domain+t.String()), "text of another catalog")
			}
		}
	}
	nd.Assert(len(langs) == n, "a language that was not loaded")
	bd := b.Domains()
	nd.Assert(len(bd) == len(doms), "domains of the bundle")
	for _, d := range bd {
		nd.Assert(doms[d], "a domain that was not loaded")
	}
	nd.Assert(b.CanLocalize() == (n > 0 && len(doms) > 0), "whether the bundle can localize")

	// requests
	first := func(ts ...language.Tag) (language.Tag, bool) {
		for _, t := range ts {
			if loaded[t] {
				return t, true
			}
		}
		switch {
		case fb == 1:
			return de, false
		case fb == 2:
			return pl, false
		case src:
			return en, false
		}
		return language.Und, false
	}
	check := func(ts []language.Tag, ask ...any) {
		want, ok := first(ts...)
		l := spreak.NewKeyLocalizer(b, ask...)
		nd.Assert(l.HasLocale() == ok, "whether a request is matched")
		nd.Assert(l.Language() == want, "request matched to another language")
	}
	check(nil)
	check(nil, language.Korean)
	check(nil, 5, nil, "...")
	check([]language.Tag{fr, de}, fr, "de")
	check([]language.Tag{de, fr}, "de, fr;q=0.5")
	check([]language.Tag{de, fr}, "fr;q=0.3, de;q=0.7")
	check([]language.Tag{pl, fr}, "ko", "pl", fr)
	check([]language.Tag{de}, language.MustParse("de-AT"))
	check([]language.Tag{fr}, 7, "!", "fr-CA")
	nd.Reach("bundle")
}

// Names: a language may be given in the form environment variables have.
func Names() {
	o := &outcomes{domain: "", of: map[language.Tag]int{language.German: there}}
	rest := gen.UTF8("rest", nd.Choice("n", nd.Param("n")+1))
	name := []string{"", " ", "\t"}[nd.Choice("before", 3)] + "de" + []string{"", " "}[nd.Choice("after", 2)] + []string{".", "@", ":"}[nd.Choice("sep", 3)] + rest
	opt := spreak.WithLanguage(name)
	switch nd.Choice("opt", 3) {
	case 1:
		opt = spreak.WithRequiredLanguage(name)
	case 2:
		opt = spreak.WithFallbackLanguage(name)
	}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("", o), opt)
	nd.Assert(err == nil, "language not accepted")
	nd.Assert(len(b.SupportedLanguages()) == 1 && b.SupportedLanguages()[0] == language.German, "another language loaded")
	nd.Reach("names")
}

// Bad: options that cannot work make the bundle fail and never panic.
func Bad() {
	l := &outcomes{of: map[language.Tag]int{language.German: there}}
	bad := []spreak.BundleOption{
		nil,
		spreak.WithDomainLoader("", nil),
		spreak.WithDomainFs("", nil),
		spreak.WithPrinter(nil),
		spreak.WithPrintFunction(nil),
		spreak.WithLanguageMatcherBuilder(nil),
		spreak.WithLanguage(5),
		spreak.WithLanguage(nil),
		spreak.WithLanguage("de", "!"),
		spreak.WithRequiredLanguage(language.Korean.String() + "-!"),
		spreak.WithRequiredLanguage(language.Und),
		spreak.WithFallbackLanguage(3.5),
		spreak.WithFallbackLanguage(""),
		spreak.WithFilesystemLoader("x"),
		spreak.WithFilesystemLoader("x", nil),
		spreak.WithSourceLanguage(language.Und),
		spreak.WithDomainLoader("", l),
	}
	opts := []spreak.BundleOption{spreak.WithDomainLoader("", l), spreak.WithLanguage("de")}
	i := nd.Choice("bad", len(bad))
	at := nd.Choice("at", 3)
	if i == len(bad)-1 {
		nd.Assume(at > 0)
	}
	all := append(append(append([]spreak.BundleOption{}, opts[:at]...), bad[i]), opts[at:]...)
	b, err := spreak.NewBundle(all...)
	nd.Assert(err != nil && b == nil, "an option that cannot work is accepted")
	nd.Reach("bad")
}

// strict is a printer that has to be told its languages before it is asked for anything.
type strict struct {
	inits int
	langs []language.Tag
}

func (s *strict) Init(langs []language.Tag) {
	s.inits++
	s.langs = append(s.langs, langs...)
}

func (s *strict) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	nd.Assert(s.inits == 1, "print function asked for before the printer is initialised")
	return printer{}.GetPrintFunc(lang)
}

// Printer: the printer learns all languages of the bundle before it is asked for the function of one.
func Printer() {
	o := &outcomes{domain: "", of: map[language.Tag]int{}}
	asked := []language.Tag{language.German, language.French, language.Polish}
	for _, t := range asked {
		o.of[t] = nd.Choice(t.String(), 2)
	}
	s := &strict{}
	opts := []spreak.BundleOption{spreak.WithDomainLoader("", o), spreak.WithLanguage("de", "fr", "pl")}
	if nd.Choice("src", 2) == 1 {
		opts = append(opts, spreak.WithSourceLanguage(language.English))
	}
	if o.of[language.German] == there && nd.Choice("fb", 2) == 1 {
		opts = append(opts, spreak.WithFallbackLanguage("de"))
	}
	at := nd.Choice("at", len(opts)+1)
	opts = append(append(append([]spreak.BundleOption{}, opts[:at]...), spreak.WithPrinter(s)), opts[at:]...)
	b, err := spreak.NewBundle(opts...)
	nd.Assert(err == nil, "bundle not made")
	nd.Assert(s.inits == 1, "the printer is not initialised once")
	for _, t := range b.SupportedLanguages() {
		n := 0
		for _, u := range s.langs {
			if u == t {
				n++
			}
		}
		nd.Assert(n == 1, "a language the printer is not told, or is told twice")
		l := spreak.NewLocalizer(b, t)
		want := o.domain + t.String()
		if t == language.English {
			want = "m"
		}
		nd.Assert(l.Get("m") == printed(t, want), "text printed for another language")
		nd.Assert(l.Print("x") == printed(t, "x"), "text printed for another language")
		nd.Reach("language")
	}
	nd.Assert(len(s.langs) == len(b.SupportedLanguages()), "the printer is told a language that was not loaded")
	l := spreak.NewLocalizer(b, language.Korean)
	nd.Assert(l.Print("x") == printed(l.Language(), "x"), "text printed for another language")
	nd.Reach("printer")
}
