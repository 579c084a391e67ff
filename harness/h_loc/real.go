package h_loc

import (
	"io"
	"io/fs"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// textFS has files with contents.
type textFS struct{ files map[string]string }

type textFile struct {
	memInfo
	data string
	pos  int
}

func (t *textFS) Open(name string) (fs.File, error) {
	s, ok := t.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &textFile{memInfo: memInfo{name: name}, data: s}, nil
}

func (f *textFile) Stat() (fs.FileInfo, error) { return f.memInfo, nil }
func (f *textFile) Close() error               { return nil }
func (f *textFile) Read(b []byte) (int, error) {
	if f.pos == len(f.data) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.pos:])
	f.pos += n
	return n, nil
}

func poOf(rule, one, many, more, ctx string) string {
	s := "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: " + rule + "\\n\"\n\n" +
		"#. comment\n#: a.go:3\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"" + one + "\"\nmsgstr[1] \"" + many + "\"\n"
	if more != "" {
		s += "msgstr[2] \"" + more + "\"\n"
	}
	return s + "\nmsgctxt \"c\"\nmsgid \"id\"\nmsgstr \"" + ctx + "\"\n\nmsgid \"none\"\nmsgstr \"\"\n\n" +
		"#, fuzzy\nmsgid \"no\"\nmsgid_plural \"nos\"\nmsgstr[0] \"x\"\nmsgstr[1] \"x\"\n\n" +
		"msgid \"long\"\nmsgstr \"\"\n\"" + one + "\"\n\"" + ctx + "\"\n"
}

func jsonOf(one, few, many, other, ctx string) string {
	s := `{"id": {"one": "` + one + `",`
	if few != "" {
		s += `"few": "` + few + `", "many": "` + many + `",`
	}
	return s + `"other": "` + other + `"}, "id_c": {"context": "c", "other": "` + ctx + `"}, "none": "", "long": "` + one + ctx + `"}`
}

// Real: files of two languages, read by a loader into a bundle, are what a localizer gives.
func Real() {
	pl := language.Polish
	js := nd.Param("json") == 1
	t := map[string]string{}
	for _, k := range []string{"de1", "de2", "dec", "pl1", "pl2", "pl3", "plc"} {
		t[k] = k + "A"
	}
	for i, k := range []string{"de1", "dec", "pl3"} {
		if nd.Param("sym") == i {
			s := gen.UTF8(k, nd.Param("n"))
			for i := 0; i < len(s); i++ {
				nd.Assume(nd.And(nd.And(s[i] != '"', s[i] != '\\'), nd.And(s[i] != '\n', s[i] != '\r')))
				if js {
					nd.Assume(s[i] >= 0x20)
				}
			}
			t[k] += s
		}
	}
	f := &textFS{files: map[string]string{}}
	if js {
		f.files["de/d.json"] = jsonOf(t["de1"], "", "", t["de2"], t["dec"])
		f.files["d/pl.json"] = jsonOf(t["pl1"], t["pl2"], t["pl3"], t["pl3"], t["plc"])
		f.files["de/x.json"] = `{`
	} else {
		f.files["de/LC_MESSAGES/d.po"] = poOf("nplurals=2; plural=(n != 1);", t["de1"], t["de2"], "", t["dec"])
		f.files["d/pl.po"] = poOf("nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", t["pl1"], t["pl2"], t["pl3"], t["plc"])
		f.files["de/x.po"] = "msgid"
	}
	misses := 0
	b, err := spreak.NewBundle(
		spreak.WithDomainFs("d", f), spreak.WithDefaultDomain("d"), spreak.WithSourceLanguage(language.English),
		spreak.WithFallbackLanguage("de"), spreak.WithLanguage(pl, "fr"),
		spreak.WithMissingTranslationCallback(func(error) { misses++ }),
	)
	nd.Assert(err == nil && len(b.SupportedLanguages()) == 3, "bundle not made")
	nd.Assert(misses > 0, "the missing language is not reported")
	misses = 0
	req := nd.Choice("req", 4)
	l := spreak.NewLocalizer(b, []any{"de", "pl-PL", "fr", "en"}[req])
	nd.Assert(l.HasLocale() == (req != 2), "whether a language was found")
	lang := []string{"de", "pl", "de", "en"}[req]
	n := nd.Int("k")
	nd.Assume(nd.And(n < 1<<8, n > -1<<8))

	var form int
	a := n
	if a < 0 {
		a = -a
	}
	switch {
	case lang != "pl":
		if a != 1 {
			form = 1
		}
	case a == 1:
	case nd.Decide(nd.And(nd.And(a%10 >= 2, a%10 <= 4), nd.Or(a%100 < 10, a%100 >= 20))):
		form = 1
	default:
		form = 2
	}
	want := map[string][]string{"de": {t["de1"], t["de2"]}, "pl": {t["pl1"], t["pl2"], t["pl3"]}, "en": {"id", "ids"}}[lang]
	inCtx := map[string]string{"de": t["dec"], "pl": t["plc"], "en": "id"}[lang]
	same := func(got, want string) {
		nd.Assert(len(got) == len(want), "another text")
		nd.Assert(got == want, "another text")
	}
	got := l.NGet("id", "ids", n)
	nd.ObserveStr(got)
	same(got, want[form])
	same(l.DNGet("d", "id", "ids", n), want[form])
	if js || lang == "en" {
		// the text of the other category, or the id
		same(l.Get("id"), want[len(want)-1-map[bool]int{true: 1}[lang == "en"]])
	} else {
		same(l.Get("id"), want[0])
	}
	same(l.PGet("c", "id"), inCtx)
	if lang == "en" {
		same(l.Get("long"), "long")
	} else {
		same(l.Get("long"), want[0]+inCtx)
	}
	nd.Assert(misses == 0, "a miss reported for a text there is")
	same(l.PGet("zz", "id"), "id")
	same(l.Get("nowhere"), "nowhere")
	same(l.Get("none"), "none")
	same(l.DGet("e", "id"), "id")
	same(l.NGet("no", "nos", n), []string{"no", "nos"}[map[bool]int{true: 1}[a != 1]])
	if lang == "en" {
		nd.Assert(misses == 0, "a miss of the source language reported")
	} else if lang == "de" {
		nd.Assert(misses == 5, "misses not reported")
	} else {
		nd.Assert(misses == 10, "misses not reported")
	}
	nd.Reach("real")
}
