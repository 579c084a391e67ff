package h_cat

import (
	"errors"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

func missing(err error) bool {
	var a *catalog.ErrMissingContext
	var b *catalog.ErrMissingMessageID
	var c *catalog.ErrMissingTranslation
	return errors.As(err, &a) || errors.As(err, &b) || errors.As(err, &c)
}

func served(c catalog.Catalog, ctx, id, want string) {
	got, err := c.Lookup(ctx, id)
	nd.Assert(err == nil, "a finished translation is not served")
	nd.Assert(got == want, "wrong translation served")
}

func refused(c catalog.Catalog, ctx, id string) {
	got, err := c.Lookup(ctx, id)
	nd.Assert(err != nil && missing(err), "no error for a message without a finished translation")
	nd.Assert(got == id, "lookup without translation does not return the source text")
	got, err = c.LookupPlural(ctx, id, 1)
	nd.Assert(err != nil && missing(err), "no error for a plural message without a finished translation")
	nd.Assert(got == id, "plural lookup without translation does not return the source text")
}

var around = []string{"# note\n", "#. note\n", "#: a.go:1\n", "#| msgid \"fuzzy\"\n", "#, c-format\n", "#\n", "#,\n", "# , fuzzy\n", "#. , fuzzy\n"}

// Flags: three messages; the middle one carries a list of flags in which one is an
// arbitrary word. It is served exactly when no flag is "fuzzy", its neighbours always.
func Flags() {
	flag := gen.Word("flag", nd.Param("n"), ",")
	fuzzy := flag == "fuzzy"
	list := ""
	switch nd.Choice("list", 6) {
	case 0:
		list = "#, " + flag + "\n"
	case 1:
		list = "#," + flag + ",x-format\n"
	case 2:
		list = "#, x-format, " + flag + "\n"
	case 3:
		list = "#, x-format\n#, " + flag + "\n"
	case 4:
		list = "#,x-format," + flag + " , range:0..1\n"
	case 5:
		list = "#, " + flag + "\n#. \n#, x-format\n"
	}
	if k := nd.Choice("before", len(around)+1); k > 0 {
		list = around[k-1] + list
	}
	if k := nd.Choice("after", len(around)+1); k > 0 {
		list += around[k-1]
	}
	sep := ""
	if nd.Choice("sep", 2) == 1 {
		sep = "\n"
	}
	t := gen.Word("t", nd.Choice("tlen", 2), "\"\\")
	doc := "msgid \"a\"\nmsgstr \"ta\"\n" + sep + list
	plural := nd.Choice("plural", 2) == 1
	if plural {
		doc += "msgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"" + t + "\"\nmsgstr[1] \"many\"\n"
	} else {
		doc += "msgctxt \"c\"\nmsgid \"b\"\nmsgstr \"" + t + "\"\n"
	}
	doc += sep + "msgctxt \"c\"\nmsgid \"z\"\nmsgstr \"tz\"\n"
	c, err := catalog.NewPoDecoder().Decode(language.English, "dom", []byte(doc))
	nd.Assert(err == nil, "file is rejected")
	served(c, "", "a", "ta")
	served(c, "c", "z", "tz")
	switch {
	case fuzzy || t == "":
		refused(c, "c", "b")
		nd.Reach("refused")
	default:
		served(c, "c", "b", t)
		nd.Reach("served")
	}
	got, err := c.LookupPlural("c", "b", 5)
	if !plural || fuzzy {
		nd.Assert(err != nil && missing(err) && got == "b", "untranslated plural form served")
	} else {
		nd.Assert(err == nil && got == "many", "finished plural form not served")
	}
	refused(c, "", "b")
	refused(c, "c", "a")
	refused(c, "x", "a")
	refused(c, "", "c\x04b")
}

var obs = []string{
	"#~ msgid \"old\"\n#~ msgstr \"told\"\n",
	"#, fuzzy\n#~ msgid \"old\"\n#~ msgstr \"told\"\n",
	"# note\n#, fuzzy, c-format\n#~ msgctxt \"c\"\n#~ msgid \"old\"\n#~ msgid_plural \"olds\"\n#~ msgstr[0] \"told\"\n#~ msgstr[1] \"\"\n",
	"#~ msgid \"b\"\n#~ msgstr \"obsolete\"\n",
	"#, fuzzy\n#~| msgid \"older\"\n#~ msgid \"old\"\n#~ msgstr \"told\"\n",
}

// Obsolete: obsolete messages stand anywhere between the messages of a file.
func Obsolete() {
	blank := func(name string) string {
		if nd.Choice(name, 2) == 1 {
			return "\n"
		}
		return ""
	}
	t := gen.Word("t", nd.Param("n"), "\"\\")
	o := obs[nd.Choice("obs", len(obs))]
	at := nd.Choice("at", 3)
	flag := ""
	if nd.Choice("flag", 2) == 1 {
		flag = "#, fuzzy\n"
	}
	part := func(i int) string {
		if i != at {
			return blank("sep")
		}
		pre := ""
		if i > 0 {
			pre = blank("before")
		}
		return pre + o + blank("after")
	}
	doc := part(0) + "msgid \"a\"\nmsgstr \"" + t + "\"\n" + part(1) + flag + "msgid \"b\"\nmsgstr \"" + t + "\"\n" + part(2) + "msgctxt \"c\"\nmsgid \"d\"\nmsgstr \"" + t + "\"\n"
	c, err := catalog.NewPoDecoder().Decode(language.English, "dom", []byte(doc))
	nd.Assert(err == nil, "file is rejected")
	served(c, "", "a", t)
	if flag == "" {
		served(c, "", "b", t)
	} else {
		refused(c, "", "b")
	}
	served(c, "c", "d", t)
	refused(c, "", "old")
	refused(c, "c", "old")
	nd.Reach("obsolete")
}
