package h_lang

import (
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// Expand: a language has exactly the file names of its tag, its language alone in both codes, and its
// language with its region and script in both spellings; longer names come first.
func Expand() {
	t := parse(tag(nd.Param("shape")))
	want := []string{t.String()}
	bare := t.String()
	if b, c := t.Base(); c != language.No {
		bare = b.String()
		want = append(want, bare, b.ISO3())
		if r, c := t.Region(); c != language.No {
			want = append(want, bare+"-"+r.String(), bare+"_"+r.String())
		}
		if s, c := t.Script(); c != language.No {
			want = append(want, bare+"-"+s.String(), bare+"_"+s.String())
		}
	}
	names := spreak.ExpandLanguage(t)
	nd.ObserveStr(strings.Join(names, " "))
	has := func(list []string, s string) bool {
		for _, x := range list {
			if x == s {
				return true
			}
		}
		return false
	}
	for _, w := range want {
		nd.Assert(has(names, w), "a file name is missing")
	}
	for i, s := range names {
		nd.Assert(has(want, s), "a file name of another language")
		nd.Assert(!has(names[:i], s), "a file name twice")
		if i > 0 {
			p := names[i-1]
			nd.Assert(len(p) > len(s) || len(p) == len(s) && p < s, "less specific name first")
		}
	}
	nd.Assert(names[len(names)-1] == bare, "the bare language is not the last name")
	// the caller may change what it got
	names[0] = ""
	nd.Assert(spreak.ExpandLanguage(t)[0] != "", "the names are shared")
	nd.Reach("names")
}
