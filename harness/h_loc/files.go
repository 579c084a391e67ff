package h_loc

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// What can happen to a file.
const (
	fine = iota
	openFails
	readFails
	readFailsLate
	directory
	decodeFails
	decodeFailsNotExist
	closeFails
	readNotExist
	kinds
)

var errFault = errors.New("fault")

// memFS has files of the given names, each or none of them there, and counts what is open.
type memFS struct {
	names []string
	there []bool
	kind  int
	open  int
	tried []string
}

// has says what kind of file there is; only the first file that is there can be faulty.
func (m *memFS) has(name string) (int, bool) {
	for i, n := range m.names {
		if n == name {
			return m.kind, m.there[i]
		}
	}
	// a file nobody should look for
	return fine, true
}

type memFile struct {
	fs     *memFS
	name   string
	kind   int
	pos    int
	closed bool
}

func (m *memFS) Open(name string) (fs.File, error) {
	k, ok := m.has(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if k == openFails {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	m.open++
	m.tried = append(m.tried, name)
	return &memFile{fs: m, name: name, kind: k}, nil
}

// Stat says only whether there is a file.
func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	k, ok := m.has(name)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return memInfo{name, k}, nil
}

type memInfo struct {
	name string
	kind int
}

func (i memInfo) Name() string       { return i.name }
func (i memInfo) Size() int64        { return 0 }
func (i memInfo) Mode() fs.FileMode  { return 0 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return i.kind == directory }
func (i memInfo) Sys() any           { return nil }

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{f.name, f.kind}, nil }

func (f *memFile) Read(b []byte) (int, error) {
	nd.Assert(!f.closed, "a closed file read")
	switch {
	case f.kind == directory:
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: errFault}
	case f.kind == readFails:
		return 0, errFault
	case f.kind == readNotExist:
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrNotExist}
	case f.kind == readFailsLate && f.pos == len(f.name):
		return 0, errFault
	case f.pos == len(f.name):
		return 0, io.EOF
	}
	n := copy(b, f.name[f.pos:])
	f.pos += n
	return n, nil
}

func (f *memFile) Close() error {
	nd.Assert(!f.closed, "a file closed twice")
	f.closed = true
	f.fs.open--
	if f.kind == closeFails {
		return errFault
	}
	return nil
}

// dec is a decoder whose catalogs say what they were made of.
type dec struct {
	ext string
	m   *memFS
}

func (d *dec) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	switch k, _ := d.m.has(string(data)); k {
	case decodeFails:
		return nil, errFault
	case decodeFailsNotExist:
		return nil, &fs.PathError{Op: "include", Path: "x", Err: fs.ErrNotExist}
	}
	return &fake{lang: lang, domain: domain, text: d.ext + "|" + string(data)}, nil
}

// dec2 reads for itself.
type dec2 struct{ dec }

func (d *dec2) DecodeReader(lang language.Tag, domain string, r io.Reader) (catalog.Catalog, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.Decode(lang, domain, data)
}

// paths are the files looked for, in the documented order.
func paths(names []string, exts []string, domain, category string, search bool) []string {
	var r []string
	for _, e := range exts {
		for _, l := range names {
			if domain != "" {
				if category != "" {
					r = append(r, l+"/"+category+"/"+domain+e)
				} else {
					r = append(r, l+"/"+domain+e)
				}
			}
			if !search {
				continue
			}
			if domain != "" {
				r = append(r, l+"/LC_MESSAGES/"+domain+e, l+"/"+domain+e, domain+"/"+l+e)
			}
			r = append(r, l+e)
			if category != "" {
				r = append(r, category+"/"+l+e)
			}
			r = append(r, "LC_MESSAGES/"+l+e)
		}
	}
	return r
}

// Files: the first file there is, in the documented order, is read with the decoder of its extension;
// a fault of that file is reported and nothing else is read instead.
func Files() {
	tag := []language.Tag{language.German, language.MustParse("de-AT"), language.TraditionalChinese, language.MustParse("art-x-a2")}[nd.Param("tag")]
	domain := []string{"", "d", "a/b", "d"}[nd.Param("domain")]
	if nd.Param("domain") == 3 {
		domain += gen.OneOf("d", 1, "abdLx-_.")
	}
	category := []string{"", "LC_MESSAGES", "cat"}[nd.Param("cat")]
	search := nd.Param("search") == 1
	exts := []string{".po", ".mo"}
	if nd.Param("exts") == 1 {
		exts = []string{".x.json"}
	}
	names := spreak.ExpandLanguage(tag)
	all := paths(names, exts, domain, category, search)
	m := &memFS{names: all}
	// any of the files looked for can be there
	for range all {
		m.there = append(m.there, nd.Bool("there"))
	}
	// two paths can be the same
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i] == all[j] {
				m.there[i] = m.there[j]
			}
		}
	}
	if nd.Param("faults") == 1 {
		m.kind = nd.Choice("kind", kinds)
	}
	kind := m.kind
	fsOpts := []spreak.FsOption{spreak.WithFs(m)}
	for _, e := range exts {
		if nd.Param("v2") == 1 {
			fsOpts = append(fsOpts, spreak.WithDecoder(e, &dec2{dec{e, m}}))
		} else {
			fsOpts = append(fsOpts, spreak.WithDecoder(e, &dec{e, m}))
		}
	}
	var rOpts []spreak.ResolverOption
	if !search {
		rOpts = append(rOpts, spreak.WithDisabledSearch())
	}
	if category != "" {
		rOpts = append(rOpts, spreak.WithCategory(category))
	}
	r, err := spreak.NewDefaultResolver(rOpts...)
	nd.Assert(err == nil, "resolver not made")
	if search && category == "" && nd.Choice("resolver", 2) == 1 {
		r = nil
	} else {
		fsOpts = append(fsOpts, spreak.WithResolver(r))
	}
	l, err := spreak.NewFilesystemLoader(fsOpts...)
	nd.Assert(err == nil, "loader not made")
	c, err := l.Load(tag, domain)
	nd.ObserveBool(err == nil)
	i := 0
	for i < len(all) && !m.there[i] {
		i++
	}
	nd.Assert(m.open == 0, "a file left open")
	nd.Assert(kind == closeFails || (c == nil) == (err != nil), "a catalog besides an error, or neither")
	var notFound *spreak.ErrNotFound
	switch {
	case i == len(all):
		nd.Assert(errors.As(err, &notFound) && notFound.Language == tag, "a missing file is not reported as such")
		nd.Assert(len(m.tried) == 0, "another file read")
		nd.Reach("none")
	case kind == fine:
		nd.Assert(err == nil, "file not loaded")
		f := c.(*fake)
		ext := ""
		for _, e := range exts {
			if len(all[i]) > len(e) && all[i][len(all[i])-len(e):] == e {
				ext = e
			}
		}
		nd.Assert(f.text == ext+"|"+all[i], "another file or decoder used")
		nd.Assert(f.lang == tag && f.domain == domain, "another language or domain")
		nd.Assert(len(m.tried) == 1, "another file read")
		nd.Reach("loaded")
	default:
		nd.Assert(err != nil, "a faulty file is passed over")
		nd.Assert(!errors.As(err, &notFound), "a faulty file is reported as missing")
		switch kind {
		case openFails:
			nd.Assert(errors.Is(err, fs.ErrPermission), "the cause is lost")
		case decodeFailsNotExist, readNotExist:
		default:
			nd.Assert(errors.Is(err, errFault), "the cause is lost")
		}
		nd.Assert(len(m.tried) <= 1, "another file read instead")
		// and the bundle fails
		b, errB := spreak.NewBundle(spreak.WithDomainLoader(domain, l), spreak.WithLanguage(tag))
		nd.Assert(errB != nil && b == nil, "a bundle with a faulty file")
		nd.Reach("fault")
	}
}

// pathResolver resolves every file to one name or error.
type pathResolver struct {
	name string
	err  error
	last string
}

func (r *pathResolver) Resolve(fsys fs.FS, ext string, lang language.Tag, domain string) (string, error) {
	r.last = ext + lang.String() + domain
	return r.name, r.err
}

// Resolver: a resolver of the user's is asked for every extension; its errors stop the search.
func Resolver() {
	name := "f" + gen.OneOf("f", 1, "xyz")
	m := &memFS{names: []string{name}, there: []bool{true}}
	r := &pathResolver{}
	k := nd.Choice("kind", 4)
	switch k {
	case 0:
		r.name = name
	case 1:
		r.err = fs.ErrNotExist
	case 2:
		r.err = errFault
	case 3:
		r.err = &fs.PathError{Op: "resolve", Path: "x", Err: fs.ErrNotExist}
	}
	l, err := spreak.NewFilesystemLoader(spreak.WithResolver(r), spreak.WithDecoder(".a", &dec{".a", m}), spreak.WithFs(m), spreak.WithDecoder(".b", &dec{".b", m}))
	nd.Assert(err == nil, "loader not made")
	c, err := l.Load(language.German, "d")
	var notFound *spreak.ErrNotFound
	switch k {
	case 0:
		nd.Assert(err == nil && c.(*fake).text == ".a|"+name, "file not loaded")
		nd.Assert(r.last == ".aded", "not the first extension")
	case 2:
		nd.Assert(err == errFault && c == nil && r.last == ".aded", "an error of the resolver is lost")
	default:
		nd.Assert(errors.As(err, &notFound) && c == nil && r.last == ".bded", "a missing file is not reported as such")
	}
	nd.Assert(m.open == 0, "a file left open")
	nd.Reach("resolved")
}

// Options: a loader that cannot work is not made.
func Options() {
	m := &memFS{}
	r := &pathResolver{}
	cases := [][]spreak.FsOption{
		{},
		{nil},
		{spreak.WithFs(m), spreak.WithFs(m)},
		{spreak.WithFs(m), spreak.WithPath("x")},
		{spreak.WithPath("x"), spreak.WithFs(m)},
		{spreak.WithFs(m), spreak.WithResolver(r), spreak.WithResolver(r)},
		{spreak.WithPoDecoder()},
		{spreak.WithFs(nil)},
	}
	l, err := spreak.NewFilesystemLoader(cases[nd.Choice("case", len(cases))]...)
	nd.Assert(l == nil && err != nil, "a loader that cannot work")
	nd.Reach("options")
}

// Paths: a loader for a path reads the files under it; the empty path is the root.
func Paths() {
	dir := []string{"", "/", "/dev", "/dev/"}[nd.Param("dir")]
	name := "dev/nul" + gen.OneOf("l", 1, "l:?")
	if len(dir) > 1 {
		name = name[4:]
	}
	opt := spreak.WithPath(dir)
	if dir == "" && nd.Choice("option", 2) == 1 {
		opt = spreak.WithSystemFs()
	}
	l, err := spreak.NewFilesystemLoader(opt, spreak.WithResolver(&pathResolver{name: name}), spreak.WithDecoder(".x", empty{}))
	nd.Assert(err == nil, "loader not made")
	c, err := l.Load(language.German, "d")
	var notFound *spreak.ErrNotFound
	if name[len(name)-1] == 'l' {
		nd.Assert(err == nil && c.(*fake).text == "empty", "file not loaded")
		nd.Reach("there")
	} else {
		nd.Assert(c == nil && errors.As(err, &notFound), "a missing file is not reported as such")
		nd.Reach("missing")
	}
}

type empty struct{}

func (empty) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	if len(data) > 0 {
		return nil, errFault
	}
	return &fake{lang: lang, domain: domain, text: "empty"}, nil
}
