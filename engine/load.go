package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/vorlif/spreak"
const harnessRoot = modPath + "/internal/zzverif"

// World is the loaded program, shared by all engines.
type World struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package

	mu     sync.Mutex
	canon  typeutil.Map
	nrt    int
	impl   map[[2]any]bool
	funcs  sync.Map // *ssa.Function -> *cfunc
	gmu    sync.Mutex
	gidx   map[*ssa.Global]int
	glist  []*ssa.Global
	overl  map[string]string // overlay path -> real path
	repo   string
	rtErr  *RType
	slotMu sync.Mutex
	slotC  map[types.Type]int
	sizes  types.Sizes
}

// overlayFiles maps files below harnessDir into /repo/internal/zzverif.
func overlayFiles(repo, harnessDir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, p)
		m[filepath.Join(repo, "internal", "zzverif", rel)] = p
		return nil
	})
	return m, err
}

var clockRe = regexp.MustCompile(`\btime\.(Now|Since|Until)\b`)
var pkgRe = regexp.MustCompile(`(?m)^package \w+`)

// clockFiles are the files of the repository that read the clock, with the clock of the harness in its place.
func clockFiles(repo string) (map[string][]byte, error) {
	m := map[string][]byte{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" || n == "zzverif" || n == "examples" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if !clockRe.Match(b) || !strings.Contains(string(b), "\"time\"") {
			return nil
		}
		loc := pkgRe.FindIndex(b)
		if loc == nil {
			return nil
		}
		s := string(b[:loc[1]]) + "; import zzclock \"" + harnessRoot + "/nd\"" + clockRe.ReplaceAllString(string(b[loc[1]:]), "zzclock.$1") + "\nvar _ time.Duration\n"
		m[p] = []byte(s)
		return nil
	})
	return m, err
}

func loadWorld(repo, harnessDir string, pats []string) (*World, error) {
	ov, err := overlayFiles(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	content := map[string][]byte{}
	for k, p := range ov {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	clock, err := clockFiles(repo)
	if err != nil {
		return nil, err
	}
	for k, b := range clock {
		content[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: content, Env: os.Environ()}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, impl: map[[2]any]bool{}, gidx: map[*ssa.Global]int{}, overl: ov, repo: repo, slotC: map[types.Type]int{}}
	w.sizes = types.SizesFor("gc", "amd64")
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	if rp := w.pkgs["runtime"]; rp != nil {
		w.rtErr = w.rtype(rp.Type("errorString").Type())
	}
	return w, nil
}

func (w *World) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	w.mu.Lock()
	defer w.mu.Unlock()
	if r := w.canon.At(t); r != nil {
		return r.(*RType)
	}
	w.nrt++
	r := &RType{typ: t, id: w.nrt}
	w.canon.Set(t, r)
	return r
}

func (w *World) implements(t *RType, it *types.Interface, key types.Type) bool {
	k := [2]any{t, key}
	w.mu.Lock()
	if v, ok := w.impl[k]; ok {
		w.mu.Unlock()
		return v
	}
	w.mu.Unlock()
	v := types.Implements(t.typ, it)
	w.mu.Lock()
	w.impl[k] = v
	w.mu.Unlock()
	return v
}

func (w *World) globalIndex(g *ssa.Global) int {
	// the variables of package os, whose initialisation is not run, that are those of io/fs
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
		switch g.Name() {
		case "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed":
			g = w.pkgs["io/fs"].Var(g.Name())
		}
	}
	w.gmu.Lock()
	defer w.gmu.Unlock()
	if i, ok := w.gidx[g]; ok {
		return i
	}
	i := len(w.glist)
	w.gidx[g] = i
	w.glist = append(w.glist, g)
	return i
}

// slots is the number of cells a value of type t occupies in memory.
func (w *World) slots(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		w.slotMu.Lock()
		if n, ok := w.slotC[t]; ok {
			w.slotMu.Unlock()
			return n
		}
		w.slotMu.Unlock()
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += w.slots(u.Field(i).Type())
		}
		w.slotMu.Lock()
		w.slotC[t] = n
		w.slotMu.Unlock()
		return n
	case *types.Array:
		return int(u.Len()) * w.slots(u.Elem())
	case *types.Tuple:
		return u.Len()
	}
	return 1
}

func (w *World) fieldOff(st *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += w.slots(st.Field(k).Type())
	}
	return n
}

func (w *World) compiledAny(fn any) *cfunc { return w.compiled(fn.(*ssa.Function)) }
