package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoDir  = "/repo"
	repoPath = "github.com/folbricht/routedns"
)

var verifDir = "/verif"

// harnessDirs maps directories of /verif/harness to package directories.
var harnessDirs = map[string]string{"root": ".", "dnssec": "dnssec", "cmd": "cmd/routedns"}

// overlayFiles returns the virtual files of the harness for one property.
func overlayFiles(id string) (map[string]string, []string, error) {
	files := make(map[string]string)
	var dirs []string
	zz, _ := filepath.Glob(filepath.Join(verifDir, "harness/zzvf/*.go"))
	for _, f := range zz {
		files[filepath.Join(repoDir, "zzvf", filepath.Base(f))] = f
	}
	zz, _ = filepath.Glob(filepath.Join(verifDir, "harness/zzvf/*/*.go"))
	for _, f := range zz {
		files[filepath.Join(repoDir, "zzvf", filepath.Base(filepath.Dir(f)), filepath.Base(f))] = f
	}
	var names []string
	for d := range harnessDirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		own, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, strings.ToLower(id)+"*.go"))
		if len(own) == 0 {
			continue
		}
		common, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "common*.go"))
		for _, f := range append(common, own...) {
			files[filepath.Join(repoDir, harnessDirs[d], "zz_verif_"+filepath.Base(f))] = f
		}
		dirs = append(dirs, d)
	}
	if len(dirs) == 0 {
		return nil, nil, fmt.Errorf("no harness for %s", id)
	}
	return files, dirs, nil
}

type loaded struct {
	sh        *Shared
	harnesses []*ssa.Function
	names     []string
	dirs      []string
	files     map[string]string
	pkgs      []*packages.Package
	dropped   []string
}

// load reads the harness and the code it runs. A harness file that does not
// compile against the current tree, as when something internal that it looks at
// was renamed, is left out as long as another one remains.
func load(id string) (*loaded, error) {
	files, dirs, err := overlayFiles(id)
	if err != nil {
		return nil, err
	}
	var dropped []string
	for {
		l, bad, err := loadFiles(id, files, dirs)
		if err == nil {
			l.dropped = dropped
			return l, nil
		}
		if len(bad) == 0 {
			if len(dropped) > 0 {
				err = fmt.Errorf("%w (left out: %s)", err, strings.Join(dropped, "; "))
			}
			return nil, err
		}
		for _, f := range bad {
			dropped = append(dropped, filepath.Base(files[f])+": "+strings.SplitN(err.Error(), "\n", 2)[0])
			delete(files, f)
		}
	}
}

func loadFiles(id string, files map[string]string, dirs []string) (*loaded, []string, error) {
	ov := make(map[string][]byte)
	for v, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		Overlay: ov,
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+harnessDirs[d])
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs, bad []string
	foreign := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				f, _, _ := strings.Cut(e.Pos, ":")
				if files[f] == "" || !strings.HasPrefix(filepath.Base(f), "zz_verif_") {
					foreign = true
				} else if !slices.Contains(bad, f) {
					bad = append(bad, f)
				}
			}
		}
	})
	if len(errs) > 0 {
		if foreign {
			bad = nil
		}
		return nil, bad, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sh := &Shared{prog: prog, built: make(map[*ssa.Package]bool), vfPath: repoPath + "/zzvf", funcs: make(map[string]bool), stubbed: make(map[string]bool)}
	l := &loaded{sh: sh, dirs: dirs, files: files, pkgs: pkgs}
	prefix := "VF_" + id + "_"
	for _, p := range spkgs {
		p.Build()
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
				l.harnesses = append(l.harnesses, f)
			}
		}
	}
	sort.Slice(l.harnesses, func(i, j int) bool { return l.harnesses[i].Name() < l.harnesses[j].Name() })
	if len(l.harnesses) == 0 {
		return nil, nil, fmt.Errorf("no functions %s* found", prefix)
	}
	return l, nil, nil
}
