package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// Replayer compiles the harness natively against /repo and runs it with
// values chosen by the solver.
type Replayer struct {
	id    string
	pkgs  []*packages.Package
	files map[string]string
	dirs  []string
	work  string
	bins  map[string]string // harness dir -> binary
	pkgOf map[string]string // harness -> harness dir
	hs    map[string][]string
	tier  int
	known map[string]bool
	err   error
	free  bool

	raceBins map[string]string
	raceErr  error
}

type replayReq struct {
	Harness string            `json:"harness"`
	Vector  map[string]uint64 `json:"vector"`
	Order   []string          `json:"order"`
}

type replayRes struct {
	Harness  string   `json:"harness"`
	Outcome  string   `json:"outcome"` // ok, fail, skip, panic
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
	Missing  []string `json:"missing"`
	Known    []string `json:"known"`
	Stack    string   `json:"stack"`
	Strayed  string   `json:"strayed"`
}

const testSrc = `package %s

import (
	"encoding/json"
	"os"
	"runtime/debug"
	"testing"
	"fmt"

	"github.com/folbricht/routedns/zzvf"
)

var zzHarnesses = map[string]func(){
%s}

type zzReq struct {
	Harness string            ` + "`json:\"harness\"`" + `
	Vector  map[string]uint64 ` + "`json:\"vector\"`" + `
	Order   []string          ` + "`json:\"order\"`" + `
}

type zzRes struct {
	Harness  string   ` + "`json:\"harness\"`" + `
	Outcome  string   ` + "`json:\"outcome\"`" + `
	Msg      string   ` + "`json:\"msg\"`" + `
	Observed []string ` + "`json:\"observed\"`" + `
	Missing  []string ` + "`json:\"missing\"`" + `
	Known    []string ` + "`json:\"known\"`" + `
	Stack    string   ` + "`json:\"stack\"`" + `
	Strayed  string   ` + "`json:\"strayed\"`" + `
}

func TestZZReplay(t *testing.T) {
	var in struct {
		Tier  int
		Known map[string]bool
		Reqs  []zzReq
	}
	b, err := os.ReadFile(os.Getenv("VF_REPLAY"))
	if err != nil {
		t.Skip()
	}
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VF_REPLAY") + ".out")
	if err != nil {
		t.Fatal(err)
	}
	enc := json.NewEncoder(out)
	for _, r := range in.Reqs {
		res := zzRes{Harness: r.Harness}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch x := e.(type) {
					case zzvf.Failure:
						res.Outcome, res.Msg = "fail", x.Msg
					case zzvf.Skip:
						res.Outcome = "skip"
					default:
						res.Outcome, res.Msg, res.Stack = "panic", fmt.Sprint(e), string(debug.Stack())
					}
				}
			}()
			zzvf.Reset(r.Vector, in.Tier, in.Known)
			zzvf.Order(r.Order)
			zzvf.OnFail = func(x zzvf.Failure) {
				res.Outcome, res.Msg, res.Strayed = "fail", x.Msg, zzvf.Strayed()
				enc.Encode(res)
				out.Sync()
				os.Exit(3)
			}
			zzHarnesses[r.Harness]()
			res.Outcome = "ok"
		}()
		res.Observed = zzvf.Observed
		res.Missing = zzvf.Missing()
		res.Known = zzvf.KnownHits()
		res.Strayed = zzvf.Strayed()
		enc.Encode(res)
	}
	out.Close()
}
`

var importRe = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(\w+\s+)?"(time|math/rand|math/rand/v2|sync|sync/atomic|github.com/0xERR0R/expiration-cache)"`)

// rewriteImports redirects clock, randomness and synchronisation to the replay
// stand-ins. A harness keeps the real clock.
func rewriteImports(src []byte, harness bool) []byte {
	return importRe.ReplaceAllFunc(src, func(m []byte) []byte {
		g := importRe.FindSubmatch(m)
		name := strings.TrimSpace(string(g[2]))
		path := "vtime"
		def := "time"
		if dep := timedDeps[string(g[3])]; dep != "" {
			path, def = "dep/"+dep, dep
		}
		switch string(g[3]) {
		case "math/rand", "math/rand/v2":
			path, def = "vrand", "rand"
		case "sync":
			path, def = "vsync", "sync"
		case "sync/atomic":
			path, def = "vatomic", "atomic"
		}
		if harness && (def == "time" || def == "rand" || strings.HasPrefix(path, "dep/")) {
			return m
		}
		if name == "" {
			name = def
		}
		return []byte(fmt.Sprintf("%s%s %q", g[1], name, repoPath+"/zzvf/"+path))
	})
}

func (r *Replayer) build() error {
	if r.err != nil || r.bins != nil {
		return r.err
	}
	r.err = r.buildAny()
	return r.err
}

// buildAny falls back to a build whose goroutines run freely.
func (r *Replayer) buildAny() error {
	bins, err := r.doBuild(true, false)
	if err != nil {
		r.free = true
		fmt.Fprintln(os.Stderr, "instrumented build failed:", tail(err.Error(), 2000))
		bins, err = r.doBuild(false, false)
	}
	r.bins = bins
	return err
}

func (r *Replayer) doBuild(gates, race bool) (map[string]string, error) {
	bins := make(map[string]string)
	srcMap, err := instrument(r.pkgs, r.files, gates)
	if err != nil {
		return nil, err
	}
	if err := os.MkdirAll(r.work, 0o755); err != nil {
		return nil, err
	}
	for _, d := range r.dirs {
		pkgDir := filepath.Join(repoDir, harnessDirs[d])
		ov := map[string]string{}
		for v, f := range r.files {
			ov[v] = f
		}
		srcs, _ := filepath.Glob(filepath.Join(pkgDir, "*.go"))
		pkgName := ""
		for _, f := range srcs {
			if strings.HasSuffix(f, "_test.go") {
				ov[f] = ""
				continue
			}
			if pkgName == "" {
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
					pkgName = string(m[1])
				}
			}
		}
		for f, n := range srcMap {
			dst := filepath.Join(r.work, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "_"))
			if err := os.WriteFile(dst, n, 0o644); err != nil {
				return nil, err
			}
			ov[f] = dst
		}
		var reg strings.Builder
		for _, h := range r.hs[d] {
			fmt.Fprintf(&reg, "\t%q: %s,\n", h, h)
		}
		tf := filepath.Join(r.work, d+"_zz_verif_test.go")
		if err := os.WriteFile(tf, []byte(fmt.Sprintf(testSrc, pkgName, reg.String())), 0o644); err != nil {
			return nil, err
		}
		ov[filepath.Join(pkgDir, "zz_verif_replay_test.go")] = tf
		oj, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(r.work, d+"_overlay.json")
		if err := os.WriteFile(of, oj, 0o644); err != nil {
			return nil, err
		}
		bin := filepath.Join(r.work, d+".test")
		args := []string{"test", "-c", "-vet=off", "-overlay", of}
		cgo := "CGO_ENABLED=0"
		if race {
			bin += ".race"
			// The stand-ins order their own accesses in ways hidden from the
			// detector, so they are not instrumented.
			args = append(args, "-race", "-gcflags="+repoPath+"/zzvf/...=-race=false")
			cgo = "CGO_ENABLED=1"
		}
		cmd := exec.Command("go", append(args, "-o", bin, "./"+harnessDirs[d])...)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", cgo, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			return nil, fmt.Errorf("native build: %v\n%s", err, out)
		}
		bins[d] = bin
	}
	return bins, nil
}

// run executes requests that belong to one package.
func (r *Replayer) run(dir string, reqs []replayReq, timeout time.Duration) ([]replayRes, string, error) {
	if err := r.build(); err != nil {
		return nil, "", err
	}
	return r.runBin(r.bins[dir], reqs, timeout)
}

func (r *Replayer) runBin(bin string, reqs []replayReq, timeout time.Duration) ([]replayRes, string, error) {
	f, err := os.CreateTemp(r.work, "req*.json")
	if err != nil {
		return nil, "", err
	}
	b, _ := json.Marshal(map[string]any{"Tier": r.tier, "Known": r.known, "Reqs": reqs})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	defer os.Remove(f.Name() + ".out")
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	scratch, err := os.MkdirTemp(r.work, "cwd")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(scratch)
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VF_REPLAY="+f.Name(), "TZ=UTC", "TMPDIR="+scratch, "GORACE=exitcode=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	runErr := cmd.Run()
	ob, _ := os.ReadFile(f.Name() + ".out")
	var res []replayRes
	dec := json.NewDecoder(bytes.NewReader(ob))
	for {
		var x replayRes
		if dec.Decode(&x) != nil {
			break
		}
		res = append(res, x)
	}
	note := ""
	if ctx.Err() != nil {
		note = "timeout"
	} else if runErr != nil {
		note = "crash"
	}
	return res, note + "\n" + tail(out.String(), 400000), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// reproduce runs one counterexample; it returns what was observed.
func (r *Replayer) reproduce(v *Violation) (bool, string) {
	tries := 1
	if len(v.Events) > 0 {
		tries = 12
	}
	if _, ok := v.Model["maporder"]; ok {
		tries = 60
	}
	last := ""
	for i := 0; i < tries; i++ {
		res, out, err := r.run(r.pkgOf[v.Harness], []replayReq{{v.Harness, v.Model, v.Order}}, 30*time.Second)
		if err != nil {
			return false, err.Error()
		}
		note := strings.SplitN(out, "\n", 2)[0]
		if len(res) == 1 {
			switch res[0].Outcome {
			case "fail":
				return true, "assertion failed natively: " + res[0].Msg
			case "panic":
				return true, "panic natively: " + res[0].Msg + "\n" + tail(res[0].Stack, 3000)
			}
			last = "native outcome " + res[0].Outcome + " " + res[0].Msg + fmt.Sprint(res[0].Missing) + " " + res[0].Strayed
			continue
		}
		if note == "crash" && strings.HasPrefix(v.Msg, "panic") {
			return true, "process crashed natively:\n" + out
		}
		if note == "timeout" && strings.HasPrefix(v.Msg, "deadlock") {
			return true, "native run hung:\n" + out
		}
		last = "native run: " + out
	}
	return false, last
}

// validate compares sampled paths with native runs.
func (r *Replayer) validate(samples []Sample) (ok int, bad []string) {
	byDir := map[string][]Sample{}
	for _, s := range samples {
		d := r.pkgOf[s.Harness]
		byDir[d] = append(byDir[d], s)
	}
	var dirs []string
	for d := range byDir {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		ss := byDir[d]
		for len(ss) > 0 {
			var reqs []replayReq
			for _, s := range ss {
				reqs = append(reqs, replayReq{s.Harness, s.Model, s.Order})
			}
			res, out, err := r.run(d, reqs, 60*time.Second)
			if err != nil {
				return ok, append(bad, err.Error())
			}
			for i, x := range res {
				s := ss[i]
				if x.Outcome != "ok" {
					bad = append(bad, fmt.Sprintf("%s: native outcome %s %s missing %v strayed %q model %v %s", s.Harness, x.Outcome, x.Msg, x.Missing, x.Strayed, s.Model, tail(x.Stack, 1500)))
					continue
				}
				if strings.Join(x.Observed, "\n") != strings.Join(s.Expect, "\n") {
					bad = append(bad, fmt.Sprintf("%s: observed %v, expected %v model %v", s.Harness, x.Observed, s.Expect, s.Model))
					continue
				}
				ok++
			}
			if len(res) < len(ss) {
				s := ss[len(res)]
				bad = append(bad, fmt.Sprintf("%s: native run ended: %s model %v", s.Harness, out, s.Model))
				ss = ss[len(res)+1:]
				continue
			}
			break
		}
	}
	return ok, bad
}
