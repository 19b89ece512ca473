package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// Exploring switches at synchronisation operations only is complete for code
// without data races. This is the check of that side condition: vector clocks
// follow the happens-before order of the Go memory model on every explored
// path, and two unordered accesses to a cell, one of them a write, make a
// candidate that is confirmed natively with the race detector.

type vclock []int32

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type epoch struct {
	g   int
	c   int32
	pos token.Pos
}

type shadow struct {
	w     epoch
	has   bool
	reads []epoch
}

type raceState struct {
	cells map[any]*shadow
	objs  map[any]*vclock
}

// tick starts the clock of a goroutine.
func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (in *Interp) racing() bool {
	s := in.sched
	return s != nil && len(s.gs) > 1 && in.initing == 0
}

// release publishes what the goroutine did to whoever acquires the object.
func (in *Interp) release(o any) {
	s := in.sched
	if s == nil || in.initing > 0 || len(s.gs) < 2 {
		return
	}
	v := s.race.objs[o]
	if v == nil {
		v = new(vclock)
		s.race.objs[o] = v
	}
	v.join(in.cur.vc)
	in.cur.tick()
}

func (in *Interp) acquire(o any) {
	s := in.sched
	if s == nil || len(s.gs) < 2 {
		return
	}
	if v := s.race.objs[o]; v != nil {
		in.cur.vc.join(*v)
	}
}

func (in *Interp) raceCell(p *Value, write bool) {
	if !in.racing() {
		return
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			in.raceCell(&v[i], write)
		}
		return
	case Array:
		if len(v) > 64 {
			return
		}
		for i := range v {
			in.raceCell(&v[i], write)
		}
		return
	}
	in.access(p, write)
}

func (in *Interp) raceMap(m *Map, write bool) {
	if in.racing() && m != nil {
		in.access(m, write)
	}
}

func (in *Interp) access(o any, write bool) {
	if in.byHarness() {
		return
	}
	s := in.sched
	g := in.cur
	e := epoch{g.id, g.vc.at(g.id), in.curPos}
	sh := s.race.cells[o]
	if sh == nil {
		sh = &shadow{}
		s.race.cells[o] = sh
	}
	if sh.has && sh.w.g != g.id && g.vc.at(sh.w.g) < sh.w.c {
		in.raceFound(sh.w, e, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.g != g.id && g.vc.at(r.g) < r.c {
				in.raceFound(r, e, false)
			}
		}
		sh.w, sh.has, sh.reads = e, true, sh.reads[:0]
		return
	}
	for i, r := range sh.reads {
		if r.g == g.id {
			sh.reads[i] = e
			return
		}
	}
	sh.reads = append(sh.reads, e)
}

// byHarness tells whether the innermost code that is not a library's belongs
// to the harness.
func (in *Interp) byHarness() bool {
	for fr := in.fr; fr != nil; fr = fr.caller {
		k, ok := in.owner[fr.fn]
		if !ok {
			p := pkgPath(fr.fn)
			switch {
			case in.inHarness(fr) || strings.HasPrefix(p, in.sh.vfPath):
				k = 2
			case p == repoPath || strings.HasPrefix(p, repoPath+"/") || timedDeps[p] != "":
				k = 1
			}
			in.owner[fr.fn] = k
		}
		if k > 0 {
			return k == 2
		}
	}
	return true
}

func (in *Interp) raceFound(a, b epoch, both bool) {
	k := [2]token.Pos{a.pos, b.pos}
	if k[1] < k[0] {
		k[0], k[1] = k[1], k[0]
	}
	if in.races[k] >= 2 || !a.pos.IsValid() || !b.pos.IsValid() {
		return
	}
	in.races[k]++
	in.raced = append(in.raced, fmt.Sprintf("data race: unordered accesses at %s and %s", in.posText(k[0]), in.posText(k[1])))
}

func (in *Interp) posText(p token.Pos) string {
	q := in.sh.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// raced records the candidates of a path.
func (e *Explorer) raced(in *Interp) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathAbort); !ok {
				panic(r)
			}
		}
	}()
	in.spec = 0
	in.ensureModel()
	for _, msg := range in.raced {
		v := in.violation(msg, in.model)
		v.Harness = e.name
		e.mu.Lock()
		if e.races == nil {
			e.races = make(map[string][]*Violation)
		}
		if len(e.races[msg]) < 3 {
			e.races[msg] = append(e.races[msg], v)
		}
		e.mu.Unlock()
	}
}

// readers stands for the read side of a lock.
type readers struct{ l *lockState }

// syncObject is what a call of package sync or sync/atomic synchronises on.
// Locks and channels are followed more closely elsewhere.
func syncObject(name string, a []Value) any {
	if len(a) == 0 || !strings.Contains(name, "sync") || strings.HasSuffix(name, "ock") {
		return nil
	}
	for _, p := range []string{"(*sync.", "sync/atomic.", "(*sync/atomic.", "(*internal/sync."} {
		if strings.HasPrefix(name, p) {
			if c, ok := a[0].(*Value); ok && c != nil {
				return c
			}
		}
	}
	return nil
}

// apoint is the scheduling point of an atomic operation; others may have
// synchronised on the same word in the meantime.
func (in *Interp) apoint(fr *Frame, a []Value) {
	in.point(fr, "atomic")
	if c, ok := a[0].(*Value); ok && c != nil {
		in.acquire(c)
	}
}

func (in *Interp) fireTimer(t *vtimer) {
	in.timerVC = t.vc
	t.fire()
	in.timerVC = nil
}

// timerRelease orders what set a timer before what receives from it.
func (in *Interp) timerRelease(c *Chan) {
	if in.timerVC == nil {
		return
	}
	v := in.sched.race.objs[c]
	if v == nil {
		v = new(vclock)
		in.sched.race.objs[c] = v
	}
	v.join(in.timerVC)
}

var frameRe = regexp.MustCompile(`(?m)^\s+(/\S+\.go):(\d+)`)

// raceReports gives the accesses, as file:line of the innermost frame in the
// repository, of each race the detector reported. Races of the harness itself
// are left out.
func raceReports(out string) []string {
	var r []string
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		rep, _, _ = strings.Cut(rep, "==================")
		var at []string
		for _, part := range strings.Split(rep, "\n\n") {
			head := strings.TrimSpace(part)
			if !strings.HasPrefix(head, "Read at") && !strings.HasPrefix(head, "Write at") && !strings.HasPrefix(head, "Previous") &&
				!strings.HasPrefix(head, "Atomic") {
				continue
			}
			for _, m := range frameRe.FindAllStringSubmatch(part, -1) {
				if !strings.HasPrefix(m[1], repoDir+"/") {
					continue
				}
				base := filepath.Base(m[1])
				if strings.HasPrefix(base, "zz_verif_") || strings.Contains(m[1], "/zzvf/") && !strings.Contains(m[1], "/zzvf/dep/") {
					break
				}
				at = append(at, base+":"+m[2])
				break
			}
		}
		if len(at) == 2 {
			r = append(r, at[0]+" and "+at[1])
		}
	}
	return r
}

// confirmRace runs the path of a candidate with the race detector.
func (r *Replayer) confirmRace(v *Violation) (bool, string) {
	if r.raceErr == nil && r.raceBins == nil {
		r.raceBins, r.raceErr = r.doBuild(!r.free, true)
	}
	if r.raceErr != nil {
		return false, tail(r.raceErr.Error(), 500)
	}
	last := ""
	for i := 0; i < 6; i++ {
		_, out, err := r.runBin(r.raceBins[r.pkgOf[v.Harness]], []replayReq{{v.Harness, v.Model, v.Order}}, 60*time.Second)
		if err != nil {
			return false, err.Error()
		}
		if rs := raceReports(out); len(rs) > 0 {
			return true, "race detector natively: " + rs[0] + "\n" + tail(out, 6000)
		}
		last = strings.TrimSpace(tail(out, 300))
		if os.Getenv("VF_RACEOUT") != "" {
			os.WriteFile(os.Getenv("VF_RACEOUT"), []byte(out), 0o644)
		}
	}
	return false, "no report by the race detector " + last
}
