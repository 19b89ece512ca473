package rdns

import (
	"bytes"
	"io"
	"net/http"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfFaults lets any of the first n operations fail.
func vfFaults(f *vfFS, n int) {
	count := 0
	f.fault = func(op string) bool {
		if count == n {
			return false
		}
		count++
		return zzvf.Bool("operation fails")
	}
}

// vfKeeps asserts after every operation that a file has one of the contents,
// nil standing for a missing file.
func vfKeeps(f *vfFS, name string, contents ...[]byte) {
	f.between = func(op string) {
		n := f.find(name)
		ok := false
		for _, c := range contents {
			if c == nil {
				ok = vfOr(ok, n == nil)
			} else if n != nil {
				ok = vfOr(ok, bytes.Equal(n.data, c))
			}
		}
		zzvf.Assert(ok, "the file has its old or its new content at any moment")
		zzvf.Assert(n == nil || !n.dirty, "the content is on the disk before it has the file's name")
		zzvf.Yield()
	}
}

// vfRules is a list of 3 names starting with any letters.
func vfRules(label string, size int) []string {
	var r []string
	for i := 0; i < 3; i++ {
		r = append(r, zzvf.StrOf(label, 2, "abcdefgh-*|.")+strings.Repeat("x", size)+".test")
	}
	return r
}

func vfListFile(rules []string) []byte { return []byte(strings.Join(rules, "\n") + "\n") }

func vfServeRules(rules []string) {
	vfServeList(func() (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(vfListFile(rules)))}, nil
	})
}

// vfCopy is the name of the local copy of a list.
func vfCopy(f *vfFS) string {
	vfServeRules([]string{"x.test"})
	l := NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{CacheDir: "/cache"})
	l.Load()
	zzvf.Assert(len(f.nodes) == 1 && filepath.Dir(f.nodes[0].name) == "/cache", "a copy is kept")
	n := f.nodes[0]
	f.nodes = nil
	return n.name
}

// Local copy of a remote list of 3 rules starting with any two of 12 letters,
// fitting one write or not: the first or a later one is written, with any of its
// first 16 operations failing and the process stopping between any two.
func VF_C07_list() {
	zzvf.Preempt(0)
	f := vfNewFS()
	name := vfCopy(f)
	size := []int{1, 30000}[zzvf.Choose("size", 2)]
	var old []byte
	oldRules := vfRules("old rule", 1)[:2]
	if zzvf.Choose("old", 2) == 1 {
		old = vfListFile(oldRules)
		f.put(name, old)
	}
	rules := vfRules("new rule", size)
	vfServeRules(rules)
	l := NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{CacheDir: "/cache"})
	if old != nil {
		// the first load uses the copy
		got, err := l.Load()
		zzvf.Assert(err == nil && slices.Equal(got, oldRules), "the copy is used")
	}
	vfFaults(f, 16)
	vfKeeps(f, name, old, vfListFile(rules))
	got, err := l.Load()
	zzvf.Assert(err == nil && slices.Equal(got, rules), "the list is loaded even if the copy cannot be written")
	f.between("end")
	// restart without the server
	f.fault, f.between = nil, nil
	vfServeList(func() (*http.Response, error) { return nil, errVF })
	n := f.find(name)
	got, err = NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{CacheDir: "/cache"}).Load()
	switch {
	case n == nil:
		zzvf.Assert(err != nil, "without a copy the failure is reported")
	case old != nil && bytes.Equal(n.data, old):
		zzvf.Assert(err == nil && slices.Equal(got, oldRules), "the old list is used")
		zzvf.Cover("old")
	default:
		zzvf.Assert(err == nil && slices.Equal(got, rules), "the new list is used")
		zzvf.Cover("new")
	}
}

// Two loads of the same remote list write its local copy at the same time, in
// every interleaving of their file operations with two (thorough: three)
// preemptions.
func VF_C07_writers() {
	f := vfNewFS()
	zzvf.Preempt(0)
	name := vfCopy(f)
	zzvf.Preempt(2 + zzvf.Tier())
	a, b := vfRules("rule", 1), vfRules("rule", 2)[:2]
	k := 0
	vfServeList(func() (*http.Response, error) {
		k++
		rules := a
		if k == 2 {
			rules = b
		}
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(vfListFile(rules)))}, nil
	})
	vfKeeps(f, name, nil, vfListFile(a), vfListFile(b))
	for i := 0; i < 2; i++ {
		zzvf.Go(func() {
			NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{CacheDir: "/cache"}).Load()
		})
	}
	zzvf.Settle()
	zzvf.Assert(f.find(name) != nil && len(f.nodes) == 1, "the copy is there and nothing else")
	zzvf.Cover("done")
}

// Clean-up of a directory at start: three files with a name made of the prefix of
// temporary files as it is, with a letter changed or with one put in front, or
// other names; regular files, directories and links, any age.
func VF_C07_sweep() {
	zzvf.Preempt(0)
	f := vfNewFS()
	prefix := ""
	f.between = func(op string) {
		if op == "createtemp" {
			n := filepath.Base(f.nodes[len(f.nodes)-1].name)
			if k := strings.Index(n, "123"); k > 0 {
				prefix = n[:k]
			}
		}
	}
	name := vfCopy(f)
	f.between = nil
	if prefix == "" {
		return // temporary files cannot be told from others
	}
	now := time.Unix(1700000000, 0)
	type want struct{ keep, drop bool }
	wants := make(map[string]want)
	f.put(name, []byte("x.test\n"))
	f.find(name).mtime = now.Add(-1000 * time.Hour)
	wants[name] = want{keep: true}
	for i := 0; i < 1+zzvf.Tier(); i++ {
		base := prefix
		ours := false
		switch zzvf.Choose("name", 5) {
		case 0:
			ours = true
		case 1:
			k := zzvf.Choose("changed", len(prefix))
			c := zzvf.StrOf("letter", 1, "abcxyz-_0")
			zzvf.Assume(c[0] != prefix[k])
			base = prefix[:k] + c + prefix[k+1:]
		case 2:
			base = "a" + prefix
		case 3:
			base = prefix[:len(prefix)-1]
		case 4:
			base = strings.TrimPrefix(prefix, ".")
		}
		path := "/cache/" + base + "77" + string(rune('0'+i))
		n := f.put(path, []byte("data"))
		age := zzvf.Int("age", 0, 1000000)
		n.mtime = now.Add(-time.Duration(age) * time.Second)
		regular := true
		switch zzvf.Choose("kind", 3) {
		case 1:
			n.mode |= 1 << 31 // directory
			regular = false
		case 2:
			n.mode |= 1 << 27 // link
			regular = false
		}
		ours = ours && regular
		young, old := zzvf.Fork(age < 600), zzvf.Fork(age > 86400)
		wants[path] = want{keep: !ours || young, drop: ours && old}
	}
	NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{CacheDir: "/cache"})
	if zzvf.Choose("cache", 2) == 1 {
		NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/x"})
		zzvf.Settle()
	}
	for _, p := range f.removed {
		zzvf.Assert(!wants[p].keep, "only leftover temporary files are removed")
		zzvf.Cover("removed")
	}
	for _, n := range f.nodes {
		zzvf.Assert(!wants[n.name].drop, "leftover temporary files are removed")
	}
}

// Cache file with one answer before and two after, for names with any letters:
// any of the first 16 operations of saving failing, and the process stopping
// between any two.
func VF_C07_cache() {
	zzvf.Preempt(0)
	f := vfNewFS()
	store := func(b CacheBackend, name string) {
		q := new(dns.Msg)
		q.SetQuestion(name, dns.TypeA)
		a := new(dns.Msg)
		a.SetReply(q)
		b.Store(q, &cacheAnswer{Timestamp: time.Unix(1700000000, 0), Expiry: time.Unix(1700003600, 0), Msg: a})
	}
	vfJSON()
	b := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	zzvf.Settle()
	store(b, zzvf.StrOf("name", 2, "abcd*")+"a.test.")
	zzvf.Assert(b.Close() == nil, "the cache is saved")
	old := append([]byte(nil), f.find("/cache/c").data...)
	store(b, zzvf.StrOf("name", 2, "abcd*")+"b.test.")
	zzvf.Assert(b.Close() == nil, "the cache is saved again")
	new := append([]byte(nil), f.find("/cache/c").data...)
	f.put("/cache/c", old)
	vfFaults(f, 16)
	vfKeeps(f, "/cache/c", old, new)
	err := b.Close()
	f.between("end")
	f.fault, f.between = nil, nil
	saved := bytes.Equal(f.find("/cache/c").data, new)
	zzvf.Assert(err != nil || saved, "a failure is reported")
	c := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	want := 1
	if saved {
		want = 2
		zzvf.Cover("new")
	} else {
		zzvf.Cover("old")
	}
	zzvf.Assert(c.Size() == want, "all answers are read back")
}
