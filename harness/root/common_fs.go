package rdns

import (
	"errors"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/folbricht/routedns/zzvf"
)

var errFS = errors.New("input/output error")

// vfNode is a file, directory or link.
type vfNode struct {
	name  string // full path
	data  []byte
	mode  fs.FileMode
	mtime time.Time
	dirty bool // has content that is not on the disk yet
}

type vfHandle struct {
	n      *vfNode
	off    int
	closed bool
}

// vfFS is a file system whose operations fail when fault tells so. The state
// between two operations is where a process may stop.
type vfFS struct {
	nodes   []*vfNode
	open    map[*os.File]*vfHandle
	fault   func(op string) bool
	between func(op string)
	temps   int
	removed []string
}

func vfNewFS() *vfFS {
	f := &vfFS{open: make(map[*os.File]*vfHandle)}
	zzvf.Env("os.Open", func(name string) (*os.File, error) { return f.openFile(name, os.O_RDONLY, 0) })
	zzvf.Env("os.Create", func(name string) (*os.File, error) {
		return f.openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
	})
	zzvf.Env("os.OpenFile", f.openFile)
	zzvf.Env("os.CreateTemp", f.createTemp)
	zzvf.Env("os.Rename", f.rename)
	zzvf.Env("os.Remove", f.remove)
	zzvf.Env("os.RemoveAll", f.remove)
	zzvf.Env("os.Stat", f.stat)
	zzvf.Env("os.Lstat", f.stat)
	zzvf.Env("os.ReadDir", f.readDir)
	zzvf.Env("os.MkdirAll", func(string, fs.FileMode) error { return f.op("mkdir") })
	zzvf.Env("os.ReadFile", func(name string) ([]byte, error) {
		h, err := f.openFile(name, os.O_RDONLY, 0)
		if err != nil {
			return nil, err
		}
		if err := f.op("read"); err != nil {
			return nil, err
		}
		return append([]byte(nil), f.open[h].n.data...), nil
	})
	zzvf.Env("os.WriteFile", func(name string, b []byte, m fs.FileMode) error {
		h, err := f.openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
		if err != nil {
			return err
		}
		_, err = f.write(h, b)
		return err
	})
	zzvf.Env("(*os.File).Write", f.write)
	zzvf.Env("(*os.File).WriteString", func(h *os.File, s string) (int, error) { return f.write(h, []byte(s)) })
	zzvf.Env("(*os.File).Read", f.read)
	zzvf.Env("(*os.File).Close", f.close)
	zzvf.Env("(*os.File).Sync", func(h *os.File) error {
		if err := f.op("sync"); err != nil {
			return err
		}
		f.open[h].n.dirty = false
		f.done("sync")
		return nil
	})
	zzvf.Env("(*os.File).Chmod", func(h *os.File, m fs.FileMode) error {
		if err := f.op("chmod"); err != nil {
			return err
		}
		f.open[h].n.mode = m
		f.done("chmod")
		return nil
	})
	zzvf.Env("(*os.File).Truncate", func(h *os.File, n int64) error {
		if err := f.op("truncate"); err != nil {
			return err
		}
		f.open[h].n.data = f.open[h].n.data[:n]
		f.done("truncate")
		return nil
	})
	zzvf.Env("(*os.File).Name", func(h *os.File) string { return f.open[h].n.name })
	return f
}

func (f *vfFS) op(name string) error {
	if f.fault != nil && f.fault(name) {
		return errFS
	}
	return nil
}

func (f *vfFS) done(name string) {
	if f.between != nil {
		f.between(name)
	}
}

func (f *vfFS) find(name string) *vfNode {
	for _, n := range f.nodes {
		if n.name == filepath.Clean(name) {
			return n
		}
	}
	return nil
}

// put adds or replaces a file.
func (f *vfFS) put(name string, data []byte) *vfNode {
	n := f.find(name)
	if n == nil {
		n = &vfNode{name: filepath.Clean(name)}
		f.nodes = append(f.nodes, n)
	}
	n.data, n.mode = data, 0o644
	return n
}

func (f *vfFS) missing(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
}

func (f *vfFS) handle(n *vfNode) *os.File {
	h := new(os.File)
	f.open[h] = &vfHandle{n: n}
	return h
}

func (f *vfFS) openFile(name string, flag int, m fs.FileMode) (*os.File, error) {
	if err := f.op("open"); err != nil {
		return nil, err
	}
	n := f.find(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, f.missing("open", name)
		}
		n = f.put(name, nil)
		n.mode = m
	} else if flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	h := f.handle(n)
	if flag&os.O_APPEND != 0 {
		f.open[h].off = len(n.data)
	}
	f.done("open")
	return h, nil
}

func (f *vfFS) createTemp(dir, pattern string) (*os.File, error) {
	if err := f.op("createtemp"); err != nil {
		return nil, err
	}
	if dir == "" {
		dir = "/tmp"
	}
	f.temps++
	pre, post, _ := strings.Cut(pattern, "*")
	n := f.put(filepath.Join(dir, pre+"123"+string(rune('0'+f.temps))+post), nil)
	n.mode = 0o600
	f.done("createtemp")
	return f.handle(n), nil
}

func (f *vfFS) drop(n *vfNode) {
	for i, m := range f.nodes {
		if m == n {
			f.nodes = append(append([]*vfNode(nil), f.nodes[:i]...), f.nodes[i+1:]...)
			return
		}
	}
}

func (f *vfFS) rename(from, to string) error {
	if err := f.op("rename"); err != nil {
		return err
	}
	n := f.find(from)
	if n == nil {
		return f.missing("rename", from)
	}
	if old := f.find(to); old != nil && old != n {
		f.drop(old)
	}
	n.name = filepath.Clean(to)
	f.done("rename")
	return nil
}

func (f *vfFS) remove(name string) error {
	if err := f.op("remove"); err != nil {
		return err
	}
	n := f.find(name)
	if n == nil {
		return f.missing("remove", name)
	}
	f.drop(n)
	f.removed = append(f.removed, n.name)
	f.done("remove")
	return nil
}

func (f *vfFS) write(h *os.File, b []byte) (int, error) {
	o := f.open[h]
	if o.closed {
		return 0, fs.ErrClosed
	}
	k := len(b)
	err := f.op("write")
	if err != nil {
		k /= 2 // as much as there was room for
	}
	o.n.data = append(o.n.data[:o.off:o.off], b[:k]...)
	o.n.dirty = true
	o.off += k
	f.done("write")
	return k, err
}

func (f *vfFS) read(h *os.File, b []byte) (int, error) {
	o := f.open[h]
	if o.closed {
		return 0, fs.ErrClosed
	}
	left := o.n.data[o.off:]
	if err := f.op("read"); err != nil {
		// the beginning can be read
		if k := len(left) / 2; o.off == 0 && k > 0 {
			copy(b, left[:k])
			o.off = k
			return k, err
		}
		return 0, err
	}
	if len(left) == 0 {
		return 0, io.EOF
	}
	k := copy(b, left)
	o.off += k
	return k, nil
}

func (f *vfFS) close(h *os.File) error {
	o := f.open[h]
	if o.closed {
		return fs.ErrClosed
	}
	o.closed = true
	if err := f.op("close"); err != nil {
		return err
	}
	f.done("close")
	return nil
}

func (f *vfFS) stat(name string) (fs.FileInfo, error) {
	if err := f.op("stat"); err != nil {
		return nil, err
	}
	if n := f.find(name); n != nil {
		return vfInfo{n}, nil
	}
	return nil, f.missing("stat", name)
}

func (f *vfFS) readDir(dir string) ([]fs.DirEntry, error) {
	if err := f.op("readdir"); err != nil {
		return nil, err
	}
	var es []fs.DirEntry
	for _, n := range f.nodes {
		if filepath.Dir(n.name) == filepath.Clean(dir) {
			es = append(es, vfInfo{n})
		}
	}
	return es, nil
}

// vfInfo describes a file.
type vfInfo struct{ n *vfNode }

func (i vfInfo) Name() string               { return filepath.Base(i.n.name) }
func (i vfInfo) Size() int64                { return int64(len(i.n.data)) }
func (i vfInfo) Mode() fs.FileMode          { return i.n.mode }
func (i vfInfo) ModTime() time.Time         { return i.n.mtime }
func (i vfInfo) IsDir() bool                { return i.n.mode.IsDir() }
func (i vfInfo) Sys() any                   { return nil }
func (i vfInfo) Type() fs.FileMode          { return i.n.mode.Type() }
func (i vfInfo) Info() (fs.FileInfo, error) { return i, nil }

// vfServeList makes the web server answer with what serve returns.
func vfServeList(serve func() (*http.Response, error)) {
	zzvf.Env("(*net/http.Client).Do", func(c *http.Client, q *http.Request) (*http.Response, error) {
		r, err := serve()
		if r != nil {
			r.Request = q
		}
		return r, err
	})
}
