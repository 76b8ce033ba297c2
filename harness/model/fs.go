package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---- file system: a list of absolute paths; one process, no permissions ----

type fnode struct {
	path  string
	dir   bool
	data  []byte
	mtime time.Time
}

type handle struct {
	f      *os.File
	n      *fnode
	name   string
	off    int
	wr     bool
	app    bool
	closed bool
}

var (
	nodes   []*fnode
	handles []*handle
	env     []string
	// Touched lists the paths that were opened, in order.
	Touched []string
	tmpSeq  int
)

const scratch = "/scratch"

func init() {
	nodes = []*fnode{{path: "/", dir: true}, {path: scratch, dir: true}, {path: "/tmp", dir: true}}
	env = []string{"HOME=" + scratch + "/home", "XDG_CACHE_HOME=", "PATH=/usr/bin"}
}

// Dir models sym.Dir.
func Dir() string { return scratch }

// SyncFS models sym.SyncFS.
func SyncFS() {}

// Opened models sym.Opened.
func Opened() []string { return Touched }

func abs(p string) string {
	if !filepath.IsAbs(p) {
		p = "/cwd/" + p
	}
	return filepath.Clean(p)
}

func find(p string) *fnode {
	p = abs(p)
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

// lookup finds a node, telling a missing path from one below a plain file.
func lookup(op, path string) (*fnode, error) {
	if path == "" {
		return nil, perr(op, path, syscall.ENOENT)
	}
	if n := find(path); n != nil {
		if !n.dir && strings.HasSuffix(path, "/") {
			return nil, perr(op, path, syscall.ENOTDIR)
		}
		return n, nil
	}
	return nil, perr(op, path, parentErr(path))
}

func parentErr(path string) error {
	d := filepath.Dir(abs(path))
	for {
		if n := find(d); n != nil {
			if n.dir {
				return syscall.ENOENT
			}
			return syscall.ENOTDIR
		}
		if d == "/" {
			return syscall.ENOENT
		}
		d = filepath.Dir(d)
	}
}

type finfo struct {
	name string
	n    fnode
}

func (f *finfo) Name() string       { return f.name }
func (f *finfo) Size() int64        { return int64(len(f.n.data)) }
func (f *finfo) ModTime() time.Time { return f.n.mtime }
func (f *finfo) IsDir() bool        { return f.n.dir }
func (f *finfo) Sys() any           { return nil }
func (f *finfo) Mode() fs.FileMode {
	if f.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o600
}

func Stat(name string) (os.FileInfo, error) {
	n, err := lookup("stat", name)
	if err != nil {
		return nil, err
	}
	return &finfo{filepath.Base(name), *n}, nil
}

func Mkdir(name string, perm os.FileMode) error {
	if find(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	p := find(filepath.Dir(abs(name)))
	if p == nil {
		return perr("mkdir", name, parentErr(name))
	}
	if !p.dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	nodes = append(nodes, &fnode{path: abs(name), dir: true, mtime: time.Now()})
	p.mtime = time.Now()
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	if n := find(name); n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := filepath.Dir(abs(name)); d != abs(name) {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func open(name string, flag int) (*handle, error) {
	Touched = append(Touched, name)
	n, err := lookup("open", name)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case err != nil && flag&os.O_CREATE == 0:
		return nil, err
	case err != nil:
		p := find(filepath.Dir(abs(name)))
		if p == nil || strings.HasSuffix(name, "/") {
			return nil, err
		}
		if !p.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &fnode{path: abs(name), mtime: time.Now()}
		p.mtime = n.mtime
		nodes = append(nodes, n)
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n.dir && (wr || flag&os.O_CREATE != 0):
		return nil, perr("open", name, syscall.EISDIR)
	case flag&os.O_TRUNC != 0:
		n.data = nil
		n.mtime = time.Now()
	}
	h := &handle{f: new(os.File), n: n, name: name, wr: wr, app: flag&os.O_APPEND != 0}
	handles = append(handles, h)
	return h, nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	h, err := open(name, flag)
	if err != nil {
		return nil, err
	}
	return h.f, nil
}
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	s := "1000" + strconv.Itoa(tmpSeq)
	name := pattern + s
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + s + pattern[i+1:]
	}
	return OpenFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	name := dir + "/" + strings.Replace(pattern, "*", "", 1) + "1000" + strconv.Itoa(tmpSeq)
	return name, Mkdir(name, 0o700)
}

func ReadFile(name string) ([]byte, error) {
	h, err := open(name, os.O_RDONLY)
	if err != nil {
		return nil, err
	}
	if h.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, h.n.data...), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := open(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
	if err != nil {
		return err
	}
	h.n.data = append([]byte{}, data...)
	h.n.mtime = time.Now()
	return nil
}

func Remove(name string) error {
	n, err := lookup("remove", name)
	if err != nil {
		return err
	}
	var keep []*fnode
	for _, x := range nodes {
		if n.dir && strings.HasPrefix(x.path, n.path+"/") {
			return perr("remove", name, syscall.ENOTEMPTY)
		}
		if x != n {
			keep = append(keep, x)
		}
	}
	nodes = keep
	return nil
}

func RemoveAll(name string) error {
	p := abs(name)
	var keep []*fnode
	for _, x := range nodes {
		if x.path != p && !strings.HasPrefix(x.path, p+"/") {
			keep = append(keep, x)
		}
	}
	nodes = keep
	return nil
}

func Rename(from, to string) error {
	n, err := lookup("rename", from)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errors.Unwrap(err)}
	}
	p := find(filepath.Dir(abs(to)))
	if p == nil || !p.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: parentErr(to)}
	}
	if o := find(to); o != nil && o != n {
		if o.dir && !n.dir {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
		}
		var keep []*fnode
		for _, x := range nodes {
			if x != o {
				keep = append(keep, x)
			}
		}
		nodes = keep
	}
	n.path = abs(to)
	p.mtime = time.Now()
	return nil
}

func Chtimes(name string, at, mt time.Time) error {
	n, err := lookup("chtimes", name)
	if err != nil {
		return err
	}
	n.mtime = mt
	return nil
}

func Chmod(name string, m os.FileMode) error {
	_, err := lookup("chmod", name)
	return err
}

type dirent struct{ *finfo }

func (d dirent) Type() fs.FileMode          { return d.Mode().Type() }
func (d dirent) Info() (fs.FileInfo, error) { return d.finfo, nil }

func ReadDir(name string) ([]os.DirEntry, error) {
	Touched = append(Touched, name)
	n, err := lookup("open", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, x := range nodes {
		if x != n && filepath.Dir(x.path) == n.path {
			e := dirent{&finfo{filepath.Base(x.path), *x}}
			i := len(out)
			out = append(out, e)
			for i > 0 && out[i-1].Name() > out[i].Name() {
				out[i-1], out[i] = out[i], out[i-1]
				i--
			}
		}
	}
	return out, nil
}

func hdl(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	panic("model: unknown file handle")
}

func FileName(f *os.File) string { return hdl(f).name }

func FileRead(f *os.File, b []byte) (int, error) {
	h := hdl(f)
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h := hdl(f)
	if h.closed {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.app {
		h.off = len(h.n.data)
	}
	d := append([]byte{}, h.n.data...)
	for len(d) < h.off+len(b) {
		d = append(d, 0)
	}
	copy(d[h.off:], b)
	h.n.data = d
	h.off += len(b)
	h.n.mtime = time.Now()
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileClose(f *os.File) error {
	h := hdl(f)
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	return nil
}

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h := hdl(f)
	if h.closed {
		return 0, perr("seek", h.name, os.ErrClosed)
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.off)
	case io.SeekEnd:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = int(off)
	return off, nil
}

func (n *fnode) truncate(size int64) {
	d := append([]byte{}, n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	n.data = d[:size]
	n.mtime = time.Now()
}

func FileTruncate(f *os.File, size int64) error {
	h := hdl(f)
	if h.closed {
		return perr("truncate", h.name, os.ErrClosed)
	}
	if !h.wr || size < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.n.truncate(size)
	return nil
}

func Truncate(name string, size int64) error {
	n, err := lookup("truncate", name)
	if err != nil {
		return err
	}
	if n.dir {
		return perr("truncate", name, syscall.EISDIR)
	}
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	n.truncate(size)
	return nil
}

func FileSync(f *os.File) error                 { return nil }
func FileChmod(f *os.File, m os.FileMode) error { return nil }
func FileStat(f *os.File) (os.FileInfo, error) {
	h := hdl(f)
	return &finfo{filepath.Base(h.name), *h.n}, nil
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func LookupEnv(k string) (string, bool) {
	for _, e := range env {
		if strings.HasPrefix(e, k+"=") {
			return e[len(k)+1:], true
		}
	}
	return "", false
}

func Setenv(k, v string) error {
	Unsetenv(k)
	env = append(env, k+"="+v)
	return nil
}

func Unsetenv(k string) error {
	var keep []string
	for _, e := range env {
		if !strings.HasPrefix(e, k+"=") {
			keep = append(keep, e)
		}
	}
	env = keep
	return nil
}

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		if !filepath.IsAbs(d) {
			return "", errors.New("path in $XDG_CACHE_HOME is relative")
		}
		return d, nil
	}
	h := Getenv("HOME")
	if h == "" {
		return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}

// ---- timers ----

type timer struct {
	t    *time.Timer
	at   time.Time
	f    func()
	done bool
}

var timers []*timer

func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := new(time.Timer)
	timers = append(timers, &timer{t: t, at: time.Now().Add(d), f: f})
	return t
}

func TimerStop(t *time.Timer) bool {
	for _, x := range timers {
		if x.t == t && !x.done {
			x.done = true
			return true
		}
	}
	return false
}

// RunTimers fires the timers that are due.
func RunTimers() {
	now := time.Now()
	for i := 0; i < len(timers); i++ {
		x := timers[i]
		if !x.done && !x.at.After(now) {
			x.done = true
			x.f()
		}
	}
}
