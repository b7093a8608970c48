// Package os is an in-memory file system and environment.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type node struct {
	path  string
	dir   bool
	data  []byte
	mode  FileMode
	mtime int64
	sec   int64 // seconds of the modification time added to mtime
	sys   bool
	hole  int64 // bytes beyond data, for files too large to have
}

// Op is one recorded file-system access.
type Op struct {
	Op, Path string
}

var (
	nodes []*node
	env   []string // k, v, k, v ...
	Ops   []Op
	Cwd   = "/work"
	// Fault, when set, may make an operation fail.
	Fault func(op, path string) error
	Open_ int // files currently open
)

func init() {
	for _, d := range []string{"/", "/work", "/tmp", "/etc"} {
		nodes = append(nodes, &node{path: d, dir: true, mode: ModeDir | 0755})
	}
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = Cwd + "/" + p
	}
	return filepath.Clean(p)
}

func find(p string) *node {
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

func rec(op, p string) error {
	Ops = append(Ops, Op{op, p})
	if Fault != nil {
		return Fault(op, p)
	}
	return nil
}

func perr(op, p string, e error) error { return &PathError{Op: op, Path: p, Err: e} }

// ---- control for harnesses

// Put creates a file (and its parents).
func Put(p string, data []byte) {
	p = clean(p)
	putParents(p)
	if n := find(p); n != nil {
		n.data = data
		n.mtime, n.sec = vrt.NowNS(), 0
		return
	}
	nodes = append(nodes, &node{path: p, data: data, mode: 0644, mtime: vrt.NowNS()})
}

func putParents(p string) {
	d := filepath.Dir(p)
	if find(d) == nil {
		putParents(d)
		nodes = append(nodes, &node{path: d, dir: true, mode: ModeDir | 0755})
	}
}

// PutDir creates a directory.
func PutDir(p string) { putParents(clean(p) + "/x") }

// Get reads a file without recording it.
func Get(p string) ([]byte, bool) {
	n := find(clean(p))
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// SetMtime sets the modification time of a file.
func SetMtime(p string, ns int64) {
	if n := find(clean(p)); n != nil {
		n.mtime, n.sec = ns, 0
	}
}

// SetSize gives a file a size without contents (its contents must not be read).
func SetSize(p string, size int64) {
	if n := find(clean(p)); n != nil {
		n.hole = size - int64(len(n.data))
	}
}

// SetMtimeSec sets a file's modification time in seconds.
func SetMtimeSec(p string, sec int64) {
	if n := find(clean(p)); n != nil {
		n.mtime, n.sec = 0, sec
	}
}

// Files lists the paths of all regular files.
func Files() []string {
	var r []string
	for _, n := range nodes {
		if !n.dir {
			r = append(r, n.path)
		}
	}
	return r
}

// ---- files

type File struct {
	n      *node
	name   string
	pos    int
	rd, wr bool
	app    bool
	closed bool
	std    bool
	text   []byte // what a standard stream was given
}

// Written is what was written to a standard stream.
func Written(f *File) []byte { return f.text }

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := clean(name)
	op := "open"
	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {
		op = "openw"
	}
	if e := rec(op, p); e != nil {
		return nil, perr("open", name, e)
	}
	n := find(p)
	wr := flag&(O_WRONLY|O_RDWR) != 0
	if n == nil {
		if flag&O_CREATE == 0 || p == "" {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := find(filepath.Dir(p))
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &node{path: p, mode: perm, mtime: vrt.NowNS()}
		nodes = append(nodes, n)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
	}
	if flag&O_TRUNC != 0 {
		n.data = nil
	}
	Open_++
	return &File{n: n, name: name, rd: flag&O_WRONLY == 0, wr: wr, app: flag&O_APPEND != 0}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) check() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("use", f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if e := f.check(); e != nil {
		return 0, e
	}
	if f.std {
		return 0, io.EOF
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if e := rec("read", f.n.path); e != nil {
		return 0, perr("read", f.name, e)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	c := copy(b, f.n.data[f.pos:])
	f.pos += c
	return c, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if e := f.check(); e != nil {
		return 0, e
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	c := copy(b, f.n.data[off:])
	if c < len(b) {
		return c, io.EOF
	}
	return c, nil
}

func (f *File) Write(b []byte) (int, error) {
	if e := f.check(); e != nil {
		return 0, e
	}
	if f.std {
		f.text = append(f.text, b...)
		return len(b), nil
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if e := rec("write", f.n.path); e != nil {
		return 0, perr("write", f.name, e)
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	nd := append([]byte(nil), f.n.data[:f.pos]...)
	nd = append(nd, b...)
	if f.pos+len(b) < len(f.n.data) {
		nd = append(nd, f.n.data[f.pos+len(b):]...)
	}
	f.n.data = nd
	f.n.mtime, f.n.sec = vrt.NowNS(), 0
	f.pos += len(b)
	return len(b), nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	pos := f.pos
	if off > int64(len(f.n.data)) {
		f.n.data = append(f.n.data, make([]byte, off-int64(len(f.n.data)))...)
	}
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = pos
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if e := f.check(); e != nil {
		return 0, e
	}
	switch whence {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	case 2:
		f.pos = len(f.n.data) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Close() error {
	if e := f.check(); e != nil {
		return e
	}
	if !f.std {
		f.closed = true
		Open_--
	}
	return nil
}
func (f *File) Sync() error            { return f.check() }
func (f *File) Fd() uintptr            { return 9 }
func (f *File) Chmod(m FileMode) error { return f.check() }
func (f *File) Truncate(n int64) error {
	if e := f.check(); e != nil {
		return e
	}
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:n]
	return nil
}
func (f *File) Stat() (FileInfo, error) {
	if e := f.check(); e != nil {
		return nil, e
	}
	return &info{f.n}, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) { return children(f.n.path), nil }
func (f *File) Readdirnames(n int) ([]string, error) {
	var r []string
	for _, c := range children(f.n.path) {
		r = append(r, c.Name())
	}
	return r, nil
}

type info struct{ n *node }

func (i *info) Name() string       { return filepath.Base(i.n.path) }
func (i *info) Size() int64        { return int64(len(i.n.data)) + i.n.hole }
func (i *info) Mode() FileMode     { return i.n.mode }
func (i *info) ModTime() time.Time { return time.Unix(i.n.sec, i.n.mtime) }
func (i *info) IsDir() bool        { return i.n.dir }
func (i *info) Sys() interface{}   { return nil }

func children(dir string) []FileInfo {
	var r []FileInfo
	for _, n := range nodes {
		if n.path != dir && filepath.Dir(n.path) == dir {
			// insertion by name
			j := len(r)
			r = append(r, nil)
			for j > 0 && filepath.Base(n.path) < r[j-1].Name() {
				r[j] = r[j-1]
				j--
			}
			r[j] = &info{n}
		}
	}
	return r
}

func Stat(name string) (FileInfo, error) {
	p := clean(name)
	if e := rec("stat", p); e != nil {
		return nil, perr("stat", name, e)
	}
	n := find(p)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{n}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	p := clean(name)
	if e := rec("remove", p); e != nil {
		return perr("remove", name, e)
	}
	for i, n := range nodes {
		if n.path == p {
			if n.dir && len(children(p)) > 0 {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
			nodes = append(nodes[:i:i], nodes[i+1:]...)
			return nil
		}
	}
	return perr("remove", name, syscall.ENOENT)
}

func RemoveAll(name string) error {
	p := clean(name)
	if e := rec("removeall", p); e != nil {
		return perr("remove", name, e)
	}
	var keep []*node
	for _, n := range nodes {
		if n.path == p || (len(n.path) > len(p) && n.path[:len(p)] == p && n.path[len(p)] == '/') {
			continue
		}
		keep = append(keep, n)
	}
	nodes = keep
	return nil
}

func Mkdir(name string, perm FileMode) error {
	p := clean(name)
	if e := rec("mkdir", p); e != nil {
		return perr("mkdir", name, e)
	}
	if find(p) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if find(filepath.Dir(p)) == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	nodes = append(nodes, &node{path: p, dir: true, mode: ModeDir | perm})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if e := rec("mkdir", p); e != nil {
		return perr("mkdir", name, e)
	}
	if n := find(p); n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	putParents(p + "/x")
	return nil
}

func Rename(a, b string) error {
	pa, pb := clean(a), clean(b)
	if e := rec("rename", pa); e != nil {
		return perr("rename", a, e)
	}
	n := find(pa)
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	if o := find(pb); o != nil && o != n {
		Remove(pb)
	}
	n.path = pb
	return nil
}

func Chmod(name string, m FileMode) error {
	_, err := Stat(name)
	return err
}

func Chtimes(name string, atime, mtime time.Time) error {
	n := find(clean(name))
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.sec, n.mtime = 0, mtime.UnixNano()
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer f.Close()
	if f.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if e := rec("read", f.n.path); e != nil {
		return nil, perr("read", name, e)
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, e := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = f.Write(data)
	f.Close()
	return e
}

// ReadDirInfo lists a directory in name order.
func ReadDirInfo(name string) ([]FileInfo, error) {
	p := clean(name)
	if e := rec("readdir", p); e != nil {
		return nil, perr("open", name, e)
	}
	n := find(p)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	return children(p), nil
}

type dirEntry struct{ i FileInfo }

func (d *dirEntry) Name() string               { return d.i.Name() }
func (d *dirEntry) IsDir() bool                { return d.i.IsDir() }
func (d *dirEntry) Type() FileMode             { return d.i.Mode() & ModeType }
func (d *dirEntry) Info() (fs.FileInfo, error) { return d.i, nil }

func ReadDir(name string) ([]DirEntry, error) {
	is, e := ReadDirInfo(name)
	if e != nil {
		return nil, e
	}
	var r []DirEntry
	for _, i := range is {
		r = append(r, &dirEntry{i})
	}
	return r, nil
}

// ---- environment

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}
func LookupEnv(k string) (string, bool) {
	for i := 0; i < len(env); i += 2 {
		if env[i] == k {
			return env[i+1], true
		}
	}
	return "", false
}
func Setenv(k, v string) error {
	for i := 0; i < len(env); i += 2 {
		if env[i] == k {
			env[i+1] = v
			return nil
		}
	}
	env = append(env, k, v)
	return nil
}
func Unsetenv(k string) error {
	for i := 0; i < len(env); i += 2 {
		if env[i] == k {
			env = append(env[:i:i], env[i+2:]...)
			return nil
		}
	}
	return nil
}
func Clearenv() { env = nil }

// RawEnv and RawEnvEnd are further entries of the environment, before and after the others.
var RawEnv, RawEnvEnd []string

func Environ() []string {
	r := append([]string{}, RawEnv...)
	for i := 0; i < len(env); i += 2 {
		r = append(r, env[i]+"="+env[i+1])
	}
	return append(r, RawEnvEnd...)
}

// the errors of io/fs, which is initialised
var (
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrExist      = fs.ErrExist
	ErrNotExist   = fs.ErrNotExist
	ErrClosed     = fs.ErrClosed

	ErrDeadlineExceeded = errors.New("i/o timeout")
)

// NoCwd makes the current folder unknown.
var NoCwd error

func Getwd() (string, error) {
	if NoCwd != nil {
		return "", NoCwd
	}
	return Cwd, nil
}
func Chdir(d string) error         { Cwd = clean(d); return nil }
func TempDir() string              { return "/tmp" }
func Hostname() (string, error)    { return "host", nil }
func Getpid() int                  { return 4242 }
func Getuid() int                  { return 1000 }
func Executable() (string, error)  { return "/work/app", nil }
func UserHomeDir() (string, error) { return "/home/app", nil }
func Exit(code int)                { vrt.HostExit("os.Exit") }

func IsNotExist(err error) bool { return under(err) == error(syscall.ENOENT) || err == ErrNotExist }
func IsExist(err error) bool {
	u := under(err)
	return u == error(syscall.EEXIST) || u == error(syscall.ENOTEMPTY) || err == ErrExist
}
func IsPermission(err error) bool { return under(err) == error(syscall.EACCES) || err == ErrPermission }
func under(err error) error {
	if pe, ok := err.(*PathError); ok {
		return pe.Err
	}
	return err
}

var Args = []string{"/work/app"}

var _ = real.O_RDONLY

var tempN = 1000

// CreateTemp makes a new file whose name ends in a number.
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	tempN++
	n := ""
	for k := tempN; k > 0; k /= 10 {
		n = string(rune('0'+k%10)) + n
	}
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return dir + "/" + pattern[:i] + n + pattern[i+1:]
		}
	}
	return dir + "/" + pattern + n
}

func ExpandEnv(s string) string { return real.Expand(s, Getenv) }
