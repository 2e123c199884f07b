//go:build go1.22

package verifsim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated machine's file system: one tree, in memory, with symbolic
// links. Every operation is a scheduling and fault-injection point.
type FS struct {
	root  *Node
	Cwd   string
	Ver   uint64 // incremented by every mutation
	Procs uint64
	// OnMutate observes every mutation with the path after link resolution.
	OnMutate func(t *Task, op, path string)
	// Fault decides the outcome of an operation. short applies to writes/reads:
	// number of bytes done before err (with err==nil: a short write is an error).
	Fault func(t *Task, op, path string) (err error, short int)
	// Capacity in bytes (0: unlimited); exceeding writes fail with ENOSPC.
	Capacity int64
	Used     int64
	inos     uint64
	Counts   map[string]int
	tmpSeq   int
}

type Node struct {
	Mode   fs.FileMode // includes type bits
	Data   []byte
	Target string
	Kids   map[string]*Node
	Mtime  time.Time
	Ino    uint64
}

func (n *Node) IsDir() bool  { return n.Mode&fs.ModeDir != 0 }
func (n *Node) IsLink() bool { return n.Mode&fs.ModeSymlink != 0 }

func NewFS() *FS {
	f := &FS{Cwd: "/work", Counts: map[string]int{}}
	f.root = f.newDir()
	f.MkdirRaw("/work")
	f.MkdirRaw("/tmp")
	f.Ver = 0
	return f
}

func (f *FS) newDir() *Node {
	f.inos++
	return &Node{Mode: fs.ModeDir | 0777, Kids: map[string]*Node{}, Mtime: time.Now(), Ino: f.inos}
}

func (f *FS) Abs(p string) string {
	if !path.IsAbs(p) {
		p = f.Cwd + "/" + p
	}
	return p
}

// walk resolves p; it returns the parent node, the final element's name, the
// node (nil if missing) and the resolved absolute path.
func (f *FS) walk(p string, followLast bool, depth int) (parent *Node, name string, n *Node, real string, err error) {
	if depth > 20 {
		return nil, "", nil, "", syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, "", syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, "", syscall.EINVAL
	}
	if len(p) > 4096 {
		return nil, "", nil, "", syscall.ENAMETOOLONG
	}
	trailing := strings.HasSuffix(p, "/")
	elems := strings.Split(f.Abs(p), "/")
	type st struct {
		n *Node
		p string
	}
	stack := []st{{f.root, ""}}
	var parts []string
	for _, e := range elems {
		if e != "" && e != "." {
			parts = append(parts, e)
		}
	}
	if len(parts) == 0 {
		return nil, "/", f.root, "/", nil
	}
	for i, e := range parts {
		top := stack[len(stack)-1]
		last := i == len(parts)-1
		if !top.n.IsDir() {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		if e == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				top = stack[len(stack)-1]
				rp := top.p
				if rp == "" {
					rp = "/"
				}
				return nil, path.Base(rp), top.n, rp, nil
			}
			continue
		}
		if len(e) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		kid := top.n.Kids[e]
		if kid != nil && kid.IsLink() && (!last || followLast || trailing) {
			tgt := kid.Target
			if !path.IsAbs(tgt) {
				tgt = top.p + "/" + tgt
			}
			rest := strings.Join(parts[i+1:], "/")
			np := tgt
			if rest != "" {
				np = tgt + "/" + rest
			}
			return f.walk(np, followLast, depth+1)
		}
		if last {
			return top.n, e, kid, top.p + "/" + e, nil
		}
		if kid == nil {
			return nil, "", nil, "", syscall.ENOENT
		}
		stack = append(stack, st{kid, top.p + "/" + e})
	}
	return nil, "", nil, "", syscall.ENOENT
}

func (f *FS) mutated(t *Task, op, real string) {
	f.Ver++
	if f.OnMutate != nil {
		f.OnMutate(t, op, real)
	}
}

func (f *FS) op(op, p string) (t *Task, err error, short int) {
	t = Op("fs."+op, p)
	f.Counts[op]++
	if t != nil && f.Fault != nil {
		err, short = f.Fault(t, op, p)
	}
	return
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// --- raw access for the harness (no scheduling, no faults) ---

func (f *FS) MkdirRaw(p string) {
	cur := f.root
	for _, e := range strings.Split(path.Clean(f.Abs(p)), "/") {
		if e == "" {
			continue
		}
		k := cur.Kids[e]
		if k == nil {
			k = f.newDir()
			cur.Kids[e] = k
			f.Ver++
		}
		cur = k
	}
}

func (f *FS) WriteRaw(p string, data []byte) {
	p = path.Clean(f.Abs(p))
	f.MkdirRaw(path.Dir(p))
	_, name, _, _, err := f.walk(p, false, 0)
	if err != nil {
		panic(err)
	}
	par := f.lookup(path.Dir(p))
	f.inos++
	par.Kids[name] = &Node{Mode: 0644, Data: data, Mtime: time.Now(), Ino: f.inos}
	f.Ver++
}

func (f *FS) lookup(p string) *Node {
	_, _, n, _, err := f.walk(p, true, 0)
	if err != nil {
		return nil
	}
	return n
}

func (f *FS) ReadRaw(p string) ([]byte, bool) {
	n := f.lookup(p)
	if n == nil || n.IsDir() {
		return nil, false
	}
	return n.Data, true
}

func (f *FS) ExistsRaw(p string) bool {
	_, _, n, _, err := f.walk(p, false, 0)
	return err == nil && n != nil
}

func (f *FS) RemoveRaw(p string) {
	par, name, n, _, err := f.walk(p, false, 0)
	if err == nil && n != nil && par != nil {
		delete(par.Kids, name)
		f.Ver++
	}
}

// Files returns every regular file under p (no link following) with its data.
func (f *FS) Files(p string) map[string][]byte {
	out := map[string][]byte{}
	var rec func(n *Node, at string)
	rec = func(n *Node, at string) {
		for name, k := range n.Kids {
			kp := at + "/" + name
			switch {
			case k.IsDir():
				rec(k, kp)
			case k.IsLink():
			default:
				out[kp] = k.Data
			}
		}
	}
	n := f.lookup(p)
	if n == nil || !n.IsDir() {
		return out
	}
	base := path.Clean(f.Abs(p))
	if base == "/" {
		base = ""
	}
	rec(n, base)
	return out
}

// --- operations ---

const (
	ORdonly = syscall.O_RDONLY
	OWronly = syscall.O_WRONLY
	ORdwr   = syscall.O_RDWR
	OAppend = syscall.O_APPEND
	OCreate = syscall.O_CREAT
	OExcl   = syscall.O_EXCL
	OTrunc  = syscall.O_TRUNC
)

// File is an open file of the simulated file system.
type File struct {
	f      *FS
	n      *Node
	name   string
	real   string
	off    int64
	flag   int
	closed bool
	std    io.Writer
	dirPos int
}

var ErrClosed = fs.ErrClosed

func NewStd(name string, w io.Writer) *File { return &File{name: name, std: w} }

func (f *FS) OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	wr := flag&(OWronly|ORdwr) != 0
	kind := "open-r"
	if wr {
		kind = "open-w"
	}
	t, ferr, _ := f.op(kind, p)
	if ferr != nil {
		return nil, perr("open", p, ferr)
	}
	par, name, n, real, err := f.walk(p, true, 0)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if n != nil && flag&(OCreate|OExcl) == OCreate|OExcl {
		return nil, perr("open", p, syscall.EEXIST)
	}
	if n == nil {
		if flag&OCreate == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		if strings.HasSuffix(p, "/") {
			return nil, perr("open", p, syscall.EISDIR)
		}
		f.inos++
		n = &Node{Mode: perm & 0777, Mtime: time.Now(), Ino: f.inos}
		par.Kids[name] = n
		f.mutated(t, "create", real)
	} else if n.IsDir() {
		if wr {
			return nil, perr("open", p, syscall.EISDIR)
		}
	} else if strings.HasSuffix(p, "/") {
		return nil, perr("open", p, syscall.ENOTDIR)
	} else if wr && flag&OTrunc != 0 && len(n.Data) > 0 {
		f.Used -= int64(len(n.Data))
		n.Data = nil
		n.Mtime = time.Now()
		f.mutated(t, "truncate", real)
	}
	return &File{f: f, n: n, name: p, real: real, flag: flag}, nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 99 }
func (h *File) Close() error {
	if h == nil {
		return syscall.EINVAL
	}
	if h.std != nil {
		return nil
	}
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	_, err, _ := h.f.op("close", h.name)
	return perr("close", h.name, err)
}

func (h *File) Read(b []byte) (int, error) {
	n, err := h.ReadAt(b, h.off)
	h.off += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if h.std != nil {
		return 0, io.EOF
	}
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	_, ferr, short := h.f.op("read", h.name)
	if ferr != nil {
		k := 0
		if short > 0 && off < int64(len(h.n.Data)) {
			k = copy(b[:min(short, len(b))], h.n.Data[off:])
		}
		return k, perr("read", h.name, ferr)
	}
	if h.n.IsDir() {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.flag&OWronly != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if off >= int64(len(h.n.Data)) {
		return 0, io.EOF
	}
	k := copy(b, h.n.Data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (h *File) Write(b []byte) (int, error) {
	if h.std != nil {
		return h.std.Write(b)
	}
	if h.flag&OAppend != 0 {
		h.off = int64(len(h.n.Data))
	}
	n, err := h.WriteAt(b, h.off)
	h.off += int64(n)
	return n, err
}

// chunk is the unit in which large writes reach the file, so that a crash can
// fall in the middle of one.
const chunk = 512

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	if h.flag&(OWronly|ORdwr) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	done := 0
	for first := true; first || done < len(b); first = false {
		t, ferr, short := h.f.op("write", h.name)
		part := b[done:]
		if len(part) > chunk {
			part = part[:chunk]
		}
		if ferr != nil {
			if short > len(part) {
				short = len(part)
			}
			part = part[:short]
		}
		if h.f.Capacity > 0 && h.f.Used+int64(len(part)) > h.f.Capacity && ferr == nil {
			room := h.f.Capacity - h.f.Used
			if room < 0 {
				room = 0
			}
			if int64(len(part)) > room {
				part = part[:room]
			}
			ferr = syscall.ENOSPC
		}
		if len(part) > 0 {
			end := off + int64(done) + int64(len(part))
			nd := make([]byte, max(int64(len(h.n.Data)), end))
			copy(nd, h.n.Data)
			copy(nd[off+int64(done):], part)
			h.f.Used += int64(len(nd) - len(h.n.Data))
			h.n.Data = nd
			h.n.Mtime = time.Now()
			h.f.mutated(t, "write", h.real)
			done += len(part)
		}
		if ferr != nil {
			return done, perr("write", h.name, ferr)
		}
	}
	return done, nil
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) Sync() error {
	if h.std != nil {
		return nil
	}
	_, err, _ := h.f.op("sync", h.name)
	return perr("sync", h.name, err)
}
func (h *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		h.off = off
	case 1:
		h.off += off
	case 2:
		h.off = int64(len(h.n.Data)) + off
	}
	return h.off, nil
}
func (h *File) Truncate(size int64) error {
	t, ferr, _ := h.f.op("truncate", h.name)
	if ferr != nil {
		return perr("truncate", h.name, ferr)
	}
	nd := make([]byte, size)
	copy(nd, h.n.Data)
	h.f.Used += int64(len(nd) - len(h.n.Data))
	h.n.Data = nd
	h.f.mutated(t, "truncate", h.real)
	return nil
}
func (h *File) Chmod(m fs.FileMode) error   { return nil }
func (h *File) Chown(int, int) error        { return nil }
func (h *File) SetDeadline(time.Time) error { return nil }
func (h *File) Stat() (fs.FileInfo, error) {
	if h.std != nil {
		return info{name: h.name, n: &Node{Mode: fs.ModeCharDevice}}, nil
	}
	_, ferr, _ := h.f.op("stat", h.name)
	if ferr != nil {
		return nil, perr("stat", h.name, ferr)
	}
	return info{path.Base(h.real), h.n, h.n.Mtime, int64(len(h.n.Data))}, nil
}
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := h.Write(b)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}
func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := h.f.ReadDir(h.name)
	if err != nil {
		return nil, err
	}
	l = l[min(h.dirPos, len(l)):]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	h.dirPos += len(l)
	return l, nil
}
func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := h.ReadDir(n)
	out := make([]fs.FileInfo, 0, len(l))
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (h *File) Readdirnames(n int) ([]string, error) {
	l, err := h.ReadDir(n)
	out := make([]string, 0, len(l))
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

type info struct {
	name  string
	n     *Node
	mtime time.Time
	size  int64
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.n.Mode }
func (i info) ModTime() time.Time         { return i.mtime }
func (i info) IsDir() bool                { return i.n.IsDir() }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.n.Mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return fs.FormatFileInfo(i) }

func mkinfo(name string, n *Node) info { return info{name, n, n.Mtime, int64(len(n.Data))} }

func (f *FS) Stat(p string, follow bool) (fs.FileInfo, error) {
	_, ferr, _ := f.op("stat", p)
	if ferr != nil {
		return nil, perr("stat", p, ferr)
	}
	_, _, n, _, err := f.walk(p, follow, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return mkinfo(path.Base(p), n), nil
}

func (f *FS) Mkdir(p string, perm fs.FileMode) error {
	t, ferr, _ := f.op("mkdir", p)
	if ferr != nil {
		return perr("mkdir", p, ferr)
	}
	par, name, n, real, err := f.walk(strings.TrimRight(p, "/"), false, 0)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return perr("mkdir", p, err)
	}
	par.Kids[name] = f.newDir()
	f.mutated(t, "mkdir", real)
	return nil
}

// MkdirAll follows os.MkdirAll: lexical, creating missing parents one by one.
func (f *FS) MkdirAll(p string, perm fs.FileMode) error {
	_, _, n, _, err := f.walk(p, true, 0)
	if err == nil && n != nil {
		Op("fs.stat", p)
		if n.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	i := len(p)
	for i > 0 && p[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && p[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := f.MkdirAll(p[:j-1], perm); err != nil {
			return err
		}
	}
	err = f.Mkdir(p, perm)
	if err != nil {
		_, _, n, _, e2 := f.walk(p, false, 0)
		if e2 == nil && n != nil && n.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func (f *FS) Remove(p string) error {
	t, ferr, _ := f.op("remove", p)
	if ferr != nil {
		return perr("remove", p, ferr)
	}
	par, name, n, real, err := f.walk(p, false, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && par == nil {
		err = syscall.EBUSY
	}
	if err == nil && n.IsDir() && len(n.Kids) > 0 {
		err = syscall.ENOTEMPTY
	}
	if err != nil {
		return perr("remove", p, err)
	}
	f.Used -= int64(len(n.Data))
	delete(par.Kids, name)
	f.mutated(t, "remove", real)
	return nil
}

func (f *FS) RemoveAll(p string) error {
	t, ferr, _ := f.op("remove", p)
	if ferr != nil {
		return perr("unlinkat", p, ferr)
	}
	par, name, n, real, err := f.walk(p, false, 0)
	if errors.Is(err, syscall.ENOENT) || (err == nil && n == nil) {
		return nil
	}
	if err != nil {
		return perr("unlinkat", p, err)
	}
	if par == nil {
		return perr("unlinkat", p, syscall.EBUSY)
	}
	if n.IsDir() {
		names := make([]string, 0, len(n.Kids))
		for k := range n.Kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if err := f.RemoveAll(real + "/" + k); err != nil {
				return err
			}
		}
	}
	f.Used -= int64(len(n.Data))
	delete(par.Kids, name)
	f.mutated(t, "remove", real)
	return nil
}

func (f *FS) Rename(a, b string) error {
	t, ferr, _ := f.op("rename", b)
	lerr := func(err error) error { return fmt.Errorf("rename %s %s: %w", a, b, err) }
	if ferr != nil {
		return lerr(ferr)
	}
	pa, na, n, ra, err := f.walk(a, false, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return lerr(err)
	}
	pb, nb, old, rb, err := f.walk(b, false, 0)
	if err != nil {
		return lerr(err)
	}
	if pa == nil || pb == nil {
		return lerr(syscall.EBUSY)
	}
	if old != nil && old != n {
		if old.IsDir() && !n.IsDir() {
			return lerr(syscall.EISDIR)
		}
		if !old.IsDir() && n.IsDir() {
			return lerr(syscall.ENOTDIR)
		}
		if old.IsDir() && len(old.Kids) > 0 {
			return lerr(syscall.ENOTEMPTY)
		}
		f.Used -= int64(len(old.Data))
	}
	delete(pa.Kids, na)
	pb.Kids[nb] = n
	f.mutated(t, "rename-from", ra)
	f.mutated(t, "rename", rb)
	return nil
}

func (f *FS) Symlink(target, p string) error {
	t, ferr, _ := f.op("symlink", p)
	if ferr != nil {
		return perr("symlink", p, ferr)
	}
	par, name, n, real, err := f.walk(p, false, 0)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return perr("symlink", p, err)
	}
	f.inos++
	par.Kids[name] = &Node{Mode: fs.ModeSymlink | 0777, Target: target, Mtime: time.Now(), Ino: f.inos}
	f.mutated(t, "symlink", real)
	return nil
}

func (f *FS) Readlink(p string) (string, error) {
	_, ferr, _ := f.op("readlink", p)
	if ferr != nil {
		return "", perr("readlink", p, ferr)
	}
	_, _, n, _, err := f.walk(p, false, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.IsLink() {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", p, err)
	}
	return n.Target, nil
}

func (f *FS) EvalSymlinks(p string) (string, error) {
	_, ferr, _ := f.op("stat", p)
	if ferr != nil {
		return "", perr("lstat", p, ferr)
	}
	_, _, n, real, err := f.walk(p, true, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return "", perr("lstat", p, err)
	}
	if !path.IsAbs(p) && strings.HasPrefix(real, f.Cwd+"/") {
		return real[len(f.Cwd)+1:], nil
	}
	return real, nil
}

func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	_, ferr, _ := f.op("readdir", p)
	if ferr != nil {
		return nil, perr("open", p, ferr)
	}
	_, _, n, _, err := f.walk(p, true, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	var out []fs.DirEntry
	for name, k := range n.Kids {
		out = append(out, mkinfo(name, k))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

func (f *FS) ReadFile(p string) ([]byte, error) {
	h, err := f.OpenFile(p, ORdonly, 0)
	if err != nil {
		return nil, err
	}
	defer func() { h.closed = true }()
	if h.n.IsDir() {
		return nil, perr("read", p, syscall.EISDIR)
	}
	_, ferr, _ := f.op("read", p)
	if ferr != nil {
		return nil, perr("read", p, ferr)
	}
	return append([]byte{}, h.n.Data...), nil
}

func (f *FS) WriteFile(p string, data []byte, perm fs.FileMode) error {
	h, err := f.OpenFile(p, OWronly|OCreate|OTrunc, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e1 := h.Close(); e1 != nil && err == nil {
		err = e1
	}
	return err
}

func (f *FS) Truncate(p string, size int64) error {
	h, err := f.OpenFile(p, OWronly, 0)
	if err != nil {
		return err
	}
	return h.Truncate(size)
}

func (f *FS) Chtimes(p string, m time.Time) error {
	_, ferr, _ := f.op("chtimes", p)
	if ferr != nil {
		return perr("chtimes", p, ferr)
	}
	n := f.lookup(p)
	if n == nil {
		return perr("chtimes", p, syscall.ENOENT)
	}
	n.Mtime = m
	return nil
}

func (f *FS) TempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	f.tmpSeq++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return strings.TrimRight(dir, "/") + "/" + pre + fmt.Sprint(1000000+f.tmpSeq) + suf
}
