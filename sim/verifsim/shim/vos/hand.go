//go:build go1.22

package vos

import (
	"io"
	"io/fs"
	ros "os"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

type File = verifsim.File

type console struct{}

func (console) Write(b []byte) (int, error) {
	if s := verifsim.S(); s != nil && s.Console != nil {
		return s.Console.Write(b)
	}
	return len(b), nil
}

var (
	Stdin  = verifsim.NewStd("/dev/stdin", console{})
	Stdout = verifsim.NewStd("/dev/stdout", console{})
	Stderr = verifsim.NewStd("/dev/stderr", console{})
)

func d() *verifsim.FS { return verifsim.S().Disk }

func special(name string) *File {
	switch name {
	case "/dev/stdout":
		return Stdout
	case "/dev/stderr":
		return Stderr
	}
	return nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if f := special(name); f != nil {
		return f, nil
	}
	return d().OpenFile(name, flag, perm)
}
func ReadFile(name string) ([]byte, error) { return d().ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	if f := special(name); f != nil {
		_, err := f.Write(data)
		return err
	}
	return d().WriteFile(name, data, perm)
}
func Mkdir(name string, perm fs.FileMode) error    { return d().Mkdir(name, perm) }
func MkdirAll(name string, perm fs.FileMode) error { return d().MkdirAll(name, perm) }
func Remove(name string) error                     { return d().Remove(name) }
func RemoveAll(name string) error                  { return d().RemoveAll(name) }
func Rename(a, b string) error                     { return d().Rename(a, b) }
func Symlink(a, b string) error                    { return d().Symlink(a, b) }
func Link(a, b string) error {
	data, err := d().ReadFile(a)
	if err != nil {
		return err
	}
	return d().WriteFile(b, data, 0600)
}
func Readlink(n string) (string, error)       { return d().Readlink(n) }
func Stat(n string) (fs.FileInfo, error)      { return d().Stat(n, true) }
func Lstat(n string) (fs.FileInfo, error)     { return d().Stat(n, false) }
func ReadDir(n string) ([]fs.DirEntry, error) { return d().ReadDir(n) }
func Truncate(n string, size int64) error     { return d().Truncate(n, size) }
func Chmod(n string, m fs.FileMode) error     { _, err := d().Stat(n, true); return err }
func Chown(n string, u, g int) error          { _, err := d().Stat(n, true); return err }
func Chtimes(n string, a, m time.Time) error  { return d().Chtimes(n, m) }
func Getwd() (string, error)                  { return d().Cwd, nil }
func Chdir(n string) error                    { d().Cwd = d().Abs(n); return nil }
func TempDir() string                         { return "/tmp" }
func Getpid() int {
	if t := verifsim.Cur(); t != nil {
		return 1000 + t.Proc.ID
	}
	return 1000
}
func Getuid() int                       { return 1000 }
func Geteuid() int                      { return 1000 }
func Getgid() int                       { return 1000 }
func Getegid() int                      { return 1000 }
func Hostname() (string, error)         { return "simhost", nil }
func Exit(code int)                     { verifsim.Exit(code) }
func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func CreateTemp(dir, pattern string) (*File, error) {
	return d().OpenFile(d().TempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := d().TempName(dir, pattern)
	return n, d().Mkdir(n, 0700)
}
func CopyFS(dir string, fsys fs.FS) error { return syscall.ENOSYS }
func DirFS(dir string) fs.FS              { return dirFS(dir) }

type dirFS string

func (x dirFS) Open(name string) (fs.File, error) { return d().OpenFile(string(x)+"/"+name, 0, 0) }
func (x dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return d().ReadDir(string(x) + "/" + name)
}

func SameFile(a, b fs.FileInfo) bool { return a == b }
func Pipe() (r, w *File, err error)  { return nil, nil, syscall.ENOSYS }
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

var _ io.Writer = Stdout
var _ = ros.Args
