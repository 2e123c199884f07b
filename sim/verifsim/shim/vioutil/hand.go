//go:build go1.22

package vioutil

import (
	"io"
	"io/fs"

	"github.com/cloudflare/cfrpki/verifsim/shim/vos"
)

func ReadFile(n string) ([]byte, error)                       { return vos.ReadFile(n) }
func WriteFile(n string, data []byte, perm fs.FileMode) error { return vos.WriteFile(n, data, perm) }
func TempFile(dir, pattern string) (*vos.File, error)         { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return vos.MkdirTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)                     { return io.ReadAll(r) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(n)
	if err != nil {
		return nil, err
	}
	out := make([]fs.FileInfo, 0, len(l))
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
