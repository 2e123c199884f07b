//go:build go1.22

package vfilepath

import (
	"io/fs"
	"path"
	"sort"

	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/cfrpki/verifsim/shim/vos"
)

func Abs(p string) (string, error)          { return path.Clean(verifsim.S().Disk.Abs(p)), nil }
func EvalSymlinks(p string) (string, error) { return verifsim.S().Disk.EvalSymlinks(p) }

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(path.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn func(string, fs.FileInfo, error) error) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

func Glob(pattern string) ([]string, error) {
	dir, file := path.Split(pattern)
	if dir == "" {
		dir = "."
	}
	l, err := vos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range l {
		if ok, _ := path.Match(file, e.Name()); ok {
			out = append(out, path.Join(dir, e.Name()))
		}
	}
	sort.Strings(out)
	return out, nil
}
