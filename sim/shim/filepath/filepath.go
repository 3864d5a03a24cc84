// Package filepath is package path/filepath on the simulated file system.
package filepath

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(simrt.Getwd(), p), nil
}

func EvalSymlinks(p string) (string, error) { return simrt.EvalSymlinks(p) }

func names(p string) ([]string, error) {
	es, err := simrt.ReadDirPath(p)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ns, err := names(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range ns {
		f := filepath.Join(path, n)
		fi, err := simrt.Lstat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else if err = walk(f, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// Walk walks the simulated tree.
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := simrt.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

// WalkDir walks the simulated tree.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}

// Glob matches in the simulated tree.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := simrt.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		fi, err := simrt.Stat(d)
		if err != nil || !fi.IsDir() {
			continue
		}
		ns, _ := names(d)
		sort.Strings(ns)
		for _, n := range ns {
			if ok, _ := filepath.Match(file, n); ok {
				out = append(out, filepath.Join(d, n))
			}
		}
	}
	return out, nil
}

var _ = os.ErrInvalid
