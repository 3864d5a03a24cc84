// Package ioutil is package io/ioutil on the simulated file system.
package ioutil

import (
	"io/fs"
	"os"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func ReadFile(name string) ([]byte, error)                    { return simrt.ReadFile(name) }
func WriteFile(name string, b []byte, perm os.FileMode) error { return simrt.WriteFile(name, b, perm) }
func TempFile(dir, pattern string) (*simrt.File, error)       { return simrt.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return simrt.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simrt.ReadDirPath(name)
	if err != nil {
		return nil, err
	}
	r := make([]fs.FileInfo, 0, len(es))
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
