// Package os is package os on the simulated file system and process.
package os

import (
	"io/fs"
	"os"
	"time"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

// File is a simulated file.
type File = simrt.File

// Standard streams.
var (
	Stdin  = simrt.StdFile("stdin")
	Stdout = simrt.StdFile("stdout")
	Stderr = simrt.StdFile("stderr")
)

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	return simrt.OpenFile(name, flag, perm)
}
func Open(name string) (*File, error) { return simrt.OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return simrt.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Stat(name string) (os.FileInfo, error)                   { return simrt.Stat(name) }
func Lstat(name string) (os.FileInfo, error)                  { return simrt.Lstat(name) }
func SameFile(a, b os.FileInfo) bool                          { return simrt.SameFile(a, b) }
func Remove(name string) error                                { return simrt.Remove(name) }
func RemoveAll(name string) error                             { return simrt.RemoveAll(name) }
func Rename(a, b string) error                                { return simrt.Rename(a, b) }
func Link(a, b string) error                                  { return simrt.Link(a, b) }
func Symlink(a, b string) error                               { return simrt.Symlink(a, b) }
func Readlink(a string) (string, error)                       { return simrt.Readlink(a) }
func Mkdir(name string, perm os.FileMode) error               { return simrt.Mkdir(name, perm) }
func MkdirAll(name string, perm os.FileMode) error            { return simrt.MkdirAll(name, perm) }
func MkdirTemp(dir, pattern string) (string, error)           { return simrt.MkdirTemp(dir, pattern) }
func CreateTemp(dir, pattern string) (*File, error)           { return simrt.CreateTemp(dir, pattern) }
func ReadFile(name string) ([]byte, error)                    { return simrt.ReadFile(name) }
func WriteFile(name string, b []byte, perm os.FileMode) error { return simrt.WriteFile(name, b, perm) }
func ReadDir(name string) ([]fs.DirEntry, error)              { return simrt.ReadDirPath(name) }
func Chmod(name string, mode os.FileMode) error               { return simrt.Chmod(name, mode) }
func Chown(name string, uid, gid int) error                   { return nil }
func Lchown(name string, uid, gid int) error                  { return nil }
func Chtimes(name string, a, m time.Time) error               { return simrt.Chtimes(name, a, m) }
func Truncate(name string, size int64) error                  { return simrt.Truncate(name, size) }
func Exit(code int)                                           { simrt.Exit(code) }
func Getpid() int                                             { return simrt.Getpid() }
func Getppid() int                                            { return 1 }
func Getwd() (string, error)                                  { return simrt.Getwd(), nil }
func Chdir(d string) error                                    { return simrt.Chdir(d) }
func TempDir() string                                         { return "/tmp" }
func Hostname() (string, error)                               { return "simhost", nil }
