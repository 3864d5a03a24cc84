// Package log is package log writing to the simulated standard error.
package log

import (
	"fmt"
	"io"

	simos "github.com/xtfly/log4g/zzsim/shim/os"
	simsync "github.com/xtfly/log4g/zzsim/shim/sync"
	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

// Flags.
const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// Logger is a minimal log.Logger.
type Logger struct {
	mu     simsync.Mutex
	w      io.Writer
	prefix string
	flag   int
}

var std = New(simos.Stderr, "", LstdFlags)

func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{w: w, prefix: prefix, flag: flag}
}
func Default() *Logger { return std }
func (l *Logger) Output(depth int, s string) error {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	h := l.prefix
	if l.flag&(Ldate|Ltime) != 0 {
		h += simrt.Now().Format("2006/01/02 15:04:05 ")
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.w.Write([]byte(h + s))
	return err
}
func (l *Logger) SetOutput(w io.Writer)             { l.mu.Lock(); l.w = w; l.mu.Unlock() }
func (l *Logger) Writer() io.Writer                 { return l.w }
func (l *Logger) SetFlags(f int)                    { l.flag = f }
func (l *Logger) Flags() int                        { return l.flag }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Output(2, fmt.Sprint(v...)); simrt.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)); simrt.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)); simrt.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...interface{}) { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func Output(d int, s string) error         { return std.Output(d, s) }
func SetOutput(w io.Writer)                { std.SetOutput(w) }
func Writer() io.Writer                    { return std.w }
func SetFlags(f int)                       { std.SetFlags(f) }
func Flags() int                           { return std.flag }
func SetPrefix(p string)                   { std.SetPrefix(p) }
func Prefix() string                       { return std.prefix }
func Print(v ...interface{})               { std.Print(v...) }
func Printf(f string, v ...interface{})    { std.Printf(f, v...) }
func Println(v ...interface{})             { std.Println(v...) }
func Fatal(v ...interface{})               { std.Fatal(v...) }
func Fatalf(f string, v ...interface{})    { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})             { std.Fatalln(v...) }
func Panic(v ...interface{})               { std.Panic(v...) }
func Panicf(f string, v ...interface{})    { std.Panicf(f, v...) }
func Panicln(v ...interface{})             { std.Panicln(v...) }

// the standard logger's lock is released when a simulated process image starts
func init() { simrt.RegisterReset("log", func() { std = New(simos.Stderr, "", LstdFlags) }) }
