// Package strings is package strings with a Builder whose updates can interleave.
package strings

import (
	"unicode/utf8"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

// Builder is strings.Builder.
type Builder struct{ buf []byte }

func (b *Builder) app(p []byte) {
	old := simrt.RMW(b.buf)
	b.buf = append(old, p...)
}

func (b *Builder) String() string { simrt.Y(-50); return string(b.buf) }
func (b *Builder) Len() int       { return len(b.buf) }
func (b *Builder) Cap() int       { return cap(b.buf) }
func (b *Builder) Reset()         { simrt.Y(-50); b.buf = nil }
func (b *Builder) Grow(n int) {
	if n < 0 {
		panic("strings.Builder.Grow: negative count")
	}
}
func (b *Builder) Write(p []byte) (int, error)       { b.app(p); return len(p), nil }
func (b *Builder) WriteByte(c byte) error            { b.app([]byte{c}); return nil }
func (b *Builder) WriteString(s string) (int, error) { b.app([]byte(s)); return len(s), nil }
func (b *Builder) WriteRune(r rune) (int, error) {
	p := utf8.AppendRune(nil, r)
	b.app(p)
	return len(p), nil
}
