// Package rand is package crypto/rand drawn from the run's seed.
package rand

import (
	"io"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.RandU64())
	}
	return len(p), nil
}

// Reader is deterministic.
var Reader io.Reader = rd{}

// Read fills p.
func Read(p []byte) (int, error) { return Reader.Read(p) }
