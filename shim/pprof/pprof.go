package pprof

import (
	"io"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var (
	Running  bool
	CPUStart int
	Text     = "profile data\n"
)

type pe struct{ s string }

func (e *pe) Error() string { return e.s }

func StartCPUProfile(w io.Writer) error {
	if Running {
		return &pe{"cpu profiling already in use"}
	}
	Running = true
	CPUStart++
	w.Write([]byte(Text))
	return nil
}
func StopCPUProfile() { Running = false }

type Profile struct{ name string }

// Names of the profiles that exist.
func Lookup(name string) *Profile {
	switch name {
	case "goroutine", "heap", "block", "mutex", "threadcreate", "allocs":
		return &Profile{name}
	}
	return nil
}
func (p *Profile) Name() string { return p.name }
func (p *Profile) Count() int   { return 1 }

// Dump is the text that WriteTo produces.
var Dump func(name string) []byte

// Level is the form that was last asked for: 0 is the pprof format, 1 text, 2 (goroutines only) each with its whole stack.
var Level = -1

func (p *Profile) WriteTo(w io.Writer, debug int) error {
	Level = debug
	b := []byte(Text)
	if Dump != nil {
		b = Dump(p.name)
	}
	_, err := w.Write(b)
	return err
}
func WriteHeapProfile(w io.Writer) error { return Lookup("heap").WriteTo(w, 0) }

var _ = vrt.NowNS
