package properties

import (
	real "github.com/magiconair/properties"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// LoadFile reads simple "key=value" lines itself, so that the engine can follow it; natively the
// real parser is used, which agrees on such files.
func LoadFile(name string, enc Encoding) (*Properties, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return Load(b, enc)
}

func MustLoadFile(name string, enc Encoding) *Properties {
	p, err := LoadFile(name, enc)
	if err != nil {
		panic(err)
	}
	return p
}

func Load(b []byte, enc Encoding) (*Properties, error) {
	if !vrt.InEngine() {
		return real.Load(b, enc)
	}
	p := real.NewProperties()
	i := 0
	for i < len(b) {
		j := i
		eq := -1
		for j < len(b) && b[j] != '\n' {
			if b[j] == '=' && eq < 0 {
				eq = j
			}
			j++
		}
		if eq >= 0 {
			// leading blanks of the value are dropped, as the real parser does
			v := eq + 1
			for v < j && (b[v] == ' ' || b[v] == '\t') {
				v++
			}
			if _, _, err := p.Set(string(b[i:eq]), string(b[v:j])); err != nil {
				return nil, err
			}
		}
		i = j + 1
	}
	return p, nil
}

func LoadString(s string) (*Properties, error) { return Load([]byte(s), UTF8) }
func MustLoadString(s string) *Properties {
	p, err := LoadString(s)
	if err != nil {
		panic(err)
	}
	return p
}
