// Package hconf configures the agent through its configuration file.
package hconf

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

const Path = "/etc/scouter.conf"

// Set writes "key=value" lines to the configuration file and has them read.
func Set(lines ...string) *conf.Configure {
	c := conf.GetInstance()
	os.Setenv("SCOUTER_CONFIG", Path)
	vrt.Advance(1000)
	text := ""
	for _, l := range lines {
		text += l + "\n"
	}
	os.Put(Path, []byte(text))
	c.Refresh()
	return c
}
