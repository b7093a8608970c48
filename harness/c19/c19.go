// Package c19: the collector's file commands stay within the dump folders.
package c19

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// Files outside of the dump folders that names with dots and slashes could reach.
var outside = []string{
	"/pprof", "/approf", "/r/pprof", "/r/approf", "/r/a/pprof", "/r/a/approf", "/a/pprof", "/work/pprof", "/work/approf", "/work/aapprof", "/work/aa", "/r/aapprof", "/tmp/aa", "/work/app.pprof",
	"/r/dump.a", "/r/dumpa", "/r/binary_dumpa/pprof", "/r/binary_dumppprof", "/r/dumppprof",
}

func setup() *hcommon.Server {
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	os.Setenv("SCOUTER_AGENT_HOME", "/r")
	strace.StartTracingMode()
	hconf.Set()
	for _, f := range outside {
		os.Put(f, []byte("SECRET "+f))
	}
	os.Put("/r/dump/a", []byte("text a"))
	os.Put("/r/dump/approf", []byte("text b"))
	os.Put("/r/dump/pprof", []byte("text c"))
	os.Put("/r/binary_dump/a", []byte("bin a"))
	os.Put("/r/binary_dump/approf.a", []byte("bin d"))
	os.Put("/r/binary_dump/pprofa", []byte("bin e"))
	os.Put("/r/binary_dump/approff", []byte("bin f"))
	os.Put("/r/binary_dump/pprof", []byte("bin b"))
	os.Put("/r/binary_dump/approf", []byte("bin c"))
	s := hcommon.NewServer()
	s.Hello()
	return s
}

func try(s *hcommon.Server, cmd int, name string) {
	os.Ops = nil
	before := len(os.Files())
	got := ""
	removed := false
	switch cmd {
	case 0, 1:
		var blobs [][]byte
		if cmd == 0 {
			blobs = s.Blobs("OBJECT_DUMP_FILE_DETAIL", hcommon.Param{Key: "name", Text: name})
		} else {
			blobs = s.Blobs("OBJECT_DOWNLOAD_HEAP_DUMP", hcommon.Param{Key: "fileName", Text: name})
		}
		for _, b := range blobs {
			got += string(b)
		}
	case 2:
		v := s.Call("OBJECT_DELETE_HEAP_DUMP", hcommon.Param{Key: "delfileName", Text: name})
		vrt.Assert(v != nil && v.Get("success") != nil, "a deletion is not answered")
		removed = v.Get("success").B
	}
	for _, f := range outside {
		b, ok := os.Get(f)
		vrt.Assert(ok && string(b) == "SECRET "+f, "a file outside of the dump folders is removed or changed")
	}
	vrt.Assert(len(got) < 6 || got[:6] != "SECRET", "a file outside of the dump folders is handed out")
	switch {
	case cmd == 0:
		_, ok := os.Get("/r/dump/" + name)
		vrt.Assert(len(os.Files()) == before, "reading a file removes one")
		vrt.Assert(got == "" || got[:4] == "text", "the contents are not those of a file of the dump folder")
		if ok && plain(name) {
			vrt.Cover("read")
			vrt.Assert(got != "", "a file of the dump folder is not handed out")
		}
	case cmd == 1:
		vrt.Assert(len(os.Files()) == before, "reading a file removes one")
		vrt.Assert(got == "" || got == "bin b" || got == "bin c", "the contents are not those of a file of the binary dump folder")
		if plain(name) && name == "approf" {
			vrt.Cover("read")
			vrt.Assert(got == "bin c", "a file of the binary dump folder is not handed out")
		}
	case cmd == 2:
		gone := 0
		for _, f := range []string{"/r/binary_dump/pprof", "/r/binary_dump/approf"} {
			if _, ok := os.Get(f); !ok {
				gone++
			}
		}
		vrt.Assert(before-len(os.Files()) == gone, "a file is removed that is not a dump of the binary dump folder")
		vrt.Assert((gone == 1) == removed && gone <= 1, "the answer does not tell whether a file was removed")
		if name == "approf" {
			vrt.Cover("removed")
			_, ok := os.Get("/r/binary_dump/approf")
			vrt.Assert(!ok, "a file of the binary dump folder is not removed")
		}
	}
}

func plain(name string) bool {
	for i := 0; i < len(name); i++ {
		if name[i] == '/' || name[i] == '.' {
			return false
		}
	}
	return true
}

// H_Any: any short name.
func H_Any() {
	vrt.Bound("names of up to 9 (12 in thorough) of the characters '.', '/', 'a', followed by nothing, \"pprof\" or \"approf\"; each command; files with such names at every place they could lead to")
	vrt.MustCover("read")
	vrt.MustCover("removed")
	s := setup()
	n := 9
	if vrt.Thorough() {
		n = 12
	}
	name := vrt.StringOver("name", vrt.Choose("len", n+1), "./a") + []string{"pprof", "approf", ""}[vrt.Choose("suffix", 3)]
	try(s, vrt.Choose("cmd", 3), name)
}

// H_Known: longer ways out.
func H_Known() {
	vrt.Bound("a list of longer and absolute names")
	s := setup()
	names := []string{"../../../../../pprof", "/pprof", "/r/pprof", "//pprof", "..//..//pprof", "a/../../pprof", "a/../../../r/a/pprof", "../binary_dump/../pprof", "../dump/../../r/approf",
		"../binary_dumpa/pprof", "/../pprof", "./../../pprof", "../binary_dumppprof", "../dumppprof", "../dump.a", "../dumpa", "../../work/app.pprof", "../../etc/scouter.conf", "approf.a", "pprofa", "approff", "a"}
	try(s, vrt.Choose("cmd", 3), names[vrt.Choose("name", len(names))])
}
