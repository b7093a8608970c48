// Package c22: dumps are complete and delivered unchanged.
package c22

import (
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/pprof"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/runtime"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var denied = errors.New("denied")
var held int

func setup() *hcommon.Server {
	vrt.SetLimit(300000000)
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	os.Setenv("SCOUTER_AGENT_HOME", "/r")
	strace.StartTracingMode()
	hconf.Set()
	s := hcommon.NewServer()
	s.Hello()
	held = os.Open_ // the agent's log
	return s
}

var sizes = []int{0, 1, 2, 253, 254, 255, 256, 299, 300, 301, 599, 600, 601, 4095, 4096, 4097, 8191, 8192, 8193, 12289}

// contents are n bytes, some of which are arbitrary.
func contents(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for i, x := range vrt.Bytes("b", 4) {
		for _, at := range []int{0, 299, 4095, n - 1} {
			if k := at + i - 1; k >= 0 && k < n {
				b[k] = x
			}
		}
	}
	return b
}

// H_Detail: a text or binary dump is delivered.
func H_Detail() {
	vrt.Bound("dumps of 24 sizes of 0..1050001 bytes around the multiples of the buffers and above 32 KB, 64 KB and 1 MB, four bytes around each boundary arbitrary; both commands")
	s := setup()
	large := append([]int{32769, 40961, 69633, 1050001}, sizes...)
	n := large[vrt.Choose("size", len(large))]
	b := contents(n)
	var blobs [][]byte
	if vrt.Choose("binary", 2) == 1 {
		os.Put("/r/binary_dump/go_cpu_1.pprof", b)
		os.Put("/r/dump/go_cpu_1.pprof", []byte("other"))
		blobs = s.Blobs("OBJECT_DOWNLOAD_HEAP_DUMP", hcommon.Param{Key: "fileName", Text: "go_cpu_1.pprof"})
	} else {
		os.Put("/r/dump/go_dump_1.log", b)
		os.Put("/r/binary_dump/go_dump_1.log", []byte("other"))
		blobs = s.Blobs("OBJECT_DUMP_FILE_DETAIL", hcommon.Param{Key: "name", Text: "go_dump_1.log"})
	}
	var got []byte
	for _, x := range blobs {
		vrt.Assert(len(x) <= 4096, "a part of a dump is larger than 4 KB")
		got = append(got, x...)
	}
	vrt.Assert(hcommon.Same(got, b), "the collector does not get the dump unchanged")
	vrt.Assert(os.Open_ == held, "a dump stays open")
}

// H_Lists: the lists of the dumps.
func H_Lists() {
	vrt.Bound("every combination of up to 4 files in each folder, any time of one of them in ms of 32 bits; a folder that is missing or cannot be read")
	s := setup()
	type file struct {
		name  string
		size  int
		mtime int64
	}
	var text, bin []file
	for i, n := range []string{"go_dump_1.log", "go_block_2.log", "x.pprof", "y"} {
		if vrt.Choose("text", 2) == 1 {
			vrt.Advance(int64(1000 * i))
			f := file{n, 300 * i, vrt.NowNS() / 1000000}
			os.Put("/r/dump/"+n, make([]byte, f.size))
			if i == 1 {
				f.mtime = int64(vrt.U32("mtime"))
				os.SetMtime("/r/dump/"+n, f.mtime*1000000)
			}
			text = append(text, f)
		}
	}
	for i, n := range []string{"go_cpu_1.pprof", "go_block_2.pprof", "x.log", "pprof.x"} {
		if vrt.Choose("bin", 2) == 1 {
			f := file{n, 70000 * i, 0}
			os.Put("/r/binary_dump/"+n, make([]byte, f.size))
			if i < 2 {
				bin = append(bin, f)
			}
		}
	}
	check := func(v *hcommon.Val, want []file, times bool) {
		vrt.Assert(v != nil && v.Get("name") != nil && v.Get("size") != nil, "the list of dumps is not answered")
		names, sizes := v.Get("name").List, v.Get("size").List
		vrt.Assert(len(names) == len(want) && len(sizes) == len(want), "the list of dumps is not that of the files")
		for _, f := range want {
			k := 0
			for i := range names {
				if names[i].S == f.name {
					k++
					vrt.Assert(sizes[i].N == int64(f.size), "a dump is listed with the wrong size")
					if times {
						vrt.Assert(v.Get("last_modified").List[i].N == f.mtime, "a dump is listed with the wrong time")
					}
				}
			}
			vrt.Assert(k == 1, "a dump is not listed once")
		}
	}
	if len(text) == 2 {
		os.Fault = func(op, p string) error {
			if p == "/r/dump" || p == "/r/binary_dump" {
				return denied
			}
			return nil
		}
		check(s.Call("OBJECT_DUMP_FILE_LIST"), nil, false)
		check(s.Call("OBJECT_LIST_HEAP_DUMP"), nil, false)
		os.Fault = nil
	}
	check(s.Call("OBJECT_DUMP_FILE_LIST"), text, true)
	check(s.Call("OBJECT_LIST_HEAP_DUMP"), bin, false)
}

// H_Sizes: the lists tell the size of any file.
func H_Sizes() {
	vrt.Bound("one file of any size below 2^62 in each folder")
	s := setup()
	size := int64(vrt.U64("size") >> 2)
	os.Put("/r/dump/a.log", nil)
	os.SetSize("/r/dump/a.log", size)
	os.Put("/r/binary_dump/b.pprof", nil)
	os.SetSize("/r/binary_dump/b.pprof", size)
	for _, c := range []string{"OBJECT_DUMP_FILE_LIST", "OBJECT_LIST_HEAP_DUMP"} {
		v := s.Call(c)
		vrt.Assert(v != nil && v.Get("size") != nil && len(v.Get("size").List) == 1, "the list of dumps is not that of the files")
		vrt.Assert(v.Get("size").List[0].N == size, "a dump is listed with the wrong size")
	}
}

// H_Delete: dumps are deleted.
func H_Delete() {
	vrt.Bound("one of three dumps, or a missing one, is deleted, twice")
	s := setup()
	names := []string{"a.pprof", "b.pprof", "c.pprof"}
	for _, n := range names {
		os.Put("/r/binary_dump/"+n, []byte(n))
	}
	which := vrt.Choose("which", 4)
	name := "d.pprof"
	if which < 3 {
		name = names[which]
	}
	for round := 0; round < 2; round++ {
		v := s.Call("OBJECT_DELETE_HEAP_DUMP", hcommon.Param{Key: "delfileName", Text: name})
		vrt.Assert(v != nil && v.Get("success") != nil && v.Get("msg") != nil, "a deletion is not answered")
		vrt.Assert(v.Get("success").B == (which < 3 && round == 0), "the answer does not tell whether the dump was deleted")
		for i, n := range names {
			_, ok := os.Get("/r/binary_dump/" + n)
			vrt.Assert(ok == (i != which), "the wrong dump is deleted")
		}
	}
}

func fresh(dir string) (names []string) {
	for _, f := range os.Files() {
		if len(f) > len(dir) && f[:len(dir)] == dir {
			names = append(names, f)
		}
	}
	return
}

// H_Threads: a dump of all goroutines.
func H_Threads() {
	vrt.Bound("goroutine dumps of 20 sizes of 0..12289 bytes, four bytes around each boundary arbitrary; a folder or file that cannot be written")
	s := setup()
	b := contents(sizes[vrt.Choose("size", len(sizes))])
	pprof.Dump = func(name string) []byte {
		vrt.Assert(name == "goroutine", "the dump is of another profile")
		return b
	}
	fault := []string{"", "openw", "write"}[vrt.Choose("fault", 3)]
	bad := fault == "openw" || fault == "write" && len(b) > 0
	os.Fault = func(op, p string) error {
		if op == fault && len(p) > 3 && p[:3] == "/r/" {
			return denied
		}
		return nil
	}
	v := s.Call("TRIGGER_THREAD_DUMP")
	vrt.Assert(v != nil, "a thread dump is not answered")
	if bad {
		vrt.Assert(v.Get("name") == nil, "a dump is named that could not be written")
		return
	}
	vrt.Assert(v.Get("name") != nil, "the dump is not named")
	name := v.Get("name").S
	const dir = "/r/dump/"
	vrt.Assert(len(name) > len(dir) && name[:len(dir)] == dir, "the dump is not in the dump folder")
	got, ok := os.Get(name)
	vrt.Assert(ok && hcommon.Same(got, b), "the dump in the file is not complete")
	vrt.Assert(pprof.Level == 2, "the goroutines of the dump are summed up")
	vrt.Assert(os.Open_ == held, "a dump stays open")
	var all []byte
	for _, x := range s.Blobs("OBJECT_DUMP_FILE_DETAIL", hcommon.Param{Key: "name", Text: name[len(dir):]}) {
		all = append(all, x...)
	}
	vrt.Assert(hcommon.Same(all, b), "the collector does not get the dump unchanged")
}

// H_Profiles: profiles of 30 seconds.
func H_Profiles() {
	vrt.Bound("each of the five profile commands, profiles of 20 sizes; a folder that cannot be written")
	s := setup()
	runtime.MutexProfileFraction = 7
	size := sizes[vrt.Choose("size", len(sizes))]
	begun := vrt.NowNS()
	pprof.Dump = func(name string) []byte {
		vrt.Assert(vrt.NowNS()-begun >= 30000000000, "a profile is written before its 30 seconds are over")
		return append([]byte(name+":"), make([]byte, size)...)
	}
	cmds := []string{"TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "OBJECT_CALL_CPU_PROFILE"}
	k := vrt.Choose("cmd", len(cmds))
	bad := vrt.Choose("fault", 2) == 1
	if bad {
		os.Fault = func(op, p string) error {
			if op == "openw" {
				return denied
			}
			return nil
		}
	}
	v := s.Raw(hcommon.Request(cmds[k]))
	vrt.Assert(vrt.NowNS()-begun < 20000000000, "the collector waits for the profile")
	vrt.Assert(len(v) > 0 && v[len(v)-1] == 4, "a profile command is not answered")
	if !bad {
		switch k {
		case 0, 2:
			vrt.Assert(runtime.BlockProfileRate > 0, "blocking is not profiled")
		case 1, 3:
			vrt.Assert(runtime.MutexProfileFraction > 0 && runtime.MutexProfileFraction != 7, "locks are not profiled")
		case 4:
			vrt.Assert(pprof.Running, "the cpu is not profiled")
		}
	}
	vrt.RunFor(40000)
	vrt.Assert(runtime.BlockProfileRate <= 0, "blocking is still profiled after the profile")
	vrt.Assert(runtime.MutexProfileFraction == 7, "the rate of lock profiling is not what it was before the profile")
	vrt.Assert(!pprof.Running, "the cpu is still profiled after the profile")
	vrt.Assert(os.Open_ == held, "a profile stays open")
	dir, ext := "/r/dump/", ".log"
	if k >= 2 {
		dir, ext = "/r/binary_dump/", ".pprof"
	}
	text, bin := fresh("/r/dump/"), fresh("/r/binary_dump/")
	if bad {
		vrt.Assert(len(text)+len(bin) == 0, "a file appears that cannot be written")
		return
	}
	vrt.Assert(len(text)+len(bin) == 1 && len(fresh(dir)) == 1, "the profile is not in one file of its folder")
	f := fresh(dir)[0]
	vrt.Assert(f[len(f)-len(ext):] == ext, "the file of the profile has another kind of name")
	b, _ := os.Get(f)
	want := pprof.Text
	if k < 4 {
		want = string(pprof.Dump([]string{"block", "mutex"}[k%2]))
		vrt.Assert((pprof.Level == 0) == (k >= 2), "a profile is written as text in the binary dump folder, or not as text in the dump folder")
	}
	vrt.Assert(string(b) == want, "the profile in the file is not complete")
}

// H_Overlap: a profile is asked for while another is being taken.
func H_Overlap() {
	vrt.Bound("each pair of the five profile commands, the second one 1, 15, 29 or 31 s after the first, any mutex profile fraction of 16 bits before")
	s := setup()
	fraction := int(vrt.U16("fraction"))
	vrt.Assume(fraction != 5 && fraction != 10)
	runtime.MutexProfileFraction = fraction
	cmds := []string{"TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "OBJECT_CALL_CPU_PROFILE"}
	first := vrt.Choose("first", len(cmds))
	second := vrt.Choose("second", len(cmds))
	gap := []int{1, 15, 29, 31}[vrt.Choose("gap", 4)]
	on := func(k int) {
		switch k {
		case 0, 2:
			vrt.Assert(runtime.BlockProfileRate > 0, "blocking is not profiled while its profile is taken")
		case 1, 3:
			vrt.Assert(runtime.MutexProfileFraction > 0 && runtime.MutexProfileFraction != fraction, "locks are not profiled while their profile is taken")
		case 4:
			vrt.Assert(pprof.Running, "the cpu is not profiled while its profile is taken")
		}
	}
	s.Raw(hcommon.Request(cmds[first]))
	on(first)
	vrt.RunFor(int64(gap*1000 - 500))
	if gap < 30 {
		on(first)
	}
	vrt.RunFor(500)
	s.Raw(hcommon.Request(cmds[second]))
	if first != 4 || second != 4 {
		on(second)
		if gap < 29 {
			on(first)
		}
		vrt.RunFor(29000)
		on(second)
	}
	vrt.RunFor(40000)
	vrt.Assert(runtime.BlockProfileRate <= 0, "blocking is still profiled after the profiles")
	vrt.Assert(runtime.MutexProfileFraction == fraction, "the rate of lock profiling is not what it was before the profiles")
	vrt.Assert(!pprof.Running, "the cpu is still profiled after the profiles")
	vrt.Assert(os.Open_ == held, "a profile stays open")
	vrt.Assert(len(fresh("/r/dump/"))+len(fresh("/r/binary_dump/")) == 2, "the profiles are not in a file each")
}
