package vrt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
)

// Native side: inputs come from the file named by VERIF_INPUT.

type inRec struct {
	K string `json:"k"`
	N string `json:"n"`
	V string `json:"v"`
}

type inFile struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []inRec `json:"inputs"`
}

var (
	nativeIn       inFile
	nativePos      int
	nativeThorough bool
)

func nativeExit(code int, msg string) {
	fmt.Println(msg)
	os.Exit(code)
}

func nativeFail(msg string) {
	nativeExit(3, "VERIF-FAIL "+msg)
}

func next(k, name string) inRec {
	if nativePos >= len(nativeIn.Inputs) {
		nativeExit(4, "VERIF-DESYNC no input left for "+name)
	}
	r := nativeIn.Inputs[nativePos]
	nativePos++
	if r.K != k || r.N != name {
		nativeExit(4, "VERIF-DESYNC want "+k+" "+name+", have "+r.K+" "+r.N)
	}
	return r
}

func readNum(k, name string) uint64 {
	r := next(k, name)
	v, err := strconv.ParseUint(r.V, 10, 64)
	if err != nil {
		nativeExit(4, "VERIF-DESYNC bad number")
	}
	return v
}

func readBytes(k, name string, n int) []byte {
	r := next(k, name)
	b, err := hex.DecodeString(r.V)
	if err != nil || len(b) != n {
		nativeExit(4, fmt.Sprintf("VERIF-DESYNC %s has %d bytes, want %d", name, len(b), n))
	}
	return b
}

func nativeObs(name string, v int64)     { fmt.Printf("OBS %s %d\n", name, v) }
func nativeObsStr(name string, v string) { fmt.Printf("OBS %s x%x\n", name, v) }

// RunNative runs the harness named by the input file.
func RunNative(hs map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_INPUT"))
	if err != nil {
		nativeExit(4, "VERIF-DESYNC "+err.Error())
	}
	if err := json.Unmarshal(b, &nativeIn); err != nil {
		nativeExit(4, "VERIF-DESYNC "+err.Error())
	}
	nativeThorough = nativeIn.Tier == "thorough"
	h := hs[nativeIn.Harness]
	if h == nil {
		nativeExit(4, "VERIF-DESYNC no harness "+nativeIn.Harness)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("VERIF-PANIC %v\n", r)
			debug.PrintStack()
			os.Exit(3)
		}
	}()
	h()
	if nativePos != len(nativeIn.Inputs) {
		nativeExit(4, "VERIF-DESYNC inputs left over")
	}
	nativeExit(0, "VERIF-OK")
}

// ---- threads

var toks []chan struct{}

func registerMain() {
	if len(toks) == 0 {
		toks = append(toks, make(chan struct{}))
	}
}

func newThread(id int, t *thr) {
	c := make(chan struct{})
	toks = append(toks, c)
	go func() {
		raceOff()
		<-c
		raceOn()
		defer func() {
			if r := recover(); r != nil {
				fmt.Printf("VERIF-PANIC in goroutine: %v\n", r)
				debug.PrintStack()
				os.Exit(3)
			}
		}()
		runThread(t)
	}()
}

func transfer(from, to int) {
	raceOff()
	toks[to] <- struct{}{}
	<-toks[from]
	raceOn()
}

func exitTo(to int) {
	raceOff()
	toks[to] <- struct{}{}
	raceOn()
}

var closedChans = map[uintptr]bool{}

func chanReady(ch interface{}, send bool) bool {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return false
	}
	if closedChans[v.Pointer()] {
		return true
	}
	if send {
		return v.Len() < v.Cap()
	}
	if v.Len() > 0 {
		return true
	}
	if v.Cap() > 0 {
		return false
	}
	return doneClosed(v)
}

// doneClosed tells whether a channel was closed by code that does not say so to the scheduler.
func doneClosed(v reflect.Value) bool {
	if v.Type().ChanDir()&reflect.RecvDir == 0 {
		return false
	}
	i, _, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: v}, {Dir: reflect.SelectDefault}})
	return i == 0 && !ok
}

// Close is the close built-in.
func Close(ch interface{}) {
	v := reflect.ValueOf(ch)
	v.Close()
	closedChans[v.Pointer()] = true
	epoch++
}

