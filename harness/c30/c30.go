// Package c30: where the agent's log messages go.
package c30

import (
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/log"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var denied = errors.New("denied")

// message is one line of a log.
type message struct {
	level string
	text  string
}

// put logs a message with a symbolic text on one of the four levels, in one of three ways.
func put(level int) message {
	text := "m" + vrt.String("text", 2) + "e"
	for i := 1; i < 3; i++ {
		vrt.Assume(text[i] != '\n')
	}
	l := []*log.Logger{logger.Trace, logger.Info, logger.Warning, logger.Error}[level]
	switch vrt.Choose("way", 3) {
	case 0:
		l.Println(text)
	case 1:
		l.Printf("%s", text)
	default:
		l.Print(text)
	}
	return message{[]string{"trace", "info", "warning", "error"}[level], text}
}

// holds asserts that a log is former followed by a line for each of the messages.
func holds(b []byte, former string, ms []message, what string) {
	vrt.Assert(len(b) >= len(former) && string(b[:len(former)]) == former, "the former contents of "+what+" are lost")
	b = b[len(former):]
	for _, m := range ms {
		n := 0
		for n < len(b) && b[n] != '\n' {
			n++
		}
		vrt.Assert(n < len(b), "a message is missing in "+what)
		line := b[:n]
		b = b[n+1:]
		vrt.Assert(len(line) >= len(m.level)+len(m.text), "a message is not complete in "+what)
		vrt.Assert(string(line[:len(m.level)]) == m.level, "a message has another level in "+what)
		vrt.Assert(hcommon.Same(line[len(line)-len(m.text):], []byte(m.text)), "a message is changed in "+what)
	}
	vrt.Assert(len(b) == 0, "more than the messages is in "+what)
}

// H_Log: every message goes to the file and the standard output or error.
func H_Log() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	vrt.Bound("2 (3 in thorough) messages on any levels, written in any of three ways, two bytes of each arbitrary; the folder given or not, or no current folder; the log folder missing, empty or with a log; the folder or file not to be opened; the log set up once or twice")
	log.Record = true
	os.Unsetenv("SCOUTER_AGENT_HOME")
	home := "/work/scouter"
	switch vrt.Choose("home", 3) {
	case 0:
		home = "/srv/agent"
		os.Setenv("SCOUTER_AGENT_HOME", home)
	case 1:
		os.NoCwd = denied
		home = "/tmp/scouter"
	}
	for _, f := range os.Files() {
		os.Remove(f)
	}
	path := home + "/logs/scouter.log"
	former := ""
	if vrt.Choose("former", 2) == 1 {
		former = "former\n"
		os.Put(path, []byte(former))
	}
	fault := vrt.Choose("fault", 3)
	os.Fault = func(op, p string) error {
		if fault == 1 && op == "openw" && p == path || fault == 2 && op == "mkdir" && former == "" {
			return denied
		}
		return nil
	}
	out, err := len(os.Written(os.Stdout)), len(os.Written(os.Stderr))
	logger.Init()
	var all, stdout, stderr []message
	for i := 0; i < n; i++ {
		if i == 1 && vrt.Choose("again", 2) == 1 {
			logger.Init()
		}
		level := vrt.Choose("level", 4)
		m := put(level)
		all = append(all, m)
		if level == 3 {
			stderr = append(stderr, m)
		} else {
			stdout = append(stdout, m)
		}
	}
	holds(os.Written(os.Stdout)[out:], "", stdout, "the standard output")
	holds(os.Written(os.Stderr)[err:], "", stderr, "the standard error")
	logs := 0
	for _, f := range os.Files() {
		if f == path {
			logs++
		} else {
			vrt.Fail("the log is written to another file")
		}
	}
	text, _ := os.Get(path)
	if fault == 0 || fault == 2 && former != "" {
		vrt.Assert(logs == 1, "there is no log")
		holds(text, former, all, "the log")
		vrt.Cover("logged")
	} else if former != "" {
		holds(text, former, nil, "the log")
	} else {
		vrt.Assert(logs == 0, "a log that could not be opened is there")
		vrt.Cover("no log")
	}
}
