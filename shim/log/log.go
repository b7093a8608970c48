// Package log counts messages, and writes them when Record is set.
package log

import (
	"io"
	real "log"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/fmt"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = real.LstdFlags
)

// Count is the number of messages logged so far.
var Count int

type Logger struct {
	prefix string
	flag   int
	out    io.Writer
	n      int
}

var std = &Logger{flag: LstdFlags}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{prefix: prefix, flag: flag, out: out}
}
func Default() *Logger { return std }

// Record makes the loggers write what they are given: prefix, message and an end of line.
var Record bool

func (l *Logger) line(s func() string) error {
	l.n++
	Count++
	if !Record || l.out == nil {
		return nil
	}
	t := l.prefix + s()
	if len(t) == 0 || t[len(t)-1] != '\n' {
		t += "\n"
	}
	_, err := l.out.Write([]byte(t))
	return err
}

func (l *Logger) Print(v ...interface{})            { l.line(func() string { return fmt.Sprint(v...) }) }
func (l *Logger) Printf(f string, v ...interface{}) { l.line(func() string { return fmt.Sprintf(f, v...) }) }
func (l *Logger) Println(v ...interface{})          { l.line(func() string { return fmt.Sprintln(v...) }) }
func (l *Logger) Output(d int, s string) error      { return l.line(func() string { return s }) }
func (l *Logger) Fatal(v ...interface{})           { vrt.HostExit("log.Fatal") }
func (l *Logger) Fatalf(f string, v ...interface{}) { vrt.HostExit("log.Fatalf") }
func (l *Logger) Fatalln(v ...interface{})         { vrt.HostExit("log.Fatalln") }
func (l *Logger) Panic(v ...interface{})           { panic("log.Panic") }
func (l *Logger) Panicf(f string, v ...interface{}) { panic("log.Panicf") }
func (l *Logger) Panicln(v ...interface{})         { panic("log.Panicln") }
func (l *Logger) SetFlags(f int)                   { l.flag = f }
func (l *Logger) Flags() int                       { return l.flag }
func (l *Logger) SetPrefix(p string)               { l.prefix = p }
func (l *Logger) Prefix() string                   { return l.prefix }
func (l *Logger) SetOutput(w io.Writer)            { l.out = w }
func (l *Logger) Writer() io.Writer                { return l.out }

func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { vrt.HostExit("log.Fatal") }
func Fatalf(f string, v ...interface{}) { vrt.HostExit("log.Fatalf") }
func Fatalln(v ...interface{})          { vrt.HostExit("log.Fatalln") }
func Panic(v ...interface{})            { panic("log.Panic") }
func Panicf(f string, v ...interface{}) { panic("log.Panicf") }
func Panicln(v ...interface{})          { panic("log.Panicln") }
func SetFlags(f int)                    {}
func SetPrefix(p string)                {}
func SetOutput(w io.Writer)             {}
func Flags() int                        { return std.flag }
