// Package context is the real package, but for deadlines, which pass in virtual time.
package context

import (
	zzreal "context"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/time"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type Context = zzreal.Context
type CancelFunc = zzreal.CancelFunc
type CancelCauseFunc = zzreal.CancelCauseFunc

var Canceled = zzreal.Canceled

// DeadlineExceeded is the error of a context whose time is over.
var DeadlineExceeded error = deadlineExceeded{}

type deadlineExceeded struct{}

func (deadlineExceeded) Error() string   { return "context deadline exceeded" }
func (deadlineExceeded) Timeout() bool   { return true }
func (deadlineExceeded) Temporary() bool { return true }

func Background() Context { return zzreal.Background() }
func TODO() Context       { return zzreal.TODO() }

func WithValue(parent Context, key, val interface{}) Context {
	return zzreal.WithValue(parent, key, val)
}
func WithCancel(parent Context) (Context, CancelFunc) {
	c, f := zzreal.WithCancel(parent)
	return c, func() { f(); vrt.Touch() }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c, f := zzreal.WithCancelCause(parent)
	return c, func(e error) { f(e); vrt.Touch() }
}
func WithoutCancel(parent Context) Context { return zzreal.WithoutCancel(parent) }
func Cause(c Context) error                { return zzreal.Cause(c) }
func AfterFunc(ctx Context, f func()) func() bool {
	return zzreal.AfterFunc(ctx, f)
}

type timed struct {
	zzreal.Context
	at   time.Time
	over *bool
}

func (t timed) Deadline() (time.Time, bool) { return t.at, true }
func (t timed) Err() error {
	if *t.over {
		return DeadlineExceeded
	}
	return t.Context.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c, f := WithCancel(parent)
	over := false
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		d = p
	}
	t := time.AfterFunc(time.Until(d), func() {
		if c.Err() == nil {
			over = true
			f()
		}
	})
	return timed{c, d, &over}, func() { t.Stop(); f() }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
