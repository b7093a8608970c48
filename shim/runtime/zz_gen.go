// Code generated from the exported names of runtime. DO NOT EDIT.

package runtime

import zzreal "runtime"

var BlockProfile = zzreal.BlockProfile
type BlockProfileRecord = zzreal.BlockProfileRecord
var Breakpoint = zzreal.Breakpoint
var CPUProfile = zzreal.CPUProfile
type Cleanup = zzreal.Cleanup
const Compiler = zzreal.Compiler
type Error = zzreal.Error
const GOARCH = zzreal.GOARCH
const GOOS = zzreal.GOOS
var GOROOT = zzreal.GOROOT
var Goexit = zzreal.Goexit
var GoroutineProfile = zzreal.GoroutineProfile
var LockOSThread = zzreal.LockOSThread
var MemProfile = zzreal.MemProfile
var MemProfileRate = zzreal.MemProfileRate
type MemProfileRecord = zzreal.MemProfileRecord
type MemStats = zzreal.MemStats
var MutexProfile = zzreal.MutexProfile
type PanicNilError = zzreal.PanicNilError
type Pinner = zzreal.Pinner
var ReadTrace = zzreal.ReadTrace
var SetCPUProfileRate = zzreal.SetCPUProfileRate
var SetCgoTraceback = zzreal.SetCgoTraceback
var SetDefaultGOMAXPROCS = zzreal.SetDefaultGOMAXPROCS
var SetFinalizer = zzreal.SetFinalizer
type StackRecord = zzreal.StackRecord
var StartTrace = zzreal.StartTrace
var StopTrace = zzreal.StopTrace
var ThreadCreateProfile = zzreal.ThreadCreateProfile
type TypeAssertionError = zzreal.TypeAssertionError
var UnlockOSThread = zzreal.UnlockOSThread
