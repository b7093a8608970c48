// Code generated from the exported names of os. DO NOT EDIT.

package os

import zzreal "os"

var Chown = zzreal.Chown
var CopyFS = zzreal.CopyFS
const DevNull = zzreal.DevNull
type DirEntry = zzreal.DirEntry
var DirFS = zzreal.DirFS
var ErrNoDeadline = zzreal.ErrNoDeadline
var ErrNoHandle = zzreal.ErrNoHandle
var ErrProcessDone = zzreal.ErrProcessDone
var Expand = zzreal.Expand
type FileInfo = zzreal.FileInfo
type FileMode = zzreal.FileMode
var FindProcess = zzreal.FindProcess
var Getegid = zzreal.Getegid
var Geteuid = zzreal.Geteuid
var Getgid = zzreal.Getgid
var Getgroups = zzreal.Getgroups
var Getpagesize = zzreal.Getpagesize
var Getppid = zzreal.Getppid
var Interrupt = zzreal.Interrupt
var IsPathSeparator = zzreal.IsPathSeparator
var IsTimeout = zzreal.IsTimeout
var Kill = zzreal.Kill
var Lchown = zzreal.Lchown
var Link = zzreal.Link
type LinkError = zzreal.LinkError
const ModeAppend = zzreal.ModeAppend
const ModeCharDevice = zzreal.ModeCharDevice
const ModeDevice = zzreal.ModeDevice
const ModeDir = zzreal.ModeDir
const ModeExclusive = zzreal.ModeExclusive
const ModeIrregular = zzreal.ModeIrregular
const ModeNamedPipe = zzreal.ModeNamedPipe
const ModePerm = zzreal.ModePerm
const ModeSetgid = zzreal.ModeSetgid
const ModeSetuid = zzreal.ModeSetuid
const ModeSocket = zzreal.ModeSocket
const ModeSticky = zzreal.ModeSticky
const ModeSymlink = zzreal.ModeSymlink
const ModeTemporary = zzreal.ModeTemporary
const ModeType = zzreal.ModeType
var NewFile = zzreal.NewFile
var NewSyscallError = zzreal.NewSyscallError
const O_APPEND = zzreal.O_APPEND
const O_CREATE = zzreal.O_CREATE
const O_EXCL = zzreal.O_EXCL
const O_RDONLY = zzreal.O_RDONLY
const O_RDWR = zzreal.O_RDWR
const O_SYNC = zzreal.O_SYNC
const O_TRUNC = zzreal.O_TRUNC
const O_WRONLY = zzreal.O_WRONLY
var OpenInRoot = zzreal.OpenInRoot
var OpenRoot = zzreal.OpenRoot
type PathError = zzreal.PathError
const PathListSeparator = zzreal.PathListSeparator
const PathSeparator = zzreal.PathSeparator
var Pipe = zzreal.Pipe
type ProcAttr = zzreal.ProcAttr
type Process = zzreal.Process
type ProcessState = zzreal.ProcessState
var Readlink = zzreal.Readlink
type Root = zzreal.Root
const SEEK_CUR = zzreal.SEEK_CUR
const SEEK_END = zzreal.SEEK_END
const SEEK_SET = zzreal.SEEK_SET
var SameFile = zzreal.SameFile
type Signal = zzreal.Signal
var StartProcess = zzreal.StartProcess
var Symlink = zzreal.Symlink
type SyscallError = zzreal.SyscallError
var UserCacheDir = zzreal.UserCacheDir
var UserConfigDir = zzreal.UserConfigDir
