// Code generated from the exported names of path/filepath. DO NOT EDIT.

package filepath

import zzreal "path/filepath"

var Base = zzreal.Base
var Clean = zzreal.Clean
var Dir = zzreal.Dir
var ErrBadPattern = zzreal.ErrBadPattern
var Ext = zzreal.Ext
var FromSlash = zzreal.FromSlash
var HasPrefix = zzreal.HasPrefix
var IsAbs = zzreal.IsAbs
var IsLocal = zzreal.IsLocal
var Join = zzreal.Join
const ListSeparator = zzreal.ListSeparator
var Localize = zzreal.Localize
var Match = zzreal.Match
var Rel = zzreal.Rel
const Separator = zzreal.Separator
var SkipAll = zzreal.SkipAll
var SkipDir = zzreal.SkipDir
var Split = zzreal.Split
var SplitList = zzreal.SplitList
var ToSlash = zzreal.ToSlash
var VolumeName = zzreal.VolumeName
type WalkFunc = zzreal.WalkFunc
