// Code generated from the exported names of runtime/pprof. DO NOT EDIT.

package pprof

import zzreal "runtime/pprof"

var Do = zzreal.Do
var ForLabels = zzreal.ForLabels
var Label = zzreal.Label
type LabelSet = zzreal.LabelSet
var Labels = zzreal.Labels
var NewProfile = zzreal.NewProfile
var Profiles = zzreal.Profiles
var SetGoroutineLabels = zzreal.SetGoroutineLabels
var WithLabels = zzreal.WithLabels
