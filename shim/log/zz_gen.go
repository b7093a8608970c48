// Code generated from the exported names of log. DO NOT EDIT.

package log

import zzreal "log"

var Output = zzreal.Output
var Prefix = zzreal.Prefix
var Writer = zzreal.Writer
