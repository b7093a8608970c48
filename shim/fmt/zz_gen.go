// Code generated from the exported names of fmt. DO NOT EDIT.

package fmt

import zzreal "fmt"

var FormatString = zzreal.FormatString
type Formatter = zzreal.Formatter
var Fscan = zzreal.Fscan
var Fscanf = zzreal.Fscanf
var Fscanln = zzreal.Fscanln
type GoStringer = zzreal.GoStringer
var Scan = zzreal.Scan
type ScanState = zzreal.ScanState
var Scanf = zzreal.Scanf
var Scanln = zzreal.Scanln
type Scanner = zzreal.Scanner
var Sscan = zzreal.Sscan
var Sscanf = zzreal.Sscanf
var Sscanln = zzreal.Sscanln
type State = zzreal.State
type Stringer = zzreal.Stringer
