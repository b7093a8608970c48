// Code generated from the exported names of math/rand. DO NOT EDIT.

package rand

import zzreal "math/rand"

var ExpFloat64 = zzreal.ExpFloat64
var NewZipf = zzreal.NewZipf
var NormFloat64 = zzreal.NormFloat64
type Source64 = zzreal.Source64
type Zipf = zzreal.Zipf
