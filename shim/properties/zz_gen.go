package properties

import zzreal "github.com/magiconair/properties"

type Encoding = zzreal.Encoding
type Properties = zzreal.Properties
type Loader = zzreal.Loader
type ErrorHandlerFunc = zzreal.ErrorHandlerFunc
type LogHandlerFunc = zzreal.LogHandlerFunc

const (
	UTF8       = zzreal.UTF8
	ISO_8859_1 = zzreal.ISO_8859_1
)

var NewProperties = zzreal.NewProperties
var LoadMap = zzreal.LoadMap
var PanicHandler = zzreal.PanicHandler
