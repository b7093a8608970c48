// Code generated from the exported names of time. DO NOT EDIT.

package time

import zzreal "time"

const ANSIC = zzreal.ANSIC
const April = zzreal.April
const August = zzreal.August
var Date = zzreal.Date
const DateOnly = zzreal.DateOnly
const DateTime = zzreal.DateTime
const December = zzreal.December
type Duration = zzreal.Duration
const February = zzreal.February
var FixedZone = zzreal.FixedZone
const Friday = zzreal.Friday
const Hour = zzreal.Hour
const January = zzreal.January
const July = zzreal.July
const June = zzreal.June
const Kitchen = zzreal.Kitchen
const Layout = zzreal.Layout
var LoadLocation = zzreal.LoadLocation
var LoadLocationFromTZData = zzreal.LoadLocationFromTZData
var Local = zzreal.Local
type Location = zzreal.Location
const March = zzreal.March
const May = zzreal.May
const Microsecond = zzreal.Microsecond
const Millisecond = zzreal.Millisecond
const Minute = zzreal.Minute
const Monday = zzreal.Monday
type Month = zzreal.Month
const Nanosecond = zzreal.Nanosecond
const November = zzreal.November
const October = zzreal.October
var Parse = zzreal.Parse
var ParseDuration = zzreal.ParseDuration
type ParseError = zzreal.ParseError
var ParseInLocation = zzreal.ParseInLocation
const RFC1123 = zzreal.RFC1123
const RFC1123Z = zzreal.RFC1123Z
const RFC3339 = zzreal.RFC3339
const RFC3339Nano = zzreal.RFC3339Nano
const RFC822 = zzreal.RFC822
const RFC822Z = zzreal.RFC822Z
const RFC850 = zzreal.RFC850
const RubyDate = zzreal.RubyDate
const Saturday = zzreal.Saturday
const Second = zzreal.Second
const September = zzreal.September
const Stamp = zzreal.Stamp
const StampMicro = zzreal.StampMicro
const StampMilli = zzreal.StampMilli
const StampNano = zzreal.StampNano
const Sunday = zzreal.Sunday
const Thursday = zzreal.Thursday
type Time = zzreal.Time
const TimeOnly = zzreal.TimeOnly
const Tuesday = zzreal.Tuesday
var UTC = zzreal.UTC
var Unix = zzreal.Unix
const UnixDate = zzreal.UnixDate
var UnixMicro = zzreal.UnixMicro
var UnixMilli = zzreal.UnixMilli
const Wednesday = zzreal.Wednesday
type Weekday = zzreal.Weekday
