// Code generated by tools/genshim; DO NOT EDIT.

package stime

import time "time"

const ANSIC = time.ANSIC
const April = time.April
const August = time.August

var Date = time.Date

const DateOnly = time.DateOnly
const DateTime = time.DateTime
const December = time.December

type Duration = time.Duration

const February = time.February

var FixedZone = time.FixedZone

const Friday = time.Friday
const Hour = time.Hour
const January = time.January
const July = time.July
const June = time.June
const Kitchen = time.Kitchen
const Layout = time.Layout

var LoadLocation = time.LoadLocation
var LoadLocationFromTZData = time.LoadLocationFromTZData
var Local = time.Local

type Location = time.Location

const March = time.March
const May = time.May
const Microsecond = time.Microsecond
const Millisecond = time.Millisecond
const Minute = time.Minute
const Monday = time.Monday

type Month = time.Month

const Nanosecond = time.Nanosecond
const November = time.November
const October = time.October

var Parse = time.Parse
var ParseDuration = time.ParseDuration

type ParseError = time.ParseError

var ParseInLocation = time.ParseInLocation

const RFC1123 = time.RFC1123
const RFC1123Z = time.RFC1123Z
const RFC3339 = time.RFC3339
const RFC3339Nano = time.RFC3339Nano
const RFC822 = time.RFC822
const RFC822Z = time.RFC822Z
const RFC850 = time.RFC850
const RubyDate = time.RubyDate
const Saturday = time.Saturday
const Second = time.Second
const September = time.September
const Stamp = time.Stamp
const StampMicro = time.StampMicro
const StampMilli = time.StampMilli
const StampNano = time.StampNano
const Sunday = time.Sunday
const Thursday = time.Thursday

type Time = time.Time

const TimeOnly = time.TimeOnly
const Tuesday = time.Tuesday

var UTC = time.UTC
var Unix = time.Unix

const UnixDate = time.UnixDate

var UnixMicro = time.UnixMicro
var UnixMilli = time.UnixMilli

const Wednesday = time.Wednesday

type Weekday = time.Weekday
