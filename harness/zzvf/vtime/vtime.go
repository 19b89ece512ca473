// Package vtime stands in for package time when a harness is replayed.
package vtime

import (
	"time"

	"github.com/folbricht/routedns/zzvf"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	RFC822      = time.RFC822
	Kitchen     = time.Kitchen
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Now() Time                    { return zzvf.Now() }
func Since(t Time) Duration        { return zzvf.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(zzvf.Now()) }
func Unix(s, n int64) Time         { return time.Unix(s, n) }
func UnixMilli(n int64) Time       { return time.UnixMilli(n) }
func Sleep(d Duration)             { zzvf.Sleep(d) }
func After(d Duration) <-chan Time { return zzvf.NewTimer(d, nil).C }

func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func LoadLocation(s string) (*Location, error) { return time.LoadLocation(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}

// Timer mirrors time.Timer.
type Timer struct {
	C <-chan Time
	t *zzvf.Timer
}

func NewTimer(d Duration) *Timer {
	t := zzvf.NewTimer(d, nil)
	return &Timer{C: t.C, t: t}
}
func AfterFunc(d Duration, f func()) *Timer { return &Timer{t: zzvf.NewTimer(d, f)} }
func (t *Timer) Stop() bool                 { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool      { return t.t.Reset(d) }

// Ticker mirrors time.Ticker; it ticks with FireTimers only.
type Ticker struct {
	C <-chan Time
	t *zzvf.Timer
}

func NewTicker(d Duration) *Ticker {
	t := zzvf.NewTimer(d, nil)
	return &Ticker{C: t.C, t: t}
}
func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Reset(d) }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
