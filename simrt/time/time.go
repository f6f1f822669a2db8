// Package time replaces the standard package in simulated code: the clock is the
// simulator's. Values are ordinary time.Time values.
package time

import (
	real "time"

	"verif.local/simrt/rt"
)

type (
	Time       = real.Time
	Duration   = real.Duration
	Month      = real.Month
	Weekday    = real.Weekday
	Location   = real.Location
	ParseError = real.ParseError
)

const (
	Layout      = real.Layout
	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RubyDate    = real.RubyDate
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	StampMilli  = real.StampMilli
	StampMicro  = real.StampMicro
	StampNano   = real.StampNano
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly

	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	Sunday    = real.Sunday
	Monday    = real.Monday
	Tuesday   = real.Tuesday
	Wednesday = real.Wednesday
	Thursday  = real.Thursday
	Friday    = real.Friday
	Saturday  = real.Saturday
)

var (
	UTC   = real.UTC
	Local = real.Local
)

func init() {
	rt.OnZone(func(name string, offset int) {
		Local = real.UTC
		if name != "" {
			Local = real.FixedZone(name, offset)
		}
		real.Local = Local
	})
}

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return real.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                { return real.Unix(s, ns) }
func UnixMilli(ms int64) Time              { return real.UnixMilli(ms) }
func UnixMicro(us int64) Time              { return real.UnixMicro(us) }
func Parse(layout, v string) (Time, error) { return real.Parse(layout, v) }
func ParseInLocation(layout, v string, l *Location) (Time, error) {
	return real.ParseInLocation(layout, v, l)
}
func ParseDuration(s string) (Duration, error)    { return real.ParseDuration(s) }
func FixedZone(name string, off int) *Location    { return real.FixedZone(name, off) }
func LoadLocation(name string) (*Location, error) { return real.UTC, nil }

// Now is the process's clock: the wall clock when the process started plus simulated time since.
func Now() Time             { return real.Unix(0, rt.WallNS(rt.Proc())) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { rt.Sleep(int64(d)) }

// Timer delivers one tick from a simulated background task.
type Timer struct {
	C       <-chan Time
	stopped bool
	fired   bool
	f       func()
	c       chan Time
	gen     int
}

func (t *Timer) start(d Duration) {
	t.stopped, t.fired = false, false
	t.gen++
	g := t.gen
	rt.Go0(func() {
		rt.System(true) // no goroutine of the program, so far
		rt.Sleep(int64(d))
		if t.stopped || t.gen != g {
			return
		}
		t.fired = true
		if t.f != nil {
			rt.System(false)
			t.f()
			return
		}
		rt.Select(true, rt.CaseSend[Time](t.c)(Now()))
	})
}

func (t *Timer) Stop() bool {
	was := !t.stopped && !t.fired
	t.stopped = true
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker delivers ticks from a simulated background task.
type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen int
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.gen++
	g := t.gen
	rt.Go0(func() {
		rt.System(true)
		for {
			rt.Sleep(int64(d))
			if t.gen != g {
				return
			}
			rt.Y(0)
			rt.Select(true, rt.CaseSend[Time](t.c)(Now()))
		}
	})
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func (t *Ticker) Stop()            { t.gen++ }
func (t *Ticker) Reset(d Duration) { t.start(d) }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
