// Package logging stands in for github.com/amarin/logging, which is not available
// offline. It has the same interface and does nothing, unless somebody sets Sink.
package logging

import "fmt"

// Sink receives what is logged; nil: nothing is formatted and no level enabled.
var Sink func(level Level, text string)

func put(l Level, args []interface{}) {
	if Sink != nil {
		Sink(l, fmt.Sprint(args...))
	}
}

func putf(l Level, format string, args []interface{}) {
	if Sink != nil {
		Sink(l, fmt.Sprintf(format, args...))
	}
}

// Level is a logging level.
type Level uint8

// Levels.
const (
	LevelTrace Level = iota
	LevelDebug
	LevelInfo
	LevelWarn
	LevelError
	LevelFatal
)

// Keys are structured values.
type Keys map[string]interface{}

// Logger is the logging interface.
type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(format string, args ...interface{})
	Debug(args ...interface{})
	Debugf(format string, args ...interface{})
	Info(args ...interface{})
	Infof(format string, args ...interface{})
	Warn(args ...interface{})
	Warnf(format string, args ...interface{})
	Error(args ...interface{})
	Errorf(format string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(format string, args ...interface{})
	WithKeys(keys Keys) Logger
	WithKey(key string, value interface{}) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

// Option configures logging.
type Option func()

// WithLevel sets the level.
func WithLevel(Level) Option { return func() {} }

// Init configures logging.
func Init(...Option) error { return nil }

// MustInit configures logging.
func MustInit(...Option) {}

type nop struct{}

// NewNamedLogger makes a logger.
func NewNamedLogger(string, ...Level) Logger { return nop{} }

// NewLogger makes a logger.
func NewLogger() Logger { return nop{} }

func (nop) Level() Level                         { return LevelFatal }
func (nop) IsEnabledForLevel(Level) bool         { return Sink != nil }
func (nop) Trace(a ...interface{})               { put(LevelTrace, a) }
func (nop) Tracef(f string, a ...interface{})    { putf(LevelTrace, f, a) }
func (nop) Debug(a ...interface{})               { put(LevelDebug, a) }
func (nop) Debugf(f string, a ...interface{})    { putf(LevelDebug, f, a) }
func (nop) Info(a ...interface{})                { put(LevelInfo, a) }
func (nop) Infof(f string, a ...interface{})     { putf(LevelInfo, f, a) }
func (nop) Warn(a ...interface{})                { put(LevelWarn, a) }
func (nop) Warnf(f string, a ...interface{})     { putf(LevelWarn, f, a) }
func (nop) Error(a ...interface{})               { put(LevelError, a) }
func (nop) Errorf(f string, a ...interface{})    { putf(LevelError, f, a) }
func (nop) Fatal(a ...interface{})               { put(LevelFatal, a) }
func (nop) Fatalf(f string, a ...interface{})    { putf(LevelFatal, f, a) }
func (n nop) WithKeys(Keys) Logger               { return n }
func (n nop) WithKey(string, interface{}) Logger { return n }
func (n nop) WithError(error) Logger             { return n }
func (n nop) WithLevel(Level) Logger             { return n }
