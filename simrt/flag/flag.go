// Package flag is the flag package for programs that run many times in one process:
// every run starts with the command line flags as they were after initialization.
package flag

import (
	"errors"
	real "flag"
	"io"
	"time"

	"verif.local/simrt/os"
	"verif.local/simrt/rt"
)

func init() { rt.OnReset(func() { CommandLine, booted, early = fresh(), false, nil }) }

type (
	Flag          = real.Flag
	FlagSet       = real.FlagSet
	Value         = real.Value
	Getter        = real.Getter
	ErrorHandling = real.ErrorHandling
)

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ExitOnError
	PanicOnError    = real.PanicOnError
)

var (
	ErrHelp     = real.ErrHelp
	CommandLine = fresh()
	Usage       = func() { CommandLine.PrintDefaults() }

	booted bool
	early  []Flag // defined by package-level variables
)

func fresh() *FlagSet {
	f := real.NewFlagSet("prog", real.ContinueOnError)
	f.SetOutput(io.Discard)
	return f
}

// Boot starts a program run with the given arguments.
func Boot(args ...string) {
	if !booted {
		booted = true
		CommandLine.VisitAll(func(f *Flag) { early = append(early, *f) })
	}
	CommandLine = fresh()
	for _, f := range early {
		_ = f.Value.Set(f.DefValue)
		CommandLine.Var(f.Value, f.Name, f.Usage)
	}
	os.Args = append([]string{"/usr/local/bin/prog"}, args...)
}

// NewFlagSet makes a flag set.
func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	if h == ExitOnError {
		h = PanicOnError
	}
	return real.NewFlagSet(name, h)
}

// Parse parses the arguments of this run.
func Parse() {
	if err := CommandLine.Parse(os.Args[1:]); errors.Is(err, ErrHelp) {
		os.Exit(0)
	} else if err != nil {
		os.Exit(2)
	}
}

func Parsed() bool                          { return CommandLine.Parsed() }
func Arg(i int) string                      { return CommandLine.Arg(i) }
func Args() []string                        { return CommandLine.Args() }
func NArg() int                             { return CommandLine.NArg() }
func NFlag() int                            { return CommandLine.NFlag() }
func PrintDefaults()                        { CommandLine.PrintDefaults() }
func Lookup(name string) *Flag              { return CommandLine.Lookup(name) }
func Set(name, v string) error              { return CommandLine.Set(name, v) }
func Visit(fn func(*Flag))                  { CommandLine.Visit(fn) }
func VisitAll(fn func(*Flag))               { CommandLine.VisitAll(fn) }
func UnquoteUsage(f *Flag) (string, string) { return real.UnquoteUsage(f) }

func Var(v Value, name, usage string)                    { CommandLine.Var(v, name, usage) }
func Func(name, usage string, fn func(string) error)     { CommandLine.Func(name, usage, fn) }
func Bool(name string, v bool, usage string) *bool       { return CommandLine.Bool(name, v, usage) }
func BoolVar(p *bool, name string, v bool, usage string) { CommandLine.BoolVar(p, name, v, usage) }
func Int(name string, v int, usage string) *int          { return CommandLine.Int(name, v, usage) }
func IntVar(p *int, name string, v int, usage string)    { CommandLine.IntVar(p, name, v, usage) }
func Int64(name string, v int64, usage string) *int64    { return CommandLine.Int64(name, v, usage) }
func Int64Var(p *int64, name string, v int64, usage string) {
	CommandLine.Int64Var(p, name, v, usage)
}
func Uint(name string, v uint, usage string) *uint       { return CommandLine.Uint(name, v, usage) }
func UintVar(p *uint, name string, v uint, usage string) { CommandLine.UintVar(p, name, v, usage) }
func Uint64(name string, v uint64, usage string) *uint64 { return CommandLine.Uint64(name, v, usage) }
func Uint64Var(p *uint64, name string, v uint64, usage string) {
	CommandLine.Uint64Var(p, name, v, usage)
}
func Float64(name string, v float64, usage string) *float64 {
	return CommandLine.Float64(name, v, usage)
}
func Float64Var(p *float64, name string, v float64, usage string) {
	CommandLine.Float64Var(p, name, v, usage)
}
func String(name, v, usage string) *string       { return CommandLine.String(name, v, usage) }
func StringVar(p *string, name, v, usage string) { CommandLine.StringVar(p, name, v, usage) }
func Duration(name string, v time.Duration, usage string) *time.Duration {
	return CommandLine.Duration(name, v, usage)
}
func DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	CommandLine.DurationVar(p, name, v, usage)
}
