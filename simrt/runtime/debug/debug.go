// Package debug replaces runtime/debug in simulated code: stack printing is silent.
package debug

import real "runtime/debug"

func PrintStack()                            {}
func Stack() []byte                          { return []byte("stack") }
func FreeOSMemory()                          {}
func SetGCPercent(p int) int                 { return p }
func SetMaxStack(b int) int                  { return b }
func SetMemoryLimit(l int64) int64           { return l }
func SetPanicOnFault(e bool) bool            { return false }
func ReadBuildInfo() (*real.BuildInfo, bool) { return real.ReadBuildInfo() }
