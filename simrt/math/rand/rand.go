// Package rand replaces math/rand in simulated code: the simulator decides.
package rand

import "verif.local/simrt/rt"

type Source interface{ Int63() int64 }
type Rand struct{}
type src struct{}

func (src) Int63() int64 { return Int63() }

func NewSource(int64) Source { return src{} }
func New(Source) *Rand       { return &Rand{} }
func Seed(int64)             {}
func Int63() int64           { return int64(rt.Choose(1<<30))<<30 | int64(rt.Choose(1<<30)) }
func Int() int               { return int(Int63()) }
func Int31() int32           { return int32(rt.Choose(1 << 30)) }
func Uint32() uint32         { return uint32(Int63()) }
func Uint64() uint64         { return uint64(Int63()) }
func Intn(n int) int         { return rt.Choose(n) }
func IntN(n int) int         { return rt.Choose(n) }
func N(n int) int            { return rt.Choose(n) }
func Int31n(n int32) int32   { return int32(rt.Choose(int(n))) }
func Int63n(n int64) int64   { return int64(rt.Choose(int(n))) }
func Float64() float64       { return float64(rt.Choose(1<<30)) / (1 << 30) }
func Float32() float32       { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := 0; i < n-1; i++ {
		swap(i, i+rt.Choose(n-i))
	}
}
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
