// Package rt is the simulator core: one stream of choices decides everything
// (operations, sizes, schedules, faults), and a cooperative scheduler runs the
// simulated tasks one at a time.
package rt

// MaxChoices bounds the choices of one run.
const MaxChoices = 1 << 20

var (
	choices  [MaxChoices]uint32 // choices made in this run, in order
	nchoices int
	script   []uint32 // replay: choices to take
	scripted bool
	rngState uint64
)

//go:norace
func next64() uint64 {
	rngState += 0x9E3779B97F4A7C15
	z := rngState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix hashes two words; used to derive run seeds.
func Mix(a, b uint64) uint64 {
	z := a ^ (b+0x9E3779B97F4A7C15)*0xBF58476D1CE4E5B9
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func take(n uint32, gen func(n uint32) uint32) uint32 {
	var v uint32
	if scripted {
		if nchoices < len(script) {
			v = script[nchoices]
		}
		if v >= n {
			v = n - 1
		}
	} else {
		v = gen(n)
	}
	if nchoices < MaxChoices {
		choices[nchoices] = v
	}
	nchoices++
	return v
}

//go:norace
func genUniform(n uint32) uint32 { return uint32(next64() % uint64(n)) }

// Choose returns a value in [0,n). Zero is by convention the simplest value.
//
//go:norace
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(take(uint32(n), genUniform))
}

// OneIn is true once in n times on average; false is the simple value.
//
//go:norace
func OneIn(n int) bool {
	if n <= 1 {
		return take(2, func(uint32) uint32 { return 1 }) == 1
	}
	return take(2, func(uint32) uint32 {
		if next64()%uint64(n) == 0 {
			return 1
		}
		return 0
	}) == 1
}

// Weighted returns an index with the given weights.
//
//go:norace
func Weighted(w ...int) int {
	return int(take(uint32(len(w)), func(uint32) uint32 {
		sum := 0
		for _, x := range w {
			sum += x
		}
		r := int(next64() % uint64(sum))
		for i, x := range w {
			if r < x {
				return uint32(i)
			}
			r -= x
		}
		return 0
	}))
}

// Log returns a value in [0, 2^maxBits), small values being as likely as large ones.
func Log(maxBits int) int {
	b := Choose(maxBits + 1)
	if b == 0 {
		return 0
	}
	lo := 1 << uint(b-1)
	return lo + Choose(lo)
}

// Range returns a value in [lo,hi].
func Between(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + Choose(hi-lo+1)
}

// Edge picks a power of two between 1<<lo and 1<<hi, or one less or more.
func Edge(lo, hi int) int {
	return 1<<uint(Between(lo, hi)) + Choose(3) - 1
}

// Choices returns a copy of the choices made so far.
func Choices() []uint32 {
	n := nchoices
	if n > MaxChoices {
		n = MaxChoices
	}
	return append([]uint32(nil), choices[:n]...)
}

// NChoices is the number of choices made so far.
func NChoices() int { return nchoices }

// Terminal receives what the simulated programs print; nil: nobody looks.
var Terminal func(string)
