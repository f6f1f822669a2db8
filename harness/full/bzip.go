package main

import (
	"bytes"
	"sort"
)

// A small bzip2 encoder: the simulated publisher needs archives, the standard
// library only reads them. Blocks and streams are cut as asked.

type bitWriter struct {
	out  []byte
	acc  uint64
	bits uint
}

func (w *bitWriter) put(v uint64, n uint) {
	for n > 0 {
		n--
		w.acc = w.acc<<1 | v>>n&1
		if w.bits++; w.bits == 8 {
			w.out = append(w.out, byte(w.acc))
			w.acc, w.bits = 0, 0
		}
	}
}

func (w *bitWriter) flush() {
	for w.bits != 0 {
		w.put(0, 1)
	}
}

var bzCRC [256]uint32

func init() {
	for i := range bzCRC {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&(1<<31) != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		bzCRC[i] = c
	}
}

func bzSum(d []byte) uint32 {
	c := ^uint32(0)
	for _, b := range d {
		c = c<<8 ^ bzCRC[byte(c>>24)^b]
	}
	return ^c
}

// bzip compresses data in blocks of blockLen bytes, every perStream blocks in a stream of their own.
func bzip(data []byte, blockLen, perStream int) []byte {
	w := &bitWriter{}
	for first := true; first || len(data) > 0; first = false {
		w.put(0x425A6831, 32) // BZh1
		var all uint32
		for n := 0; n < perStream && len(data) > 0; n++ {
			k := blockLen
			if k > len(data) {
				k = len(data)
			}
			sum := bzSum(data[:k])
			all = (all<<1 | all>>31) ^ sum
			bzBlock(w, data[:k], sum)
			data = data[k:]
		}
		w.put(0x177245385090, 48)
		w.put(uint64(all), 32)
		w.flush()
	}
	return w.out
}

func bzBlock(w *bitWriter, data []byte, sum uint32) {
	// initial run lengths
	var rle []byte
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] && j-i < 255 {
			j++
		}
		n := j - i
		if n >= 4 {
			rle = append(rle, data[i], data[i], data[i], data[i], byte(n-4))
		} else {
			rle = append(rle, data[i:j]...)
		}
		i = j
	}
	// sorted rotations
	n := len(rle)
	twice := append(append([]byte(nil), rle...), rle...)
	rot := make([]int, n)
	for i := range rot {
		rot[i] = i
	}
	sort.Slice(rot, func(a, b int) bool {
		if c := bytes.Compare(twice[rot[a]:rot[a]+n], twice[rot[b]:rot[b]+n]); c != 0 {
			return c < 0
		}
		return rot[a] < rot[b]
	})
	var used [256]bool
	for _, b := range rle {
		used[b] = true
	}
	w.put(0x314159265359, 48)
	w.put(uint64(sum), 32)
	w.put(0, 1)
	for i, r := range rot {
		if r == 0 {
			w.put(uint64(i), 24)
		}
	}
	var mtf []byte
	var groups uint64
	for g := 0; g < 16; g++ {
		for i := 0; i < 16; i++ {
			if used[g*16+i] {
				groups |= 1 << uint(15-g)
			}
		}
	}
	w.put(groups, 16)
	for g := 0; g < 16; g++ {
		if groups>>uint(15-g)&1 == 0 {
			continue
		}
		for i := 0; i < 16; i++ {
			v := uint64(0)
			if used[g*16+i] {
				v = 1
				mtf = append(mtf, byte(g*16+i))
			}
			w.put(v, 1)
		}
	}
	// move to front, zero runs
	syms := []int{}
	eob := len(mtf) + 1
	zeros := 0
	flush := func() {
		for zeros > 0 {
			if zeros&1 == 1 {
				syms = append(syms, 0)
				zeros = (zeros - 1) / 2
			} else {
				syms = append(syms, 1)
				zeros = (zeros - 2) / 2
			}
		}
	}
	for _, r := range rot {
		b := twice[r+n-1]
		k := bytes.IndexByte(mtf, b)
		copy(mtf[1:k+1], mtf[:k])
		mtf[0] = b
		if k == 0 {
			zeros++
			continue
		}
		flush()
		syms = append(syms, k+1)
	}
	flush()
	syms = append(syms, eob)
	// a complete code of nearly equal lengths
	a := eob + 1
	l := uint(1)
	for 1<<l < a {
		l++
	}
	short := 1<<l - a
	lens := make([]uint, a)
	code := make([]uint64, a)
	next := uint64(0)
	for i := range lens {
		if i < short {
			lens[i] = l - 1
			code[i] = next
			next++
			if i == short-1 {
				next <<= 1
			}
		} else {
			lens[i] = l
			code[i] = next
			next++
		}
	}
	w.put(2, 3)
	sel := (len(syms) + 49) / 50
	w.put(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		w.put(0, 1)
	}
	for t := 0; t < 2; t++ {
		at := lens[0]
		w.put(uint64(at), 5)
		for _, want := range lens {
			for at < want {
				w.put(2, 2)
				at++
			}
			for at > want {
				w.put(3, 2)
				at--
			}
			w.put(0, 1)
		}
	}
	for _, s := range syms {
		w.put(code[s], lens[s])
	}
}
