package main

import (
	"fmt"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var indexParts = []string{"internal/index (Index, Items, Node, TagSetIndex, VariantsIndex)", "pkg/dag", "amarin/binutils"}

var c07 = sim.Prop{
	ID: "C07", Quick: 60000, Thorough: 4_000_000,
	Rule: "a run applies a random history (register tags, add words, attach analyses, look up, optimize, save, reload into a fresh or used index through a reader " +
		"that splits the bytes) to a real index and a reference model and compares every answer after each generation; non-trivial: at least one save and reload of a non-empty index",
	Run: runC07, Real: indexParts, Stub: []string{"streams, amarin/logging (silent)"},
	Want: []string{"short-read", "reload-used", "reload-asked", "optimize", "extended-after-reload", "odd-letters", "generations>2", "long-word", "many-children", "huge"},
}

// hugeC07 goes past 65536 nodes: the numbers of nodes no longer fit into 16 bits.
func hugeC07(r *sim.R) {
	r.Probe("huge")
	x, m := index.New(), newModel()
	tags := genTagNames(2 + rt.Choose(6))
	numbers := prng(rt.Choose(1 << 16))
	next := func(n int) int { return numbers.n(n) }
	letters := 20 + rt.Choose(400)
	target := 65500 + rt.Choose(1500)
	if rt.OneIn(3) {
		target = rt.Edge(8, 16) - 1 // with the root
	}
	after := 100 + rt.Choose(300)
	word := func() []rune {
		w := make([]rune, 4+next(6))
		for i := range w {
			w[i] = 'a' + rune(next(letters))
		}
		return w
	}
	hugeBudget := rt.Budget{Steps: 2_000_000_000, Alloc: 400_000_000}
	var sets [][]dag.TagName
	for i := 0; i < 8; i++ {
		sets = append(sets, append([]dag.TagName{tags[rt.Choose(len(tags))]}, pickTags(tags, 2)...))
	}
	grow := func(goal int) {
		for len(m.nodes) < goal {
			w := word()
			if left := goal - len(m.nodes); len(w) > left {
				w = w[:left]
				w[left-1] = rune(0x4000 + len(m.nodes)) // never there
			}
			n, err := x.AddRunes(w)
			if err != nil {
				r.Fail("add-failed", "adding %q as node %d failed: %v", string(w), len(m.nodes), err)
				return
			}
			k := key(w)
			m.add(k)
			for j := next(3); j > 0; j-- {
				set := sets[next(len(sets))]
				if err := n.AddTagSet(set...); err != nil {
					r.Fail("attach", "attaching %q to %q failed: %v", set, string(w), err)
					return
				}
				m.attach(k, set)
			}
		}
	}
	r.Must(rt.Call(hugeBudget, func() {
		for _, t := range tags {
			x.TagID(t, "")
			m.tag(t, "")
		}
		grow(target)
	}), "filling a huge index")
	for g := 0; g < 2; g++ {
		var data []byte
		var err error
		var d string
		r.Must(rt.Call(hugeBudget, func() { data, err = save(x) }), "saving a huge index")
		if err != nil {
			r.Fail("save-failed", "saving an index of %d nodes to a healthy stream failed: %v", len(m.nodes), err)
		}
		rd := stream.NewReader(data)
		y := index.New()
		if rt.OneIn(3) {
			y = x
		}
		r.Must(rt.Call(hugeBudget, func() { err = loadInto(y, rd) }), "loading a huge index")
		if err != nil {
			r.Fail("load-failed", "loading the %d nodes just saved failed (%v): %v", len(m.nodes), rd, err)
		}
		if rd.Pos != len(data) {
			r.Fail("load-partial", "loading took %d of %d bytes (%v)", rd.Pos, len(data), rd)
		}
		x = y
		r.Must(rt.Call(hugeBudget, func() { d = differs(x, m) }), "asking a huge index")
		if d != "" {
			r.Fail("answers-after-load", "after reloading an index of %d nodes (%v, generation %d): %s", len(m.nodes), rd, g, d)
		}
		r.Log("generation %d: %d nodes, %d words, %d bytes, %v", g, len(m.nodes), len(m.forms), len(data), rd)
		r.Shape("huge %d %d", len(m.nodes), len(m.forms))
		r.Must(rt.Call(hugeBudget, func() {
			if rt.OneIn(2) {
				x.Optimize()
			}
			grow(len(m.nodes) + after)
		}), "extending a huge index")
	}
	r.NonTrivial()
}

func runC07(r *sim.R) {
	logs(r)
	if rt.OneIn(1500) {
		hugeC07(r)
		return
	}
	x, m := index.New(), newModel()
	alpha := genAlphabet()
	if alpha[0] == 0xFFFD || alpha[0] == '-' {
		r.Probe("odd-letters")
	}
	tags := genTagNames(1 + rt.Choose(8))
	var words [][]rune
	if rt.OneIn(400) { // a very long word
		r.Probe("long-word")
		w := make([]rune, 500+rt.Choose(1000))
		for i := range w {
			w[i] = alpha[i%len(alpha)]
		}
		words = append(words, w)
	}
	if rt.OneIn(300) { // very many children of one node
		r.Probe("many-children")
		for i := 0; i < 300; i++ {
			words = append(words, []rune{'m', rune(0x100 + i)})
		}
	}
	gens := 1 + rt.Weighted(3, 3, 2, 1)
	if gens > 2 {
		r.Probe("generations>2")
	}
	for g := 0; g < gens; g++ {
		type op struct {
			kind   int // 0 add+attach 1 tag 2 lookup 3 optimize 4 attach empty 5 attach unknown tag 6 add to node
			w      []rune
			tags   []dag.TagName
			parent dag.TagName
		}
		var ops []op
		for _, w := range words {
			ops = append(ops, op{kind: 0, w: w, tags: pickTags(tags, 3)})
		}
		words = nil
		for i := 1 + rt.Choose(12); i > 0; i-- {
			o := op{kind: rt.Weighted(8, 2, 2, 2, 1, 1, 1), w: genRunes(alpha, 5)}
			switch o.kind {
			case 0:
				o.tags = pickTags(tags, 4)
			case 1:
				o.tags = []dag.TagName{tags[rt.Choose(len(tags))]}
				if rt.OneIn(2) {
					o.parent = tags[rt.Choose(len(tags))]
				}
			case 5:
				o.tags = []dag.TagName{tags[rt.Choose(len(tags))], "????"}
			}
			ops = append(ops, o)
		}
		wasLoaded := g > 0
		r.Must(rt.Call(big, func() {
			if g == 0 {
				for _, t := range tags[:(len(tags)+1)/2] {
					x.TagID(t, "")
					m.tag(t, "")
				}
			}
			for _, o := range ops {
				k := key(o.w)
				switch o.kind {
				case 0, 4, 5:
					n, err := x.AddRunes(o.w)
					if err != nil {
						r.Fail("add-failed", "adding %q failed: %v", string(o.w), err)
						return
					}
					m.add(k)
					if wasLoaded {
						rt.Probe("extended-after-reload")
					}
					err = n.AddTagSet(o.tags...)
					if ok := m.attach(k, o.tags); ok != (err == nil) {
						r.Fail("attach", "attaching %q to %q gives error %v, expected success: %v", o.tags, string(o.w), err, ok)
						return
					}
				case 1:
					x.TagID(o.tags[0], o.parent)
					m.tag(o.tags[0], o.parent)
				case 2:
					n, err := x.FetchRunes(o.w)
					if m.nodes[k] != (err == nil) {
						r.Fail("lookup", "looking up %q gives %v, expected found: %v", string(o.w), err, m.nodes[k])
						return
					}
					if err == nil {
						_ = n.String()
					}
				case 3:
					rt.Probe("optimize")
					x.Optimize()
				case 6:
					n, err := x.FetchRunes(o.w[:1])
					if err != nil || len(o.w) < 2 {
						continue
					}
					p, ok := n.(*index.Node)
					if !ok {
						continue
					}
					if _, err := x.AddToNode(p.Id(), o.w[1:]); err != nil {
						r.Fail("add-failed", "adding %q below %q failed: %v", string(o.w[1:]), string(o.w[:1]), err)
						return
					}
					m.add(k)
				}
			}
		}), "using the index")
		for _, o := range ops {
			r.Log("generation %d: op %d %q %q", g, o.kind, string(o.w), o.tags)
		}
		r.Shape("%d %d %d", len(ops), len(m.nodes), len(m.forms))
		var d string
		r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the index")
		if d != "" {
			r.Fail("answers", "before saving (generation %d): %s", g, d)
		}
		// save
		var data []byte
		var err error
		opt := rt.OneIn(2)
		r.Must(rt.Call(big, func() {
			if opt {
				x.Optimize()
			}
			data, err = save(x)
		}), "saving")
		if err != nil {
			r.Fail("save-failed", "saving to a healthy stream failed: %v", err)
		}
		r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the saved index")
		if d != "" {
			r.Fail("answers-after-save", "after saving (optimized: %v, generation %d): %s", opt, g, d)
		}
		// reload
		tail := rt.Choose(2) * rt.Choose(5)
		src := append(append([]byte(nil), data...), make([]byte, tail)...)
		rd := stream.NewReader(src)
		y := index.New()
		used := rt.OneIn(3)
		if used {
			r.Probe("reload-used")
			switch rt.Choose(3) {
			case 0: // the very index that was saved
				y = x
			case 1: // one with other contents
				a, b, fill := genIndex(3, 3)
				y = a
				r.Must(rt.Call(big, fill), "filling another index")
				if rt.OneIn(2) {
					r.Probe("reload-asked")
					r.Must(rt.Call(big, func() { d = differs(a, b) }), "asking another index")
					if d != "" {
						r.Fail("answers", "another index, before loading into it: %s", d)
					}
				}
			case 2: // the saved one changed meanwhile
				y = x
				r.Must(rt.Call(big, func() {
					n, err := y.AddRunes([]rune{'z', 'z'})
					if err == nil {
						_ = n.AddTagSet(tags[0])
						_, _, _, _ = n.Word(), n.TagSets(), x.Children(), fmt.Sprint(n)
					}
				}), "changing the index")
			}
		}
		var was, is dag.Idx
		r.Must(rt.Call(big, func() {
			if was = append(was, x.Tags()...); y == x {
				was = nil
			}
			err = loadInto(y, source(rd))
		}), "loading")
		if err != nil {
			r.Fail("load-failed", "loading what was just saved failed (%v): %v", rd, err)
		}
		if rd.Pos != len(data) && tail == 0 {
			r.Fail("load-partial", "loading took %d of %d bytes (%v)", rd.Pos, len(data), rd)
		}
		x = y
		r.Must(rt.Call(big, func() { is = x.Tags() }), "asking for the tags")
		for i := range was {
			if i >= len(is) || is[i] != was[i] {
				r.Fail("tags-after-load", "the tags were %q and are %q after reloading", was, is)
			}
		}
		r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the reloaded index")
		if d != "" {
			r.Fail("answers-after-load", "after reloading (%v, generation %d, used receiver: %v): %s", rd, g, used, d)
		}
		if len(m.nodes) > 0 {
			r.NonTrivial()
		}
		// saving the reloaded index gives the same answers once more, and the same bytes
		var again []byte
		r.Must(rt.Call(big, func() { again, err = save(x) }), "saving again")
		if err != nil {
			r.Fail("save-failed", "saving a reloaded index failed: %v", err)
		}
		if string(again) != string(data) {
			r.Fail("resave-differs", "saving a reloaded index gives other bytes (%d, was %d)", len(again), len(data))
		}
		r.Log("generation %d: %d tags %d nodes %d words %d bytes, optimized %v, used receiver %v, %v", g, len(m.tags), len(m.nodes), len(m.forms), len(data), opt, used, fmt.Sprint(rd))
	}
}
