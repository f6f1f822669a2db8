package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c08 = sim.Prop{
	ID: "C08", Quick: 120000, Thorough: 10_000_000,
	Rule: "2..5 simulated goroutines share one index (new, filled, or reloaded) and add words, attach analyses, register tags, look up, read analyses, children, counters and " +
		"tags, optimize, save (to healthy and failing streams) and try damaged loads; the seed picks the interleaving at every statement; the recorded history of calls, returns and " +
		"results is searched for a one-at-a-time order that respects real time and ends in the final contents; part of the runs is executed under the race detector; " +
		"non-trivial: callers really interleaved and at least one of them changed something",
	Run: runC08, Real: indexParts, Stub: []string{"sync.Mutex / RWMutex, scheduler, streams (simulated), amarin/logging (silent)"},
	Want: []string{"save", "failed-save", "failed-load", "optimize", "reloaded-index", "unknown-tag", "contended", "overlap", "bulk", "stream-write-error", "shared-prefix"},
}

const (
	opAdd = iota
	opAttach
	opFetch
	opSets
	opItem
	opWords
	opNodes
	opTag
	opTags
	opSave
	opOptimize
	opChildren
	opBadLoad
	opWord
	nOps
)

var opNames = [nOps]string{"add", "attach", "fetch", "analyses", "item", "words", "nodes", "tag", "tags", "save", "optimize", "children", "failed load", "word"}

// world is the finite universe of one run; state is the contents of the index inside it.
type world struct {
	tags  []dag.TagName
	nodes []string       // every prefix of every word
	node  map[string]int // position in nodes
	kids  []uint64       // children of each node; the last one is the root
	pairs []pair
	pair  map[pair]int      // position in pairs
	base  []dag.TagName     // parents
	bits  map[string]uint64 // word -> its prefixes
}

type pair struct{ word, analysis string }

type state struct {
	nodes  uint64
	pairs  [2]uint64
	parent [8]int8 // by tag: 0 unknown, else 1+position of its parent in base
}

func (s *state) has(p int) bool { return s.pairs[p>>6]>>(uint(p)&63)&1 == 1 }

type call struct {
	kind   int
	client int
	word   string // key
	n      int    // its node
	names  []dag.TagName
	needs  []int // tags, positions
	p      int   // pair
	tag    int
	parent int
	failAt int
	way    int  // which of the calls that mean the same
	keep   bool // tables keep their ids during the run

	begin, end int
	// results
	err   string
	count int
	st    state
	bad   string // a result no state explains
	id    dag.ID
	tagID dag.TagID
	mask  uint64
	sets  [2]uint64
}

func (w *world) String(c *call) string {
	s := opNames[c.kind]
	switch c.kind {
	case opAdd, opFetch, opSets, opItem, opChildren, opWord:
		s += fmt.Sprintf(" %q", string(unkey(c.word)))
	case opAttach:
		s += fmt.Sprintf(" %q %q", string(unkey(c.word)), c.names)
	case opTag:
		s += fmt.Sprintf(" %q below %q", w.tags[c.tag], w.base[c.parent])
	}
	return s
}

func (w *world) result(c *call) string {
	switch {
	case c.err != "":
		return "error"
	case c.kind == opWords || c.kind == opNodes:
		return fmt.Sprint(c.count)
	case c.kind == opTag:
		return fmt.Sprintf("id %d", c.tagID)
	case c.kind == opSets:
		var a []string
		for i, p := range w.pairs {
			if c.sets[i>>6]>>(uint(i)&63)&1 == 1 {
				a = append(a, p.analysis)
			}
		}
		return fmt.Sprintf("%q", a)
	case c.kind == opChildren:
		return fmt.Sprintf("%b", c.mask)
	case c.kind == opSave, c.kind == opTags:
		return w.show(c.st)
	case c.kind == opItem:
		return fmt.Sprintf("has analyses: %v", c.count > 0)
	}
	return "ok"
}

func (w *world) show(s state) string {
	var b strings.Builder
	for i, p := range s.parent {
		if p != 0 && i < len(w.tags) {
			fmt.Fprintf(&b, "%s<%s ", w.tags[i], w.base[p-1])
		}
	}
	for i, n := range w.nodes {
		if s.nodes>>uint(i)&1 == 1 {
			fmt.Fprintf(&b, "%q ", string(unkey(n)))
		}
	}
	for i, p := range w.pairs {
		if s.has(i) {
			fmt.Fprintf(&b, "%q:%s ", string(unkey(p.word)), p.analysis)
		}
	}
	return strings.TrimSpace(b.String())
}

// apply tells whether a call may happen in a state with the result it had, and the state after it.
func (w *world) apply(s state, c *call) (state, bool) {
	switch c.kind {
	case opAdd:
		if c.err != "" {
			return s, false
		}
		s.nodes |= w.bits[c.word]
	case opAttach:
		known := true
		for _, t := range c.needs {
			known = known && s.parent[t] != 0
		}
		if known != (c.err == "") {
			return s, false
		}
		if known && c.p >= 0 {
			s.pairs[c.p>>6] |= 1 << (uint(c.p) & 63)
		}
	case opFetch:
		return s, (s.nodes>>uint(c.n)&1 == 1) == (c.err == "")
	case opSets:
		return s, c.sets == w.setsOf(s, c.word)
	case opItem:
		return s, (c.count > 0) == (w.setsOf(s, c.word) != [2]uint64{})
	case opWords:
		return s, c.count == w.words(s)
	case opNodes:
		return s, c.count == popcount(s.nodes)
	case opTag:
		if s.parent[c.tag] == 0 {
			s.parent[c.tag] = int8(1 + c.parent)
		}
	case opTags:
		return s, c.st.parent == s.parent
	case opSave:
		return s, c.err != "" || c.st == s
	case opChildren:
		k := len(w.kids) - 1
		if c.word != "" {
			k = c.n
		}
		return s, c.mask == s.nodes&w.kids[k]
	}
	return s, true
}

func popcount(x uint64) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

func (w *world) setsOf(s state, word string) (m [2]uint64) {
	for i, p := range w.pairs {
		if s.has(i) && p.word == word {
			m[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	return m
}

func (w *world) words(s state) (n int) {
	for _, k := range w.nodes {
		if w.setsOf(s, k) != [2]uint64{} {
			n++
		}
	}
	return n
}

func (w *world) pairOf(word string, names []dag.TagName) int {
	k := pair{word, analysis(names)}
	if p, ok := w.pair[k]; ok {
		return p
	}
	w.pair[k] = len(w.pairs)
	w.pairs = append(w.pairs, k)
	return w.pair[k]
}

// model of a state, for a full comparison.
func (w *world) model(s state) *model {
	m := newModel()
	for i, p := range s.parent {
		if p != 0 {
			m.tag(w.tags[i], w.base[p-1])
		}
	}
	for i, n := range w.nodes {
		if s.nodes>>uint(i)&1 == 1 {
			m.add(n)
		}
	}
	for i, p := range w.pairs {
		if s.has(i) {
			if m.forms[p.word] == nil {
				m.forms[p.word] = map[string]bool{}
			}
			m.forms[p.word][p.analysis] = true
		}
	}
	return m
}

// read extracts the contents of an index nobody else is using.
func (w *world) read(x *index.Index) (s state, bad string) {
	s.parent, bad = w.readTags(x.Tags())
	if bad != "" {
		return
	}
	for i, n := range w.nodes {
		nd, err := x.FetchRunes(unkey(n))
		if err != nil {
			continue
		}
		s.nodes |= 1 << uint(i)
		sets, why := w.readSets(n, nd.TagSets())
		if why != "" {
			return s, why
		}
		s.pairs[0] |= sets[0]
		s.pairs[1] |= sets[1]
	}
	return s, differs(x, w.model(s))
}

func (w *world) readTags(tags []dag.Tag) (res [8]int8, bad string) {
	for _, t := range tags {
		i, p := -1, -1
		for k, n := range w.tags {
			if n == t.Name {
				i = k
			}
		}
		for k, n := range w.base {
			if canon(n) == canon(t.Parent) {
				p = k
			}
		}
		if i < 0 || p < 0 || res[i] != 0 {
			return res, fmt.Sprintf("an unexpected or repeated tag %q below %q", t.Name, t.Parent)
		}
		res[i] = int8(1 + p)
	}
	return res, ""
}

func (w *world) readSets(word string, sets []dag.TagSet) (res [2]uint64, bad string) {
	as, twice := got(sets)
	if twice != "" {
		return res, fmt.Sprintf("%q has an analysis %s", string(unkey(word)), twice)
	}
	for _, a := range as {
		p, ok := w.pair[pair{word, a}]
		if !ok {
			return res, fmt.Sprintf("%q has an analysis %q nobody attached", string(unkey(word)), a)
		}
		res[p>>6] |= 1 << (uint(p) & 63)
	}
	return res, ""
}

// event numbers the calls and returns; only the running task gets here.
//
//go:norace
//go:noinline
func event(p *int) int {
	*p++
	return *p
}

type ided interface{ Id() dag.ID }

// above gives a node from which the word can be reached and the letters below it.
func (w *world) above(c *call, handles map[string]dag.Node) (dag.ID, []rune) {
	for i := len(c.word) - 4; i > 0; i -= 4 {
		if n, ok := handles[c.word[:i]].(ided); ok {
			return n.Id(), unkey(c.word[i:])
		}
	}
	return 0, unkey(c.word)
}

// unpack reads the analyses of a node through the tables of the index.
func unpack(x *index.Index, n *index.Node) (res []dag.TagSet, bad string) {
	v := n.Item().Variants
	if v == 0 {
		return nil, ""
	}
	ids, err := x.Variants(v)
	if err != nil {
		return nil, err.Error()
	}
	table := x.TagSetIndex()
	for _, id := range ids {
		set, ok := table.Get(id)
		if !ok {
			return nil, fmt.Sprintf("no tag set %#x", uint32(id))
		}
		tags, err := x.TagSet(set)
		if err != nil {
			return nil, err.Error()
		}
		res = append(res, tags)
	}
	return res, ""
}

// do executes one call against the real index.
func (w *world) do(x *index.Index, c *call, handles map[string]dag.Node, clock *int, broken []byte) {
	fail := func(err error) {
		if err != nil {
			c.err = err.Error()
			if c.err == "" {
				c.err = "error"
			}
		}
	}
	keep := func(n dag.Node, err error) {
		fail(err)
		if err == nil && n == nil {
			c.bad = "neither a node nor an error"
		}
		if err == nil && n != nil {
			handles[c.word] = n
			if i, ok := n.(ided); ok {
				c.id = i.Id()
			}
		}
	}
	runes := unkey(c.word)
	c.begin = event(clock)
	switch c.kind {
	case opAdd:
		switch parent, rest := w.above(c, handles); c.way {
		case 1:
			n, err := x.AddString(string(runes))
			keep(n, err)
		case 2:
			n, err := x.AddToNode(parent, rest)
			keep(n, err)
		default:
			n, err := x.AddRunes(runes)
			keep(n, err)
		}
	case opAttach:
		fail(handles[c.word].AddTagSet(append([]dag.TagName(nil), c.names...)...))
	case opFetch:
		switch parent, rest := w.above(c, handles); c.way {
		case 1:
			n, err := x.FetchString(string(runes))
			keep(n, err)
		case 2:
			n, err := x.FetchFromItem(parent, rest)
			keep(n, err)
		case 3:
			n, err := x.FetchItemFromParent(parent, rest)
			if err != nil {
				keep(nil, err)
			} else {
				keep(n, nil)
			}
		default:
			n, err := x.FetchRunes(runes)
			keep(n, err)
		}
	case opSets:
		var sets []dag.TagSet
		switch n, ok := handles[c.word].(*index.Node); {
		case ok && c.way == 1:
			again, err := x.Get(n.Id())
			if err != nil {
				c.bad = "an existing node is not there: " + err.Error()
				return
			}
			sets = again.TagSets()
		case ok && c.way == 2 && c.keep:
			sets, c.bad = unpack(x, n)
		default:
			if ok && c.way == 2 {
				_, _ = unpack(x, n) // the tables change at the same time: no certain answer
			}
			sets = handles[c.word].TagSets()
		}
		c.end = event(clock)
		if c.bad != "" {
			return
		}
		c.sets, c.bad = w.readSets(c.word, sets)
		return
	case opItem:
		if n, ok := handles[c.word].(*index.Node); ok {
			it := n.Item()
			c.end = event(clock)
			if it.Letter != runes[len(runes)-1] {
				c.bad = fmt.Sprintf("the item of %q has letter %q", string(runes), it.Letter)
			}
			if it.Variants != 0 {
				c.count = 1
			}
			return
		}
	case opWord:
		if s, ok := handles[c.word].(fmt.Stringer); ok && c.way == 1 {
			_ = s.String()
		}
		if g := handles[c.word].Word(); g != string(runes) {
			c.bad = fmt.Sprintf("the node of %q says its word is %q", string(runes), g)
		}
	case opWords:
		c.count = x.WordsCount()
	case opNodes:
		c.count = x.NodesCount()
	case opTag:
		c.tagID = x.TagID(w.tags[c.tag], w.base[c.parent])
	case opTags:
		tags := x.Tags()
		c.end = event(clock)
		c.st.parent, c.bad = w.readTags(tags)
		return
	case opOptimize:
		x.Optimize()
	case opSave:
		s := stream.NewWriter()
		s.FailAt, s.Sticky = c.failAt, true
		err := x.BinaryWriteTo(binutils.NewBinaryWriter(s))
		c.end = event(clock)
		fail(err)
		if err == nil && s.Failed {
			c.bad = "the save reported success although the stream failed"
		}
		if err != nil && !s.Failed {
			c.bad = "the save failed on a healthy stream: " + c.err
		}
		if err == nil {
			rt.Quiet(func() {
				y := index.New()
				if err := loadInto(y, &plain{s.Data}); err != nil {
					c.bad = "the saved index does not load: " + err.Error()
					return
				}
				c.st, c.bad = w.read(y)
				if c.bad != "" {
					c.bad = "the saved index is inconsistent: " + c.bad
				}
			})
		}
		return
	case opChildren:
		var letters []rune
		id := dag.ID(0)
		if h, ok := handles[c.word].(ided); ok && c.word != "" {
			id = h.Id()
		}
		switch {
		case c.way == 1:
			for l := range x.GetChildrenMap(id) {
				letters = append(letters, l)
			}
		case c.way == 2 && c.word == "":
			for l := range x.Children() {
				letters = append(letters, l)
			}
		default:
			for l := range x.GetChildrenIDMap(id) {
				letters = append(letters, l)
			}
		}
		c.end = event(clock)
		for _, l := range letters {
			i, ok := w.node[c.word+key([]rune{l})]
			if !ok {
				c.bad = fmt.Sprintf("%q has a child %q nobody added", string(runes), l)
				continue
			}
			c.mask |= 1 << uint(i)
		}
		return
	case opBadLoad:
		if err := loadInto(x, &plain{append([]byte(nil), broken...)}); err == nil {
			c.bad = "a truncated index was loaded"
		}
	}
	c.end = event(clock)
}

func runC08(r *sim.R) {
	logs(r)
	if rt.OneIn(6) {
		bulkC08(r)
		return
	}
	w := &world{node: map[string]int{}, pair: map[pair]int{}, bits: map[string]uint64{}}
	w.tags = genTagNames(1 + rt.Choose(5))
	w.base = []dag.TagName{"", w.tags[0], "none"}
	alpha := genAlphabet()
	var words []string
	for i := 2 + rt.Choose(4); i > 0; i-- {
		n := genRunes(alpha, 4)
		if len(words) > 0 && rt.OneIn(2) {
			n = append(unkey(words[rt.Choose(len(words))]), n[0])
		}
		words = append(words, key(n))
	}
	r.Probe("shared-prefix")
	for _, k := range words {
		var b uint64
		for i := 4; i <= len(k); i += 4 {
			p := k[:i]
			if _, ok := w.node[p]; !ok {
				w.node[p] = len(w.nodes)
				w.nodes = append(w.nodes, p)
			}
			b |= 1 << uint(w.node[p])
			w.bits[p] = b
		}
	}
	w.kids = make([]uint64, len(w.nodes)+1)
	for i, k := range w.nodes {
		p := len(w.nodes)
		if len(k) > 4 {
			p = w.node[k[:len(k)-4]]
		}
		w.kids[p] |= 1 << uint(i)
	}
	anyWord := func() string {
		if rt.OneIn(4) {
			return w.nodes[rt.Choose(len(w.nodes))]
		}
		return words[rt.Choose(len(words))]
	}
	gen := func(c *call) {
		c.failAt = -1
		c.p = -1
		switch c.kind {
		case opAdd, opFetch, opSets, opItem, opWord:
			c.word = anyWord()
			c.way = rt.Choose(4)
			if c.kind == opSets {
				c.way = rt.Weighted(3, 1, 3)
			}
			if c.way == 1 && strings.ContainsRune(string(unkey(c.word)), 0xFFFD) {
				c.way = 0
			}
		case opAttach:
			c.word = anyWord()
			c.names = pickTags(w.tags, 3)
			if len(c.names) > 0 {
				c.p = w.pairOf(c.word, c.names)
			}
			for _, n := range c.names {
				for i, t := range w.tags {
					if t == n {
						c.needs = append(c.needs, i)
					}
				}
			}
		case opTag:
			c.tag, c.parent = rt.Choose(len(w.tags)), rt.Choose(len(w.base))
		case opSave:
			if rt.OneIn(3) {
				c.failAt = rt.Choose(120)
			}
		case opChildren:
			if !rt.OneIn(3) {
				c.word = anyWord()
			}
			c.way = rt.Choose(3)
		}
		c.n = w.node[c.word]
	}
	// initial contents
	x := index.New()
	var before []*call
	for i := rt.Weighted(2, 1, 1) * 3; i > 0; i-- {
		c := &call{kind: []int{opAdd, opAttach, opTag}[rt.Choose(3)]}
		gen(c)
		before = append(before, c)
	}
	nc := 2 + rt.Weighted(5, 4, 2, 1)
	limit := 3
	if nc > 3 {
		limit = 2
	}
	optimized := false
	plan := make([][]*call, nc)
	for k := range plan {
		for i := 1 + rt.Choose(limit+1); i > 0; i-- {
			c := &call{client: k, kind: rt.Weighted(10, 10, 6, 6, 2, 3, 3, 6, 2, 3, 3, 3, 1, 1)}
			gen(c)
			optimized = optimized || c.kind == opOptimize
			plan[k] = append(plan[k], c)
		}
	}
	for _, p := range plan {
		for _, c := range p {
			c.keep = !optimized
		}
	}
	clock := 0
	reload := rt.OneIn(3)
	r.Must(rt.Call(big, func() {
		h := map[string]dag.Node{}
		for _, c := range before {
			if c.kind == opAttach && h[c.word] == nil {
				w.do(x, &call{kind: opAdd, word: c.word}, h, &clock, nil)
			}
			w.do(x, c, h, &clock, nil)
		}
		if reload {
			d, err := save(x)
			if err == nil {
				x = index.New()
				err = loadInto(x, &plain{d})
			}
			if err != nil {
				panic(err)
			}
		}
	}), "preparing the index")
	if reload {
		r.Probe("reloaded-index")
	}
	var init state
	var bad string
	var broken []byte
	r.Must(rt.Call(big, func() {
		init, bad = w.read(x)
		broken, _ = save(x)
		broken = broken[:len(broken)-1-rt.Choose(len(broken)-1)]
	}), "reading the index")
	if bad != "" {
		r.Fail("inconsistent", "before any concurrency: %s", bad)
	}
	rt.SetPolicy(rt.Choose(5), 10)
	hist := make([][]*call, nc)
	var clients []rt.Client
	for k := range plan {
		k := k
		clients = append(clients, rt.Client{Proc: 1, Fn: func() {
			handles := map[string]dag.Node{}
			for _, c := range plan[k] {
				switch c.kind {
				case opAttach, opSets, opItem, opWord, opChildren:
					if handles[c.word] == nil && c.word != "" {
						g := &call{client: k, kind: opAdd, word: c.word, n: c.n}
						w.do(x, g, handles, &clock, nil)
						hist[k] = append(hist[k], g)
						if handles[c.word] == nil {
							return
						}
					}
				}
				w.do(x, c, handles, &clock, broken)
				hist[k] = append(hist[k], c)
			}
		}})
	}
	outs := rt.Exec(rt.Budget{Steps: 3_000_000, Alloc: 10_000_000}, clients...)
	var calls []*call
	for k := range hist {
		calls = append(calls, hist[k]...)
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i].begin < calls[j].begin })
	changes, overlap := false, false
	last := 0
	for _, c := range calls {
		r.Log("%d..%d goroutine %d: %s -> %s", c.begin, c.end, c.client, w.String(c), w.result(c))
		r.Shape("%d %d %s %s", c.client, c.begin, w.String(c), w.result(c))
		changes = changes || c.kind == opAdd || c.kind == opAttach || c.kind == opTag || c.kind == opOptimize
		overlap = overlap || c.begin < last
		if c.end > last {
			last = c.end
		}
		switch {
		case c.kind == opSave && c.err == "":
			r.Probe("save")
		case c.kind == opSave:
			r.Probe("failed-save")
		case c.kind == opBadLoad:
			r.Probe("failed-load")
		case c.kind == opOptimize:
			r.Probe("optimize")
		case c.kind == opAttach && c.err != "":
			r.Probe("unknown-tag")
		}
	}
	for _, o := range outs {
		r.Must(o, "a goroutine using the index")
	}
	if overlap {
		r.Probe("overlap")
		if changes {
			r.NonTrivial()
		}
	}
	if rt.Contended() > 0 {
		r.Probe("contended")
	}
	ids, owner := map[string]dag.ID{}, map[dag.ID]string{}
	tagIDs, tagOf := map[int]dag.TagID{}, map[dag.TagID]int{}
	for _, c := range calls {
		if c.bad != "" {
			r.Fail("inconsistent", "goroutine %d: %s: %s", c.client, w.String(c), c.bad)
		}
		if c.id != 0 && c.err == "" {
			if o, ok := ids[c.word]; ok && o != c.id {
				r.Fail("duplicated-node", "%q is node %d and node %d", string(unkey(c.word)), o, c.id)
			}
			if o, ok := owner[c.id]; ok && o != c.word {
				r.Fail("shared-node", "node %d is %q and %q", c.id, string(unkey(o)), string(unkey(c.word)))
			}
			ids[c.word], owner[c.id] = c.id, c.word
		}
		if c.kind == opTag {
			if o, ok := tagIDs[c.tag]; ok && o != c.tagID {
				r.Fail("tag-id", "tag %q has id %d and id %d", w.tags[c.tag], o, c.tagID)
			}
			if o, ok := tagOf[c.tagID]; ok && o != c.tag {
				r.Fail("tag-id", "tag id %d is %q and %q", c.tagID, w.tags[o], w.tags[c.tag])
			}
			tagIDs[c.tag], tagOf[c.tagID] = c.tagID, c.tag
		}
	}
	var final state
	r.Must(rt.Call(big, func() {
		final, bad = w.read(x)
		for t, id := range tagIDs {
			if tag, ok := x.Tags().Get(id); !ok || tag.Name != w.tags[t] {
				bad = fmt.Sprintf("%q was registered as id %d, which is %q, %v", w.tags[t], id, tag.Name, ok)
			}
		}
		for k, id := range ids {
			n, err := x.FetchRunes(unkey(k))
			if err != nil {
				bad = fmt.Sprintf("%q is lost: %v", string(unkey(k)), err)
			} else if i, ok := n.(ided); ok && i.Id() != id {
				bad = fmt.Sprintf("%q was node %d and is node %d", string(unkey(k)), id, i.Id())
			}
		}
	}), "reading the index at the end")
	if bad != "" {
		r.Fail("inconsistent", "at the end: %s", bad)
	}
	ok, most, capped := w.search(init, final, calls)
	if capped {
		r.Probe("search-capped")
		return
	}
	if !ok {
		var done []string
		for _, c := range most {
			done = append(done, fmt.Sprintf("goroutine %d: %s", c.client, w.String(c)))
		}
		r.Fail("not-linearizable", "no one-at-a-time order of the %d calls that respects real time explains their results and the final contents [%s] (started as [%s]); the longest explained prefix is: %s",
			len(calls), w.show(final), w.show(init), strings.Join(done, "; "))
	}
}

// search looks for a linearization of the calls that ends in the final state.
func (w *world) search(init, final state, calls []*call) (ok bool, most []*call, capped bool) {
	type memo struct {
		mask uint64
		s    state
	}
	seen := map[memo]bool{}
	var order []*call
	n := len(calls)
	var rec func(mask uint64, s state) bool
	rec = func(mask uint64, s state) bool {
		if len(order) > len(most) {
			most = append([]*call(nil), order...)
		}
		if len(order) == n {
			return s == final
		}
		m := memo{mask, s}
		if seen[m] {
			return false
		}
		if len(seen) > 300000 {
			capped = true
			return false
		}
		seen[m] = true
		firstEnd := 1 << 60
		for i, c := range calls {
			if mask>>uint(i)&1 == 0 && c.end < firstEnd {
				firstEnd = c.end
			}
		}
		for i, c := range calls {
			if mask>>uint(i)&1 == 1 || c.begin > firstEnd {
				continue
			}
			if t, may := w.apply(s, c); may {
				order = append(order, c)
				if rec(mask|1<<uint(i), t) {
					return true
				}
				order = order[:len(order)-1]
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, most, capped && !ok
}

// bulkC08 runs longer histories of changes that commute, so that the final contents are known.
func bulkC08(r *sim.R) {
	r.Probe("bulk")
	rt.SetPolicy(rt.Choose(5), 10)
	x, m := index.New(), newModel()
	tags := genTagNames(1 + rt.Choose(6))
	for _, t := range tags {
		m.tag(t, "")
	}
	alpha := genAlphabet()
	var words [][]rune
	for i := 2 + rt.Choose(6); i > 0; i-- {
		words = append(words, genRunes(alpha, 6))
	}
	type step struct {
		kind int
		w    []rune
		set  []dag.TagName
	}
	nc := 2 + rt.Choose(4)
	plan := make([][]step, nc)
	for k := range plan {
		for i := 3 + rt.Choose(16); i > 0; i-- {
			s := step{kind: rt.Weighted(5, 8, 2, 1, 1, 1, 2), w: words[rt.Choose(len(words))], set: pickTags(tags, 3)}
			if s.kind <= 1 {
				m.add(key(s.w))
			}
			if s.kind == 1 {
				m.attach(key(s.w), s.set)
			}
			plan[k] = append(plan[k], s)
		}
	}
	pre := rt.OneIn(2)
	if pre {
		r.Must(rt.Call(big, func() {
			for _, t := range tags {
				x.TagID(t, "")
			}
		}), "registering tags")
	}
	bad := make([]string, nc)
	var clients []rt.Client
	for k := range plan {
		k := k
		clients = append(clients, rt.Client{Proc: 1, Fn: func() {
			fail := func(f string, a ...interface{}) {
				if bad[k] == "" {
					bad[k] = fmt.Sprintf(f, a...)
				}
			}
			if !pre {
				for i := range tags {
					x.TagID(tags[(i+k)%len(tags)], "")
				}
			}
			mine := map[string]map[string]bool{}
			nodes, wordsN := 0, 0
			for _, s := range plan[k] {
				switch s.kind {
				case 0, 1:
					n, err := x.AddRunes(s.w)
					if err != nil {
						fail("adding %q failed: %v", string(s.w), err)
						return
					}
					if mine[key(s.w)] == nil {
						mine[key(s.w)] = map[string]bool{}
					}
					if s.kind == 1 {
						if err = n.AddTagSet(append([]dag.TagName(nil), s.set...)...); err != nil {
							fail("attaching %q to %q failed: %v", s.set, string(s.w), err)
						}
						if len(s.set) > 0 {
							mine[key(s.w)][analysis(s.set)] = true
						}
					}
				case 2:
					n, err := x.FetchRunes(s.w)
					own := mine[key(s.w)]
					if own == nil {
						break
					}
					if err != nil {
						fail("%q was added by this goroutine and is not found: %v", string(s.w), err)
						break
					}
					as, twice := got(n.TagSets())
					if twice != "" {
						fail("%q has an analysis %s", string(s.w), twice)
					}
					for _, a := range sorted(own) {
						i := sort.SearchStrings(as, a)
						if i == len(as) || as[i] != a {
							fail("%q lost the analysis %q this goroutine attached, it has %q", string(s.w), a, as)
						}
					}
				case 3:
					x.Optimize()
				case 4:
					a, b := x.NodesCount(), x.WordsCount()
					if a < nodes || b < wordsN {
						fail("the counters went from %d nodes, %d words to %d, %d", nodes, wordsN, a, b)
					}
					nodes, wordsN = a, b
				case 6: // the same through the tables, which may be changing
					if n, err := x.FetchItemFromParent(0, s.w); err == nil {
						_, _ = unpack(x, n)
						_ = n.String()
						if _, err = x.Get(n.Id()); err != nil {
							fail("node %d of %q is not there: %v", n.Id(), string(s.w), err)
						}
					}
				case 5:
					d, err := save(x)
					if err != nil {
						fail("a save failed: %v", err)
						break
					}
					rt.Quiet(func() {
						y := index.New()
						if err := loadInto(y, &plain{d}); err != nil {
							fail("a save made meanwhile does not load: %v", err)
							return
						}
						for _, w := range sorted(func() map[string]bool {
							res := map[string]bool{}
							for w := range mine {
								res[w] = true
							}
							return res
						}()) {
							n, err := y.FetchRunes(unkey(w))
							if err != nil {
								fail("a save made meanwhile lacks %q added before by the same goroutine", string(unkey(w)))
								return
							}
							as, _ := got(n.TagSets())
							for _, a := range sorted(mine[w]) {
								i := sort.SearchStrings(as, a)
								if i == len(as) || as[i] != a {
									fail("a save made meanwhile lacks the analysis %q of %q attached before by the same goroutine", a, string(unkey(w)))
								}
							}
						}
					})
				}
			}
		}})
	}
	outs := rt.Exec(rt.Budget{Steps: 20_000_000, Alloc: 20_000_000}, clients...)
	r.Log("%d goroutines, %d words, %d tags", nc, len(words), len(tags))
	for k, p := range plan {
		for _, s := range p {
			r.Log("goroutine %d: step %d %q %q", k, s.kind, string(s.w), s.set)
			r.Shape("%d %d %q", k, s.kind, string(s.w))
		}
	}
	for _, o := range outs {
		r.Must(o, "a goroutine using the index")
	}
	if rt.Switches() > int64(nc) {
		r.NonTrivial()
	}
	if rt.Contended() > 0 {
		r.Probe("contended")
	}
	for k, b := range bad {
		if b != "" {
			r.Fail("inconsistent", "goroutine %d: %s", k, b)
		}
	}
	var d string
	r.Must(rt.Call(big, func() { d = differs(x, m) }), "reading the index at the end")
	if d != "" {
		r.Fail("lost", "after all goroutines finished: %s", d)
	}
}
