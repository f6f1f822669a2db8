package main

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/stream"
)

// what a call of the library and an update may use
var big, attempt rt.Budget

func budgets(times int64) {
	big = rt.Budget{Steps: 50_000_000 * times, Alloc: 50_000_000 * times}
	attempt = rt.Budget{Steps: 100_000_000 * times, Alloc: 200_000_000 * times}
}

func init() { budgets(1) }

// key is a word as a map key: four bytes per letter, so that any letter value is kept.
func key(runes []rune) string {
	b := make([]byte, 0, 4*len(runes))
	for _, c := range runes {
		b = append(b, byte(uint32(c)>>24), byte(c>>16), byte(c>>8), byte(c))
	}
	return string(b)
}

func unkey(k string) []rune {
	var res []rune
	for i := 0; i+4 <= len(k); i += 4 {
		res = append(res, rune(uint32(k[i])<<24|uint32(k[i+1])<<16|uint32(k[i+2])<<8|uint32(k[i+3])))
	}
	return res
}

// model is what an index should answer.
type model struct {
	tags  []dag.Tag
	known map[dag.TagName]bool
	nodes map[string]bool            // every stored word and prefix
	forms map[string]map[string]bool // word -> its analyses
}

func newModel() *model {
	return &model{known: map[dag.TagName]bool{}, nodes: map[string]bool{}, forms: map[string]map[string]bool{}}
}

func (m *model) clone() *model {
	n := newModel()
	n.tags = append(n.tags, m.tags...)
	for k := range m.known {
		n.known[k] = true
	}
	for k := range m.nodes {
		n.nodes[k] = true
	}
	for w, as := range m.forms {
		c := map[string]bool{}
		for a := range as {
			c[a] = true
		}
		n.forms[w] = c
	}
	return n
}

func canon(p dag.TagName) dag.TagName {
	if p == "" {
		return dag.EmptyTagName
	}
	return p
}

func (m *model) tag(name, parent dag.TagName) {
	if m.known[name] {
		return
	}
	m.known[name] = true
	m.tags = append(m.tags, dag.Tag{Parent: canon(parent), Name: name})
}

func (m *model) add(word string) {
	for i := 4; i <= len(word); i += 4 {
		m.nodes[word[:i]] = true
	}
}

// analysis is a multiset of tag names in canonical form.
func analysis(names []dag.TagName) string {
	s := make([]string, len(names))
	for i, n := range names {
		s[i] = string(n)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func (m *model) attach(word string, names []dag.TagName) bool {
	for _, n := range names {
		if !m.known[n] {
			return false
		}
	}
	if len(names) == 0 {
		return true
	}
	if m.forms[word] == nil {
		m.forms[word] = map[string]bool{}
	}
	m.forms[word][analysis(names)] = true
	return true
}

// keys returns the stored words and prefixes in order.
func (m *model) keys() []string {
	res := make([]string, 0, len(m.nodes))
	for k := range m.nodes {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func sorted(m map[string]bool) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// String is a canonical description, equal for equal models.
func (m *model) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "tags %q\n", m.tags)
	for _, k := range m.keys() {
		fmt.Fprintf(&b, "%q %q\n", string(unkey(k)), sorted(m.forms[k]))
	}
	return b.String()
}

func got(sets []dag.TagSet) ([]string, string) {
	var res []string
	for _, s := range sets {
		names := make([]dag.TagName, len(s))
		for i, t := range s {
			names[i] = t.Name
		}
		res = append(res, analysis(names))
	}
	sort.Strings(res)
	for i := 1; i < len(res); i++ {
		if res[i] == res[i-1] {
			return res, "twice " + res[i]
		}
	}
	return res, ""
}

func same(a []string, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// differs compares every answer of an index with the model. It returns "" if they agree.
// Call it inside rt.Call or rt.Quiet.
func differs(x *index.Index, m *model) string {
	tags := x.Tags()
	if len(tags) != len(m.tags) {
		return fmt.Sprintf("%d tags %q, expected %d %q", len(tags), tags, len(m.tags), m.tags)
	}
	byName := map[dag.TagName]dag.TagName{}
	for _, t := range m.tags {
		byName[t.Name] = t.Parent
	}
	for i, t := range tags {
		want, ok := byName[t.Name]
		if !ok || canon(t.Parent) != want {
			return fmt.Sprintf("tag %d is %q below %q, expected tags %q", i, t.Name, t.Parent, m.tags)
		}
		delete(byName, t.Name)
	}
	if n := x.NodesCount(); n != len(m.nodes) {
		return fmt.Sprintf("%d nodes, expected %d", n, len(m.nodes))
	}
	if n := x.WordsCount(); n != len(m.forms) {
		return fmt.Sprintf("%d words, expected %d", n, len(m.forms))
	}
	seen := map[dag.ID]string{}
	for i, k := range m.keys() {
		if len(m.nodes) > 20000 && i%16 != len(m.forms)%16 {
			continue // a huge index is sampled here, not in the walk
		}
		w := unkey(k)
		if len(w) > 40 && len(w)%89 != 0 && len(m.forms[k]) == 0 {
			continue // prefixes of a very long word are sampled
		}
		node, err := x.FetchRunes(w)
		if err != nil || node == nil {
			return fmt.Sprintf("%q is not found: %v", string(w), err)
		}
		if g := node.Word(); g != string(w) {
			return fmt.Sprintf("the node of %q says its word is %q", string(w), g)
		}
		as, twice := got(node.TagSets())
		if want := sorted(m.forms[k]); !same(as, want) || twice != "" {
			return fmt.Sprintf("%q has analyses %q %s, expected %q", string(w), as, twice, want)
		}
		if n, ok := node.(*index.Node); ok {
			if o, dup := seen[n.Id()]; dup {
				return fmt.Sprintf("node %d belongs to %q and to %q", n.Id(), o, string(w))
			}
			seen[n.Id()] = string(w)
			if it := n.Item(); (it.Variants != 0) != (len(m.forms[k]) > 0) {
				return fmt.Sprintf("%q: item %v, expected analyses %q", string(w), it, sorted(m.forms[k]))
			}
		}
		// nothing that was never stored is found next to it
		for _, c := range []rune{'~', 0x10FFFE, w[len(w)-1] + 1} {
			o := append(append([]rune(nil), w...), c)
			if !m.nodes[key(o)] {
				if n, err := x.FetchRunes(o); err == nil {
					return fmt.Sprintf("%q was never stored but is found as %v", string(o), n)
				}
			}
			o = append(append([]rune(nil), w[:len(w)-1]...), c)
			if !m.nodes[key(o)] {
				if n, err := x.FetchRunes(o); err == nil {
					return fmt.Sprintf("%q was never stored but is found as %v", string(o), n)
				}
			}
		}
	}
	return walk(x, m, seen)
}

// walk visits the whole tree from the root: exactly the stored words and prefixes are there.
func walk(x *index.Index, m *model, seen map[dag.ID]string) string {
	type step struct {
		id   dag.ID
		word []rune
	}
	todo := []step{{}}
	n := 0
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		kids := x.GetChildrenIDMap(s.id)
		nodes := x.GetChildrenMap(s.id)
		if s.id == 0 {
			nodes = x.Children()
		}
		if len(kids) != len(nodes) {
			return fmt.Sprintf("%q has %d children and %d children", string(s.word), len(kids), len(nodes))
		}
		letters := make([]rune, 0, len(kids))
		for letter := range kids {
			letters = append(letters, letter)
		}
		sort.Slice(letters, func(i, j int) bool { return letters[i] < letters[j] })
		for _, letter := range letters {
			id := kids[letter]
			if n++; n > len(m.nodes) {
				return fmt.Sprintf("more than %d nodes can be reached from the root", len(m.nodes))
			}
			w := append(s.word, letter)
			if len(kids) > 1 {
				w = append(append(make([]rune, 0, len(s.word)+8), s.word...), letter)
			}
			long := len(w) > 40 && len(w)%89 != 0
			if !long && !m.nodes[key(w)] {
				return fmt.Sprintf("%q was never stored but is a child of %q", string(w), string(s.word))
			}
			if known, ok := seen[id]; ok && known != string(w) {
				return fmt.Sprintf("node %d of %q is a child of %q under %q", id, known, string(s.word), letter)
			}
			child, ok := nodes[letter].(*index.Node)
			if !ok || child.Id() != id {
				return fmt.Sprintf("the child of %q under %q is %v and node %d", string(s.word), letter, nodes[letter], id)
			}
			if it := child.Item(); it.Parent != s.id || it.Letter != letter || it.ID != id {
				return fmt.Sprintf("the child of %q (node %d) under %q is %+v", string(s.word), s.id, letter, it)
			}
			todo = append(todo, step{id, w})
		}
	}
	if n != len(m.nodes) {
		return fmt.Sprintf("%d nodes can be reached from the root, expected %d", n, len(m.nodes))
	}
	return ""
}

// ---- generation

var alphabets = [][]rune{
	[]rune("абвё"),
	[]rune("ab"),
	[]rune("abcdefghij"),
	[]rune("-' .\t\n\x00\x7f"),
	[]rune("美丽\U0001F600\u0301é"),
	{0xFFFD, 0x10FFFF, 'a', 0xD800, -1, 0x7FFFFFFF},
}

func genRunes(alpha []rune, maxLen int) []rune {
	n := 1 + rt.Choose(maxLen)
	w := make([]rune, n)
	for i := range w {
		w[i] = alpha[rt.Choose(len(alpha))]
	}
	return w
}

func genAlphabet() []rune { return alphabets[rt.Weighted(5, 4, 2, 1, 1, 1)] }

var tagPool = []dag.TagName{"POST", "NOUN", "VERB", "ANim", "anim", "inan", "GNdr", "masc", "femn", "neut", "NMbr", "sing", "plur", "CAse", "nomn", "gent", "datv", "аб", "a b ", "Q-1+"}

func genTagNames(n int) []dag.TagName {
	var res []dag.TagName
	off := rt.Choose(len(tagPool))
	for i := 0; i < n; i++ {
		res = append(res, tagPool[(off+i)%len(tagPool)])
	}
	return res
}

func pickTags(names []dag.TagName, max int) []dag.TagName {
	if len(names) == 0 {
		return nil
	}
	var res []dag.TagName
	for n := rt.Choose(max + 1); n > 0; n-- {
		res = append(res, names[rt.Choose(len(names))])
	}
	return res
}

// ---- access to the code under test

// save writes the index to memory without faults.
func save(x *index.Index) ([]byte, error) {
	w := stream.NewWriter()
	err := x.BinaryWriteTo(binutils.NewBinaryWriter(w))
	return w.Data, err
}

// plain is a reader without tricks.
type plain struct {
	d []byte
}

func (p *plain) Read(b []byte) (int, error) {
	if len(p.d) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.d)
	p.d = p.d[n:]
	return n, nil
}

func loadInto(x *index.Index, rd io.Reader) error {
	return x.BinaryReadFrom(binutils.NewBinaryReader(rd))
}

// source hides the concrete reader type or offers more than Read.
func source(r *stream.Reader) io.Reader {
	if rt.OneIn(5) {
		return stream.ByteReader{Reader: r}
	}
	return r
}

// genIndex builds an index and its model directly through the interface.
func genIndex(nTags, nWords int) (*index.Index, *model, func()) {
	x := index.New()
	m := newModel()
	tags := genTagNames(nTags)
	alpha := genAlphabet()
	type op struct {
		w    []rune
		sets [][]dag.TagName
	}
	var ops []op
	for i := 0; i < nWords; i++ {
		o := op{w: genRunes(alpha, 5)}
		for n := rt.Weighted(1, 4, 2, 1); n > 0; n-- {
			o.sets = append(o.sets, pickTags(tags, 4))
		}
		ops = append(ops, o)
	}
	if nWords > 0 && rt.OneIn(40) { // a hundred times as large
		rt.Probe("large-index")
		numbers := prng(rt.Choose(1 << 16))
		for i := rt.Edge(4, 8); i > 0; i-- {
			o := op{}
			for k := numbers.n(7); k >= 0; k-- {
				o.w = append(o.w, alpha[numbers.n(len(alpha))])
			}
			for n := numbers.n(3); n > 0; n-- {
				var set []dag.TagName
				for k := numbers.n(3); k >= 0; k-- {
					set = append(set, tags[numbers.n(len(tags))])
				}
				o.sets = append(o.sets, set)
			}
			ops = append(ops, o)
		}
	}
	for _, t := range tags {
		m.tag(t, tags[0])
	}
	for _, o := range ops {
		k := key(o.w)
		m.add(k)
		for _, s := range o.sets {
			m.attach(k, s)
		}
	}
	return x, m, func() {
		for _, t := range tags {
			x.TagID(t, tags[0])
		}
		for _, o := range ops {
			n, err := x.AddRunes(o.w)
			if err != nil {
				panic(err)
			}
			for _, s := range o.sets {
				if err := n.AddTagSet(s...); err != nil {
					panic(err)
				}
			}
		}
	}
}
