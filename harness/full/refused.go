package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c22 = sim.Prop{
	ID: "C22", Quick: 90000, Thorough: 8_000_000,
	Rule: "a run mixes operations that work (add, attach, register, optimize, relative look-ups) with ones that cannot: empty words, parents and nodes that do not exist, unknown tags, " +
		"analyses for the root, look-ups of what is not there, saves to failing streams, loads of streams that are cut, fail or hold something else; each must report its error and " +
		"leave every answer as it was, in memory and after a save and reload; non-trivial: an operation was refused while the index held a word",
	Run: runC22, Real: indexParts, Stub: []string{"streams, amarin/logging (silent)"},
	Want: []string{"empty-word", "no-parent", "no-node", "root", "unknown-tag", "unknown-tag-last", "empty-set", "not-there", "save-failed", "short-write", "load-cut", "load-failed", "load-other", "relative", "reload", "id-wraps"},
}

type refusedOp struct {
	kind  int
	w     []rune
	pre   int // length of the stored prefix to start from
	id    dag.ID
	tags  []dag.TagName
	at    int
	quiet bool
	how   int
}

func runC22(r *sim.R) {
	logs(r)
	x, m := index.New(), newModel()
	alpha := genAlphabet()
	tags := genTagNames(1 + rt.Choose(8))
	var ops []refusedOp
	for i := 2 + rt.Choose(24); i > 0; i-- {
		o := refusedOp{kind: rt.Weighted(8, 2, 1, 3, 2, 3, 3, 3, 3, 2, 2, 3, 3, 3), w: genRunes(alpha, 5), at: rt.Log(9), quiet: rt.OneIn(2), how: rt.Choose(6)}
		o.pre = rt.Choose(len(o.w))
		switch o.how { // an id that is not there, relative to the number of nodes
		case 0:
			o.id = 1
		case 1:
			o.id = dag.ID(1 + rt.Choose(100))
		case 2:
			o.id = dag.ID(rt.Choose(1 << 16))
		case 3:
			o.id = 1<<31 - 100 + dag.ID(rt.Choose(200))
		case 4:
			o.id = dag.ID(rt.Choose(1<<8)) << 24
		default:
			o.id = 1<<32 - 1 - dag.ID(rt.Choose(3))
		}
		o.tags = pickTags(tags, 4)
		ops = append(ops, o)
	}
	var other []byte
	r.Must(rt.Call(big, func() {
		y, _, fill := genIndex(2, 3)
		fill()
		other, _ = save(y)
	}), "another index")
	var log []string
	r.Must(rt.Call(big, func() {
		for i, t := range tags {
			if i > len(tags)/2 {
				break
			}
			x.TagID(t, "")
			m.tag(t, "")
		}
		for i, o := range ops {
			if r.Failed() {
				return
			}
			what, err, refuse := doRefused(r, x, m, o, tags, other)
			log = append(log, fmt.Sprintf("%s -> %v", what, err))
			if refuse && len(m.forms) > 0 {
				r.NonTrivial()
			}
			switch {
			case r.Failed():
				return
			case refuse && err == nil:
				r.Fail("accepted", "%s (operation %d) reported no error", what, i)
				return
			case !refuse && err != nil:
				r.Fail("refused", "%s (operation %d) failed: %v", what, i, err)
				return
			}
			if refuse && (i == len(ops)-1 || rt.OneIn(3)) {
				if d := differs(x, m); d != "" {
					r.Fail("changed", "after %s failed (%v): %s", what, err, d)
					return
				}
			}
		}
	}), "using the index")
	for _, l := range log {
		r.Log("%s", l)
		r.Shape("%.12s", l)
	}
	if r.Failed() {
		r.Stop()
	}
	var d string
	var err error
	r.Must(rt.Call(big, func() {
		if d = differs(x, m); d != "" {
			return
		}
		var data []byte
		if data, err = save(x); err != nil {
			return
		}
		y := index.New()
		if err = loadInto(y, &plain{data}); err != nil {
			return
		}
		if d = differs(y, m); d != "" {
			d = "reloaded: " + d
		}
		rt.Probe("reload")
	}), "asking the index")
	if err != nil {
		r.Fail("reload-failed", "after all operations saving and loading failed: %v", err)
	}
	if d != "" {
		r.Fail("changed", "after all operations: %s", d)
	}
}

// nothing reports a node handed out together with an error.
func nothing(r *sim.R, what string, n dag.Node, err error) error {
	if k, ok := n.(*index.Node); err != nil && n != nil && (!ok || k != nil) {
		r.Fail("error-with-node", "%s: error %v comes with node %v", what, err, n)
	}
	if err == nil && n == nil {
		r.Fail("no-node", "%s: neither a node nor an error", what)
	}
	return err
}

// doRefused applies one operation and says whether it must fail.
func doRefused(r *sim.R, x *index.Index, m *model, o refusedOp, tags []dag.TagName, other []byte) (what string, err error, refuse bool) {
	nodes := dag.ID(len(m.nodes))
	missing := nodes + o.id
	if missing <= nodes { // beyond 32 bits
		missing = 1<<32 - 1
	}
	if missing > 1<<31 {
		rt.Probe("id-wraps")
	}
	k := key(o.w)
	switch o.kind {
	case 0: // add and attach known tags
		what = fmt.Sprintf("adding %q with %q", string(o.w), o.tags)
		var n dag.Node
		if n, err = x.AddRunes(o.w); nothing(r, what, n, err) != nil {
			return
		}
		m.add(k)
		err = n.AddTagSet(o.tags...)
		refuse = !m.attach(k, o.tags)
		if refuse {
			rt.Probe("unknown-tag")
		}
	case 1:
		what = fmt.Sprintf("registering %q", o.tags)
		for _, t := range o.tags {
			x.TagID(t, tags[0])
			m.tag(t, tags[0])
		}
	case 2:
		what = "optimizing"
		x.Optimize()
	case 3: // nothing to add or look up
		rt.Probe("empty-word")
		refuse = true
		var n dag.Node
		switch o.how {
		case 0:
			what = "adding an empty string"
			n, err = x.AddString("")
		case 1:
			what = "adding no letters"
			n, err = x.AddRunes(nil)
		case 2:
			what = "looking up an empty string"
			n, err = x.FetchString("")
		case 3:
			what = "looking up no letters"
			n, err = x.FetchRunes([]rune{})
		case 4:
			what = "adding no letters to a node"
			n, err = x.AddToNode(nodes, nil)
		default:
			what = "looking up no letters below a node"
			n, err = x.FetchFromItem(nodes, nil)
		}
		nothing(r, what, n, err)
	case 4: // add below a node that is not there
		rt.Probe("no-parent")
		refuse = true
		what = fmt.Sprintf("adding %q below node %d of %d", string(o.w), missing, nodes)
		var n dag.Node
		n, err = x.AddToNode(missing, o.w)
		nothing(r, what, n, err)
	case 5: // nodes that are not there
		rt.Probe("no-node")
		refuse = true
		switch o.at % 5 {
		case 0:
			what = fmt.Sprintf("getting node %d of %d", missing, nodes)
			var n dag.Node
			n, err = x.Get(missing)
			nothing(r, what, n, err)
		case 1:
			what = fmt.Sprintf("looking up %q below node %d of %d", string(o.w), missing, nodes)
			var n dag.Node
			n, err = x.FetchFromItem(missing, o.w)
			nothing(r, what, n, err)
		case 2:
			what = fmt.Sprintf("looking up %q below item %d of %d", string(o.w), missing, nodes)
			var n *index.Node
			n, err = x.FetchItemFromParent(missing, o.w)
			if n != nil && err != nil {
				r.Fail("error-with-node", "%s: error %v comes with node %v", what, err, n)
			}
		case 3:
			what = fmt.Sprintf("attaching to node %d of %d", missing, nodes)
			n := x.GetItem(missing)
			if len(m.tags) == 0 {
				return what, nil, false
			}
			err = n.AddTagSet(m.tags[0].Name)
			if s := n.TagSets(); len(s) != 0 {
				r.Fail("changed", "%s: it has analyses %v", what, s)
			}
			_ = n.Word()
			_ = n.String()
			if it := n.Item(); it != (index.Item{}) {
				r.Fail("changed", "%s: it has item %v", what, it)
			}
		case 4:
			what = fmt.Sprintf("children of node %d of %d", missing, nodes)
			refuse = false
			if a, b := x.GetChildrenMap(missing), x.GetChildrenIDMap(missing); len(a)+len(b) != 0 {
				r.Fail("changed", "%s: %v %v", what, a, b)
			}
		}
	case 6: // the root
		rt.Probe("root")
		if len(m.tags) == 0 {
			return "nothing", nil, false
		}
		refuse = true
		what = "attaching to the root"
		n, e := x.Get(0)
		if e != nil || o.quiet {
			n = x.GetItem(0)
		}
		err = n.AddTagSet(m.tags[0].Name)
		if s := n.TagSets(); len(s) != 0 || n.Word() != "" {
			r.Fail("changed", "the root is %q with analyses %v", n.Word(), s)
		}
	case 7: // unknown tags
		rt.Probe("unknown-tag")
		refuse = true
		set := append(append([]dag.TagName(nil), o.tags...), "????")
		if i := o.at % len(set); o.quiet {
			set[len(set)-1], set[i] = set[i], set[len(set)-1]
		} else if len(set) > 1 {
			rt.Probe("unknown-tag-last")
		}
		what = fmt.Sprintf("attaching %q to %q", set, string(o.w))
		n, e := x.AddRunes(o.w)
		if nothing(r, what, n, e) != nil {
			return what, e, false
		}
		m.add(k)
		err = n.AddTagSet(set...)
	case 8: // what is not there
		what = fmt.Sprintf("looking up %q", string(o.w))
		rt.Probe("not-there")
		refuse = !m.nodes[k]
		var n dag.Node
		if o.quiet && o.w[0] > 0 && string(o.w) != "" && key([]rune(string(o.w))) == k {
			n, err = x.FetchString(string(o.w))
		} else {
			n, err = x.FetchRunes(o.w)
		}
		nothing(r, what, n, err)
	case 9: // an empty analysis is no analysis
		rt.Probe("empty-set")
		what = fmt.Sprintf("attaching nothing to %q", string(o.w))
		n, e := x.AddRunes(o.w)
		if nothing(r, what, n, e) != nil {
			return what, e, false
		}
		m.add(k)
		err = n.AddTagSet()
	case 10: // tags, tag sets and variants that are not there
		refuse = true
		if o.quiet && len(m.tags) < 256 {
			set := index.TagSet{dag.TagID(len(m.tags))}
			if len(m.tags) > 0 {
				set = append(index.TagSet{0}, set...)
			}
			what = fmt.Sprintf("tags of %v of %d", set, len(m.tags))
			_, err = x.TagSet(set)
			return
		}
		v := index.VariantID(0xFF000000 | uint32(o.id)>>8)
		what = fmt.Sprintf("variant %#x", uint32(v))
		_, err = x.Variants(v)
	case 11: // a save that fails
		data, e := save(x)
		if e != nil {
			return "saving", e, false
		}
		w := stream.NewWriter()
		w.FailAt, w.Silent, w.Sticky = o.at%len(data), o.quiet, true
		what = fmt.Sprintf("saving to a stream that fails at byte %d of %d (short: %v)", w.FailAt, len(data), o.quiet)
		refuse = true
		if o.quiet {
			rt.Probe("short-write")
		}
		rt.Probe("save-failed")
		err = x.BinaryWriteTo(binutils.NewBinaryWriter(w))
	case 12: // a load that fails
		data := other
		if o.how > 2 {
			var e error
			if data, e = save(x); e != nil {
				return "saving", e, false
			}
		}
		refuse = true
		rd := stream.NewReader(data)
		switch cut := o.at % len(data); o.how % 3 {
		case 0:
			rt.Probe("load-cut")
			rd.Data = data[:cut]
			what = fmt.Sprintf("loading the first %d of %d bytes", cut, len(data))
		case 1:
			rt.Probe("load-failed")
			rd.Fail(cut, []error{stream.ErrInjected, io.ErrUnexpectedEOF, errors.New("")}[o.pre%3], o.quiet)
			what = fmt.Sprintf("loading through a failing stream (%v)", rd)
		default:
			rt.Probe("load-other")
			if o.pre%3 == 0 { // a whole index, but its first bytes say it is a file of another kind
				d := append([]byte(nil), data...)
				d[o.at%2] ^= byte(1 + o.at%200)
				what = fmt.Sprintf("loading an index starting with %q", d[:2])
				rd.Data = d
				break
			}
			head := append([]byte("TD\x00"), make([]byte, 9+o.pre)...)
			for i := range head[3:] {
				head[3+i] = byte(o.at) + byte(i)
			}
			rd.Data = head
			if len(head) > 3 && head[3] == 0 {
				head[3] = 200
			}
			what = fmt.Sprintf("loading something else (%x)", head)
		}
		err = loadInto(x, source(rd))
	case 13: // relative operations agree with absolute ones
		rt.Probe("relative")
		pre, rest := o.w[:o.pre], o.w[o.pre:]
		var at dag.ID
		if len(pre) > 0 {
			n, e := x.FetchItemFromParent(0, pre)
			what = fmt.Sprintf("looking up %q", string(pre))
			if (e == nil) != m.nodes[key(pre)] {
				r.Fail("lookup", "%s gives %v, expected found: %v", what, e, m.nodes[key(pre)])
			}
			if e != nil {
				return what, e, true
			}
			at = n.Id()
		}
		if o.quiet {
			what = fmt.Sprintf("adding %q below %q", string(rest), string(pre))
			var n dag.Node
			n, err = x.AddToNode(at, rest)
			if nothing(r, what, n, err) == nil {
				m.add(k)
				if g := n.Word(); g != string(o.w) {
					r.Fail("lookup", "%s gives the node of %q", what, g)
				}
			}
			return
		}
		what = fmt.Sprintf("looking up %q below %q", string(rest), string(pre))
		refuse = !m.nodes[k]
		var n dag.Node
		n, err = x.FetchFromItem(at, rest)
		if nothing(r, what, n, err) == nil && n.Word() != string(o.w) {
			r.Fail("lookup", "%s gives the node of %q", what, n.Word())
		}
	}
	return
}
