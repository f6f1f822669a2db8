package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/amarin/logging"
	"github.com/chzyer/readline"

	"github.com/amarin/gomorphy/internal/index"
	shell "github.com/amarin/gomorphy/internal/zzcmd/opencorpora_test"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"

	"verif.local/simrt/flag"
	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

var c20 = sim.Prop{
	ID: "C20", Quick: 40000, Thorough: 4_000_000,
	Rule: "a run compiles a generated dictionary and starts the shell on it - sometimes on a missing or damaged index - with a script of 3..40 lines: stored, similar and unknown words, every " +
		"command with good, boundary, negative, huge, missing and strange arguments, and reloads after the compiled index was replaced, damaged or removed, under disk faults or while an updater " +
		"works with faults and kills; every answer must be that of one dictionary the session can have loaded, every line must be answered, and only exit or the end of the input may end the " +
		"session; non-trivial: a reload happened, a fault was injected or a strange argument was given",
	Run: runC20, Real: append([]string{"cmd/opencorpora_test", "cmd/opencorpora_update"}, loaderParts...),
	Stub: append([]string{"chzyer/readline (lines from the script)"}, loaderStubs...),
	Want: []string{"known-word", "unknown-word", "bad-argument", "reload", "reload-failed", "reload-new", "start-failed", "updater", "damaged", "removed", "crash", "read-error", "short-read", "open-error", "loaded-damaged", "last-node"},
}

// version is a compiled index the shell may be using.
type version struct {
	m *model       // nil: a damaged file that still loads, whose answers are unknown
	x *index.Index // the harness's own copy
}

// session is one run of the shell.
type session struct {
	*site
	proc  int
	seen  map[string]*version // compiled file -> what it holds; nil: does not load
	vis   []*version          // what was at the path since the last reload began
	last  int64               // version counter of the file
	cand  []*version          // what the shell can have loaded
	out   strings.Builder
	wrong bool // an error was logged
	fired int

	line   string
	judge  func(v *version) string // checks the answer to line; nil: none
	reload bool
	asked  int
	left   int
	ended  bool // exit was typed or the input ended
}

func (s *session) compiled() string { return s.path(opencorpora.LocalCompiledFilename) }

// hold examines what is at the path now.
func (s *session) hold() *version {
	data, ok := simos.HarnessGet(s.compiled())
	if !ok {
		return nil
	}
	if v, ok := s.seen[string(data)]; ok {
		return v
	}
	x := index.New()
	var v *version
	if err := loadInto(x, bytes.NewReader(data)); err == nil {
		v = &version{x: x}
		for _, m := range s.models() {
			if m != nil && differs(x, m) == "" {
				v.m = m
			}
		}
	}
	s.seen[string(data)] = v
	return v
}

// look notes a change of the compiled file.
func (s *session) look() {
	if n := simos.HarnessVersion(s.compiled()); n != s.last {
		s.last = n
		s.vis = append(s.vis, s.hold())
	}
}

func (s *session) put(level logging.Level, text string) {
	if rt.Proc() != s.proc {
		return
	}
	if level >= logging.LevelError {
		s.wrong = true
	}
	s.out.WriteString("\n" + text + "\n") // another stream than the terminal
}

// words in text that are tag names of v, line by line.
func tokens(v *version, text string) (lines [][]string) {
	for _, l := range strings.Split(text, "\n") {
		var ts []string
		for _, t := range strings.FieldsFunc(l, func(c rune) bool { return strings.ContainsRune(" []{}(),;:<>`'\"\t", c) }) {
			if v.m.known[dag.TagName(t)] {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			sort.Strings(ts)
			lines = append(lines, ts)
		}
	}
	return lines
}

// analyses checks that the answer gives exactly these analyses, one on each line.
func analyses(v *version, text string, want []string) string {
	var have []string
	for _, ts := range tokens(v, text) {
		have = append(have, strings.Join(ts, "+"))
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("gives analyses %q instead of %q", have, want)
	}
	return ""
}

func setNames(v *version, set index.TagSet) string {
	var ns []dag.TagName
	for _, id := range set {
		t, _ := v.x.Tags().Get(id)
		ns = append(ns, t.Name)
	}
	return analysis(ns)
}

// number makes an argument near the boundary n.
func (s *session) number(n int) string {
	k := rt.Weighted(24, 8, 8, 1, 4, 4, 4, 1)
	if k > 1 {
		s.r.Probe("bad-argument")
		s.r.NonTrivial()
	}
	switch k {
	case 0:
		return strconv.Itoa(rt.Choose(n + 1))
	case 1:
		return strconv.Itoa(n - rt.Choose(2))
	case 2:
		return strconv.Itoa(n + 1 + rt.Choose(3))
	case 3:
		return []string{"-1", "-2", "-4294967295", "-65536", "-9223372036854775808"}[rt.Choose(5)]
	case 4:
		return []string{"4294967295", "4294967296", "4294967297", "18446744073709551615", "9223372036854775807", "65536", "99999999999999999999999"}[rt.Choose(7)]
	case 5:
		return []string{"0x1", "0x10000", "0xffffffff", "0b1", "1e3", "+1", "01", "1.0", "0x"}[rt.Choose(9)]
	case 6:
		return []string{"", "count", "tables", "table", "id", "info", "\x00", "\xff\xfe", "ёж", "NOUN", "noun", "%v%d%s", strings.Repeat("9", 5000)}[rt.Choose(13)]
	default:
		return strconv.Itoa(-rt.Choose(n + 2))
	}
}

// parse reads a number the way the commands document: decimal, hexadecimal, not negative.
func parse(arg string, base int) (int, bool) {
	n, err := strconv.ParseUint(arg, base, 32)
	return int(n), err == nil
}

// typed makes the next line and what its answer must be.
func (s *session) typed() {
	s.judge, s.reload = nil, false
	v := s.cand[rt.Choose(len(s.cand))]
	var keys []string
	tags, nodes, tables := 3, 5, 2
	if v.m != nil {
		keys = v.m.keys()
		tags, nodes, tables = len(v.m.tags), v.x.NodesCount(), len(v.x.TagSetIndex())
	}
	short := rt.OneIn(2)
	name := func(long string) string {
		if short {
			return long[:1]
		}
		return long
	}
	none := func(v *version) string { return analyses(v, s.out.String(), nil) }
	bad := func(v *version) string {
		if !s.wrong {
			return "is no error"
		}
		if len(tokens(v, s.line)) > 0 { // the message may repeat the argument
			return ""
		}
		return none(v)
	}
	switch rt.Weighted(6, 2, 2, 2, 3, 3) {
	case 0: // a word
		w := "ёж"
		if len(keys) > 0 {
			w = string(unkey(keys[rt.Choose(len(keys))]))
		}
		switch rt.Weighted(6, 1, 1, 1, 1) {
		case 1:
			w += "ъ"
		case 2:
			r := []rune(w)
			r[rt.Choose(len(r))]++
			w = string(r)
		case 3:
			w = []string{"", " ", "\x00", "\xff", strings.Repeat("а", 3000), "ёж ёж", " ёж", "%s%n", "хвост\t"}[rt.Choose(9)]
		case 4:
			w = strings.ToUpper(w)
		}
		switch strings.Split(w, " ")[0] { // would be a command
		case "tag", "t", "set", "s", "var", "v", "node", "n", "reload", "r", "exit", "e":
			w = "ёж"
		}
		s.line = w
		s.judge = func(v *version) string {
			forms := v.m.forms[key([]rune(w))]
			if len(forms) > 0 {
				rt.Probe("known-word")
			} else {
				rt.Probe("unknown-word")
			}
			return analyses(v, s.out.String(), sorted(forms))
		}
	case 1: // tag
		if rt.OneIn(8) {
			s.line = name("tag") + " count"
			s.judge = func(v *version) string {
				if n := strconv.Itoa(len(v.m.tags)); !hasNumber(s.out.String(), n) {
					return "does not say " + n
				}
				return ""
			}
			break
		}
		arg := s.number(tags - 1)
		if v.m != nil && rt.OneIn(3) {
			arg = string(v.m.tags[rt.Choose(len(v.m.tags))].Name)
			if rt.OneIn(3) {
				arg = strings.ToLower(arg)
			}
		}
		s.line = name("tag") + " " + arg
		s.judge = func(v *version) string {
			want := map[string]bool{}
			id, err := strconv.Atoi(arg)
			if err == nil {
				if id >= 0 && id < len(v.m.tags) {
					want[describe(v.m.tags[id])] = true
				}
			} else if arg == "count" {
				return ""
			} else {
				for _, t := range v.m.tags {
					if strings.EqualFold(string(t.Name), arg) {
						want[describe(t)] = true
					}
				}
			}
			if len(want) == 0 {
				return bad(v)
			}
			var have []string
			for _, ts := range tokens(v, s.out.String()) {
				have = append(have, strings.Join(ts, "+"))
			}
			if len(have) != 1 || !want[have[0]] {
				return fmt.Sprintf("describes %q instead of %q", have, sorted(want))
			}
			return ""
		}
	case 2: // set
		switch rt.Weighted(1, 2, 5) {
		case 0:
			s.line = name("set") + " tables"
			s.judge = func(v *version) string {
				if n := strconv.Itoa(len(v.x.TagSetIndex())); !hasNumber(s.out.String(), n) {
					return "does not say " + n
				}
				return ""
			}
		case 1:
			arg := s.number(tables - 1)
			s.line = name("set") + " table " + arg
			s.judge = func(v *version) string {
				n, err := strconv.Atoi(arg)
				if ok := err == nil && n >= 0 && n < len(v.x.TagSetIndex()); ok == s.wrong {
					return fmt.Sprintf("is an error: %v", s.wrong)
				}
				return ""
			}
		case 2:
			arg := s.number(3)
			if v.m != nil && rt.OneIn(2) { // a set in one of the tables
				if n := rt.Choose(len(v.x.TagSetIndex())); v.x.TagSetIndex()[n].Len() > 0 {
					arg = fmt.Sprintf("0x%x", n<<16+rt.Choose(v.x.TagSetIndex()[n].Len()))
				}
			}
			s.line = name("set") + " " + arg
			s.judge = func(v *version) string {
				if arg == "tables" || arg == "table" {
					return ""
				}
				n, ok := parse(arg, 0)
				wide, err := strconv.ParseInt(arg, 0, 64)
				known := !ok && err == nil && !s.wrong
				if known { // taken modulo the size of an id
					n, ok = int(uint32(wide)), true
				}
				set := index.TagSet{}
				if ok {
					set, ok = v.x.TagSetIndex().Get(index.TagSetID(n))
				}
				if !ok {
					return bad(v)
				}
				w := analyses(v, s.out.String(), []string{setNames(v, set)})
				if known && w == "" {
					w = "*wide-set"
				}
				return w
			}
		}
	case 3: // var
		arg := s.number(3)
		if v.m != nil && len(keys) > 0 && rt.OneIn(2) {
			if node, err := v.x.FetchItemFromParent(0, unkey(keys[rt.Choose(len(keys))])); err == nil {
				arg = strconv.Itoa(int(node.Item().Variants))
			}
		}
		s.line = name("var") + " " + arg
		s.judge = func(v *version) string {
			n, ok := parse(arg, 0)
			var ids index.TagSetIDCollection
			if ok {
				var err error
				ids, err = v.x.Variants(index.VariantID(n))
				ok = err == nil
			}
			if !ok {
				return bad(v)
			}
			var want []string
			for _, id := range ids {
				set, _ := v.x.TagSetIndex().Get(id)
				want = append(want, setNames(v, set))
			}
			return analyses(v, s.out.String(), want)
		}
	case 4: // node
		if rt.OneIn(8) {
			s.line = name("node") + " count"
			s.judge = func(v *version) string {
				if n := strconv.Itoa(len(v.m.nodes)); !hasNumber(s.out.String(), n) {
					return "does not say " + n
				}
				return ""
			}
			break
		}
		arg := s.number(nodes)
		if len(keys) > 0 && rt.OneIn(3) {
			arg = string(unkey(keys[rt.Choose(len(keys))]))
		}
		if strings.Contains(arg, " ") {
			arg = "ёж"
		}
		s.line = name("node") + " " + arg
		s.judge = func(v *version) string {
			if arg == "count" {
				return ""
			}
			w, class := arg, ""
			if n, err := strconv.Atoi(arg); err == nil {
				switch {
				case n < 0 && !s.wrong: // taken modulo the size of an id
					n, class = int(uint32(n)), "*negative-node"
				case n < 0 || n > len(v.m.nodes):
					return bad(v)
				case n == len(v.m.nodes):
					rt.Probe("last-node")
					if s.wrong && bad(v) == "" {
						return "*last-node"
					}
				}
				if n == 0 { // the root
					if w := none(v); w != "" {
						return w
					}
					return class
				}
				node, err := v.x.Get(dag.ID(n))
				if err != nil {
					return "node " + arg + ": " + err.Error()
				}
				w = node.Word()
			} else if !v.m.nodes[key([]rune(arg))] {
				return bad(v)
			}
			if !strings.Contains(s.out.String(), w) {
				return fmt.Sprintf("does not name %q", w)
			}
			if w := analyses(v, s.out.String(), sorted(v.m.forms[key([]rune(w))])); w != "" {
				return w
			}
			return class
		}
	case 5:
		if rt.OneIn(3) { // too few or too many arguments
			s.line = []string{"tag", "set", "var", "node", "t ", "s ", "v ", "n ", "tag 1 2", "set table", "set table 1 2", "node 1 2", "tag  1", "set table "}[rt.Choose(14)]
			s.r.Probe("bad-argument")
			s.r.NonTrivial()
			s.judge = func(v *version) string {
				if !s.wrong {
					return "is no error"
				}
				return ""
			}
			break
		}
		s.line = name("reload")
		s.reload = true
		s.event()
		s.vis = []*version{s.hold()}
		s.last = simos.HarnessVersion(s.compiled())
		s.r.Probe("reload")
		s.r.NonTrivial()
	}
}

// event changes the disk before a reload.
func (s *session) event() {
	path := s.compiled()
	data, ok := simos.HarnessGet(path)
	switch k := rt.Weighted(4, 2, 1, 2, 3); {
	case k == 1 && ok && len(data) > 0:
		s.r.Probe("damaged")
		d := append([]byte(nil), data...)
		switch rt.Choose(3) {
		case 0:
			d = d[:rt.Choose(len(d))]
		case 1:
			d[rt.Choose(len(d))] ^= 1 << uint(rt.Choose(8))
		case 2:
			i := rt.Choose(len(d))
			copy(d[i:], bytes.Repeat([]byte{byte(rt.Choose(256))}, 1+rt.Choose(20)))
		}
		simos.HarnessPut(path, d, rt.LocalNS())
	case k == 2 && ok:
		s.r.Probe("removed")
		simos.HarnessRemoveAll(path)
	case k == 3: // a good one again
		p := s.srv.pubs[rt.Choose(len(s.srv.pubs))]
		for d, v := range s.seen {
			if v != nil && v.m == p.m && p.m != nil {
				simos.HarnessPut(path, []byte(d), rt.LocalNS())
				break
			}
		}
	case k == 4:
		rt.Arm([]string{"open", "read", "close"}[rt.Choose(3)], rt.Log(6))
	}
}

func describe(t dag.Tag) string {
	d := []string{string(t.Name)}
	if t.Parent != dag.EmptyTagName {
		d = append(d, string(t.Parent))
	}
	sort.Strings(d)
	return strings.Join(d, "+")
}

func hasNumber(text, n string) bool {
	for _, t := range strings.FieldsFunc(text, func(c rune) bool { return c < '0' || c > '9' }) {
		if t == n {
			return true
		}
	}
	return false
}

// answered checks the answer to the line typed last.
func (s *session) answered() {
	r := s.r
	text := s.out.String()
	if strings.TrimSpace(text) == "" {
		r.Fail("unanswered", "line %.80q got no answer", s.line)
		return
	}
	if s.reload {
		s.look()
		fired := rt.FiredAt[s.fired:]
		var now []*version
		all := true
		for _, v := range s.vis {
			if v != nil {
				now = append(now, v)
			} else {
				all = false
			}
		}
		switch {
		case s.wrong: // stays with what it had
			r.Probe("reload-failed")
			if all && len(fired) == 0 {
				r.Fail("reload-failed", "reload failed although the compiled index was good all the time and nothing went wrong: %.500s", text)
			}
		case len(now) == 0:
			r.Fail("reload-silent", "reload reported no error, but there was no compiled index that loads: %.500s", text)
		default:
			r.Probe("reload-new")
			s.cand = now
		}
		return
	}
	if s.judge == nil {
		return
	}
	var left, maybe []*version
	why, class := "", ""
	for _, v := range s.cand {
		if v.m == nil {
			left = append(left, v)
			continue
		}
		switch w := s.judge(v); {
		case strings.HasPrefix(w, "*"): // wrong in a way of its own
			maybe, class = append(maybe, v), w[1:]
		case w != "":
			why += w + "; "
		default:
			left = append(left, v)
		}
	}
	if len(left) == 0 && len(maybe) > 0 {
		r.Fail(class, "line %.80q (after %d lines) is answered with another item or none: %.1500s", s.line, s.asked, text)
	}
	left = append(left, maybe...)
	if len(left) == 0 {
		r.Fail("wrong-answer", "line %.80q (after %d lines): the answer %s\nit was: %.1500s", s.line, s.asked, why, text)
		return
	}
	s.cand = left
}

// next is what the shell reads its lines from.
func (s *session) next() (string, error) {
	if rt.Proc() != s.proc {
		return "", io.EOF
	}
	rt.Quiet(func() {
		if s.asked > 0 {
			s.answered()
			s.r.Log("%.60q -> %d bytes, error %v; can be using %d dictionaries", s.line, s.out.Len(), s.wrong, len(s.cand))
		}
	})
	if s.r.Failed() {
		s.ended = true
		return "", io.EOF
	}
	rt.Disarm()
	rt.Sleep(int64(time.Millisecond) << uint(rt.Choose(8)))
	s.out.Reset()
	s.wrong = false
	s.fired = len(rt.FiredAt)
	if s.left--; s.left < 0 {
		s.ended = true
		switch rt.Choose(3) {
		case 0:
			return "", io.EOF
		case 1:
			return "", readline.ErrInterrupt
		}
		return []string{"exit", "e"}[rt.Choose(2)], nil
	}
	rt.Quiet(s.typed)
	s.asked++
	s.r.Shape("%.20s", s.line)
	return s.line, nil
}

func runC20(r *sim.R) {
	s := &session{site: newSite(r), seen: map[string]*version{}, proc: 230}
	s.dir = ""
	s.srv.publish(false)
	if err, _ := s.update(true); err != nil {
		r.Fail("failed", "the first update failed although nothing went wrong: %v; dictionary: %s", err, short(s.srv.cur().xml))
	}
	simos.MakeDurable()
	r.Must(rt.Call(big, func() { rt.Quiet(func() { s.hold() }) }), "examining the compiled index")
	if rt.OneIn(10) {
		s.event()
	}
	r.Must(rt.Call(big, func() {
		rt.Quiet(func() {
			s.vis = []*version{s.hold()}
			s.last = simos.HarnessVersion(s.compiled())
		})
	}), "examining the compiled index")
	s.left = 3 + rt.Choose(10)
	if rt.OneIn(8) {
		s.left += 30
	}
	s.cand = nil
	var others []rt.Client
	if rt.OneIn(4) {
		r.Probe("updater")
		n := 1 + rt.Choose(2)
		force := rt.OneIn(2)
		rt.StartProc(231)
		others = append(others, rt.Client{Proc: 231, Fn: func() {
			for ; n > 0; n-- {
				rt.Sleep(int64(time.Millisecond) << uint(rt.Choose(9)))
				rt.Quiet(func() { s.srv.publish(rt.OneIn(4)) })
				_ = opencorpora.NewLoader("").Update(force)
			}
		}})
		if rt.OneIn(3) {
			armUpdate()
		}
		if rt.OneIn(4) {
			armKill()
		}
	}
	started := false
	first := s.vis[0]
	readline.Next = func() (string, error) {
		if !started && rt.Proc() == s.proc {
			started = true
			rt.Quiet(func() {
				s.look()
				for _, v := range s.vis {
					if v != nil {
						s.cand = append(s.cand, v)
					}
				}
				if len(s.cand) == 0 {
					s.r.Fail("started-without", "the shell started although there was no compiled index that loads")
				}
				for _, v := range s.cand {
					if v.m == nil {
						s.r.Probe("loaded-damaged")
					}
				}
			})
		}
		return s.next()
	}
	logging.Sink = s.put
	rt.Terminal = func(t string) {
		if rt.Proc() == s.proc {
			s.out.WriteString(t)
		}
	}
	simos.Conf().OnChange = s.look
	rt.StartProc(s.proc)
	fired := len(rt.FiredAt)
	code := errors.New("did not end")
	outs := rt.Exec(rt.Budget{Steps: 200_000_000, Alloc: 400_000_000}, append([]rt.Client{{Proc: s.proc, Fn: func() {
		flag.Boot()
		shell.Main()
		code = nil
	}}}, others...)...)
	readline.Next, logging.Sink, rt.Terminal = nil, nil, nil
	simos.Conf().OnChange = nil
	if r.Failed() {
		r.Stop()
	}
	if rt.FaultCount > 0 {
		r.NonTrivial()
	}
	for _, o := range outs[1:] {
		if o.Stop != rt.StopCrash {
			r.Must(o, "an update")
		}
	}
	o := outs[0]
	r.Log("the shell ended: %v after %d lines; faults %v", o, s.asked, rt.FiredAt)
	if o.Stop == rt.StopCrash {
		return
	}
	if o.Stop == rt.StopExit {
		if code = nil; o.Detail != "0" {
			code = errors.New("exit code " + o.Detail)
		}
		o = rt.Outcome{OK: true}
	}
	if f := strings.Split(s.line, " "); !o.OK && len(f) > 1 {
		n, err := strconv.Atoi(f[len(f)-1])
		if err == nil && n < 0 && strings.HasPrefix(fmt.Sprint(o.Panic), fmt.Sprintf("runtime error: index out of range [%d]", n)) {
			switch {
			case len(f) == 2 && (f[0] == "tag" || f[0] == "t"):
				r.Fail("negative-tag", "the line %.100q crashed the shell: %v", s.line, o.Panic)
				return
			case len(f) == 3 && (f[0] == "set" || f[0] == "s") && f[1] == "table":
				r.Fail("negative-table", "the line %.100q crashed the shell: %v", s.line, o.Panic)
				return
			}
		}
	}
	r.Must(o, fmt.Sprintf("the shell given the line %.100q", s.line))
	switch {
	case !started && code == nil:
		r.Fail("start-silent", "the shell ended with success without reading a line; compiled index loads: %v", first != nil)
	case !started:
		r.Probe("start-failed")
		if first != nil && len(rt.FiredAt) == fired {
			r.Fail("start-failed", "the shell did not start although there is a compiled index and nothing went wrong: %v", code)
		}
	case !s.ended && s.reload && code != nil: // giving up is an answer to a reload that failed
		r.Probe("reload-failed")
		s.look()
		all := true
		for _, v := range s.vis {
			all = all && v != nil
		}
		if !s.wrong {
			r.Fail("reload-silent", "the shell ended without any error message when it was to reload: %v", code)
		}
		if all && len(rt.FiredAt) == s.fired {
			r.Fail("reload-failed", "reload failed although the compiled index was good all the time and nothing went wrong: %.500s", s.out.String())
		}
	case !s.ended:
		r.Fail("session-ended", "the line %.100q ended the session: %v", s.line, code)
	}
}
