package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/pkg/dag"
)

// dict is one published dictionary, fully determined by its number.
type dict struct {
	id   uint32
	xml  []byte
	body []byte // compressed
	m    *model
	what string // why it is malformed, "" if it is not
}

type prng uint64

func (p *prng) next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (p *prng) n(n int) int          { return int(p.next() % uint64(n)) }
func (p *prng) one(n int) bool       { return p.n(n) == 0 }
func (p *prng) of(s []string) string { return s[p.n(len(s))] }

type lemmaSrc struct {
	id, rev string
	text    string
	g       []string
	forms   []formSrc
}

type formSrc struct {
	t string
	g []string
}

var malformations = []string{"", "cut", "empty", "other-root", "no-lemma-id", "no-form-text", "no-tag-value", "unknown-tag", "short-tag", "no-parent", "empty-form", "unknown-element", "not-xml", "bad-revision", "not-bzip2", "no-lemma-tag", "unknown-lemma-tag",
	"bad-version", "bad-lemma-id", "no-lemma-rev", "bad-lemma-rev", "no-lemma-text", "two-roots", "wrong-end",
	"too-many-tags", "too-wide-set", "too-many-analyses"}

var dictCache = map[uint64]*dict{}

// hugeID is the first number of dictionaries with more than 65536 nodes and archives of more than a megabyte.
const hugeID = 1 << 16

// twinBit in the number of a dictionary makes one that differs from it in a single letter and, if possible, in no size.
const twinBit = 1 << 24

// getDict makes dictionary number id, malformed in the given way (0: not).
func getDict(id uint32, how int) *dict {
	k := uint64(id)<<8 | uint64(how)
	if d := dictCache[k]; d != nil {
		return d
	}
	if len(dictCache) > 4000 {
		dictCache = map[uint64]*dict{}
	}
	var d *dict
	if id&twinBit == 0 {
		d = makeDict(id, how, 'в')
	} else {
		d = makeDict(id, how, 'к')
		first := getDict(id&^twinBit, how)
		for c := 'л'; c < 'у' && len(d.body) != len(first.body); c++ {
			d = makeDict(id, how, c)
		}
	}
	dictCache[k] = d
	return d
}

func esc(p *prng, s string, quote byte) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString("&amp;")
		case c == '<':
			b.WriteString("&lt;")
		case c == '"' && quote == '"':
			b.WriteString("&quot;")
		case c == '\'' && quote == '\'':
			b.WriteString("&apos;")
		case p.one(23):
			fmt.Fprintf(&b, "&#%d;", c)
		case p.one(31):
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func makeDict(number uint32, how int, first rune) *dict {
	id := number &^ twinBit
	p := prng(uint64(id)*2654435761 + 12345)
	d := &dict{id: number, m: newModel(), what: malformations[how]}
	// grammemes
	names := []string{"POST", "NOUN", "VERB", "ANim", "anim", "inan", "GNdr", "masc", "femn", "neut", "NMbr", "sing", "plur", "CAse", "nomn", "gent", "datv", "Fixd", "V-be", "аб"}
	nt := 1 + p.n(5)
	if id > 8 && p.one(4) {
		nt = 6 + p.n(14)
	}
	names = names[:nt]
	many := id > 30 && p.one(30) // as many tags as a real dictionary
	if many {
		for i, n := 0, 10+p.n(120); i < n; i++ {
			names = append(names, fmt.Sprintf("%c%c%02d", 'A'+i%26, 'a'+i%7, i%100))
		}
		nt = len(names)
	}
	var lemmas []lemmaSrc
	pick := func(max int) (g []string) {
		for i := p.n(max + 1); i > 0; i-- {
			g = append(g, p.of(names))
		}
		return g
	}
	stems := []string{"ёж", "кот", "ко", "д'арк", "а&б", "x<y", "по-русски", "дом", "до", "й", "ao\"k", "пол мира", "\U0001F40Dя"}
	ends := []string{"", "а", "у", "ом", "и", "ами", "ик", "ику"}
	nl := p.n(4)
	if id > 8 {
		nl = p.n(7)
		if p.one(40) {
			nl = 20 + p.n(40)
		}
	}
	paradigm, total, homonyms, large := 0, 0, false, false
	if id > 8 && p.one(12) { // lemmas with as many forms as real ones have
		paradigm = 10 + p.n(60)
	}
	if id > 8 && p.one(20) { // one word with many analyses
		homonyms = true
	}
	if id > 50 && p.one(250) {
		large = true
		nl = 100 + p.n(250)
		paradigm, homonyms, many = 0, false, false
	}
	if id >= hugeID {
		nl, large, paradigm, homonyms, many = 0, false, 0, false, false
	}
	// one form tells the dictionaries apart
	mark := string(first)
	for v := id; ; v /= 8 {
		mark += string([]rune("абвгдежз")[v%8])
		if v < 8 {
			break
		}
	}
	lemmas = append(lemmas, lemmaSrc{id: "1", rev: "1", text: mark, g: []string{names[0]}, forms: []formSrc{{mark, nil}}})
	for i := 0; id >= hugeID && i < 14000; i++ {
		stem := make([]rune, 6)
		for k := range stem {
			stem[k] = 'а' + rune(p.n(60))
		}
		l := lemmaSrc{id: fmt.Sprint(i + 2), rev: fmt.Sprint(p.n(1000)), text: string(stem), g: names[p.n(len(names)):][:1]}
		for k := p.n(3); k >= 0; k-- {
			l.forms = append(l.forms, formSrc{string(stem) + p.of(ends[k:]), names[p.n(len(names)):][:1]})
		}
		lemmas = append(lemmas, l)
	}
	for i := 0; i < nl; i++ {
		stem := p.of(stems)
		l := lemmaSrc{id: fmt.Sprint(i + 2), rev: fmt.Sprint(p.n(1000)), text: stem, g: pick(4)}
		if large || p.one(15) {
			stem += p.of(stems) + strings.Repeat(p.of(ends[1:]), p.n(12))
		}
		forms, tags, spread := p.n(5), 3, 1
		if paradigm > 0 && p.one(3) && total < 200 {
			forms, spread = paradigm, 3
		}
		if many && p.one(3) {
			tags = 12
		}
		total += forms
		for k := forms; k > 0; k-- {
			text := stem
			for j := 0; j < spread; j++ {
				text += p.of(ends)
			}
			if homonyms && p.one(2) {
				text = "стали"
			}
			l.forms = append(l.forms, formSrc{text, pick(tags)})
		}
		lemmas = append(lemmas, l)
		if p.one(6) { // the same lemma once more, with the same or other tags
			l.id = fmt.Sprint(i + 1000)
			if p.one(2) {
				l.g = pick(4)
			}
			lemmas = append(lemmas, l)
		}
	}
	for i, j := 0, p.n(len(lemmas)); i < 1; i++ {
		lemmas[0], lemmas[j] = lemmas[j], lemmas[0]
	}
	// as much of something as the format can hold
	if id > 30 && id < hugeID && !large && p.one(50) {
		switch p.n(3) {
		case 0:
			names = padded(names, 255)
			nt = len(names)
		case 1:
			l := lemmaSrc{id: "3000", rev: "1", text: "край", g: pick(4)}
			var g []string
			for len(l.g)+len(g) < 255 {
				g = append(g, p.of(names))
			}
			l.forms = append(l.forms, formSrc{"край", g}, formSrc{"края", pick(3)})
			lemmas = append(lemmas, l)
		default:
			lemmas = append(lemmas, manyAnalyses("предел", 255, names))
		}
	}
	if id > 12 && id%4 == 1 { // numbers as big as in real dictionaries, and about the ends of machine words
		ends := []int64{1 << 15, 1 << 16, 391_842, 1 << 24, 1 << 31, 1 << 32}
		at, rev := ends[id/4%6]-int64(id%16), ends[id/24%6]-int64(id%9)
		for i := range lemmas {
			n, _ := strconv.ParseInt(lemmas[i].id, 10, 64)
			lemmas[i].id, lemmas[i].rev = fmt.Sprint(at+n), fmt.Sprint(rev+n)
		}
	}
	// malformations of the source
	q := prng(uint64(id)<<16 + uint64(how))
	bad := q.n(len(lemmas))
	for k := 0; k < len(lemmas) && len(lemmas[bad].forms) == 0; k++ {
		bad = (bad + 1) % len(lemmas)
	}
	badGrammeme := q.n(nt)
	switch d.what { // more of something than the format can hold
	case "too-many-tags":
		names = padded(names, 256+q.n(20))
	case "too-wide-set":
		l := &lemmas[bad]
		f := &l.forms[len(l.forms)-1]
		for n := 256 + q.n(20); len(l.g)+len(f.g) < n; {
			f.g = append(f.g, q.of(names))
		}
	case "too-many-analyses":
		lemmas = append(lemmas, manyAnalyses("стекло", 256+q.n(20), names))
	}
	// text
	nl2 := ""
	if p.one(2) {
		nl2 = "\n" + strings.Repeat(" ", p.n(3))
	}
	rich := id > 4 && p.one(2)
	var b strings.Builder
	comment := func() {
		if rich && p.one(5) {
			b.WriteString(p.of([]string{"<!-- -->", "<!-- <f t=\"нет\"/> -->", "<!--x--><!--y-->", "<?pi data?>"}))
		}
	}
	attr := func(k, v string) string {
		if rich && p.one(3) {
			return fmt.Sprintf(" %s='%s'", k, esc(&p, v, '\''))
		}
		return fmt.Sprintf(" %s=\"%s\"", k, esc(&p, v, '"'))
	}
	// attrs puts attributes in any order and beside others.
	attrs := func(list ...string) string {
		if !rich {
			return strings.Join(list, "")
		}
		if p.one(8) {
			list = append(list, p.of([]string{" note=\"\"", " x='заметка'", " xml:lang=\"ru\"", " T=\"т\""}))
		}
		for i := len(list) - 1; i > 0; i-- {
			j := p.n(i + 1)
			list[i], list[j] = list[j], list[i]
		}
		return strings.Join(list, "")
	}
	// gap puts nothing or what does not matter between elements.
	gap := func() {
		if rich && p.one(12) {
			b.WriteString(p.of([]string{" ", "\n\t", "<!---->", "\n"}))
		}
	}
	tag := func(v string) {
		gap()
		at := attrs(attr("v", v))
		if rich && p.one(4) {
			b.WriteString("<g" + at + "></g>")
		} else {
			b.WriteString("<g" + at + "/>")
		}
	}
	if !p.one(4) {
		b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>" + nl2)
	}
	if rich && p.one(6) {
		b.WriteString(p.of([]string{"<!DOCTYPE dictionary>", "<!DOCTYPE dictionary SYSTEM \"opencorpora.dtd\">", "<!DOCTYPE dictionary [<!ELEMENT g EMPTY>]>"}) + nl2)
	}
	root := "dictionary"
	if d.what == "other-root" {
		root = "html"
	}
	rev := fmt.Sprint(id)
	if d.what == "bad-revision" {
		rev = "r" + rev
	}
	version := "0.92"
	if d.what == "bad-version" {
		version = "0.92-" + version
	}
	b.WriteString("<" + root + attrs(attr("version", version), attr("revision", rev)) + ">" + nl2)
	if d.what == "unknown-element" {
		b.WriteString("<extra>x</extra>")
	}
	b.WriteString("<grammemes>" + nl2)
	for i, n := range names {
		parent := ""
		if i > 0 && p.one(2) {
			parent = names[p.n(i)]
		}
		at := attr("parent", parent)
		if d.what == "no-parent" && i == badGrammeme {
			at = ""
		}
		text := n
		if d.what == "short-tag" && i == badGrammeme {
			text = string([]rune(n)[:1])
		}
		d.m.tag(dag.TagName(n), dag.TagName(parent))
		b.WriteString("<grammeme" + attrs(at) + ">")
		comment()
		switch {
		case rich && p.one(3) && len(text) == 4 && n != "аб":
			k := 1 + p.n(3)
			text = text[:k] + p.of([]string{"<!--c-->", "<![CDATA[]]>", "<?x?>"}) + text[k:]
		case rich && p.one(4):
			text = "<![CDATA[" + text + "]]>"
		}
		b.WriteString("<name>" + text + "</name><alias>" + esc(&p, strings.ToLower(n), 0) + "</alias><description>описание &amp; имя</description></grammeme>" + nl2)
	}
	b.WriteString("</grammemes>" + nl2)
	if rich && p.one(2) {
		b.WriteString("<restrictions><restr type=\"maybe\" auto=\"0\"><left type=\"lemma\"></left><right type=\"lemma\">" + names[0] + "</right></restr></restrictions>" + nl2)
	}
	if id >= hugeID { // what can hardly be compressed
		b.WriteString("<!--")
		for i := 0; i < 700_000; i++ {
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _"[p.n(64)])
		}
		b.WriteString("-->")
	}
	b.WriteString("<lemmata>" + nl2)
	for i, l := range lemmas {
		comment()
		lid := attr("id", l.id)
		if d.what == "no-lemma-id" && i == bad {
			lid = ""
		}
		if d.what == "bad-lemma-id" && i == bad {
			lid = attr("id", l.id+"a")
		}
		lrev, lt := attr("rev", l.rev), attr("t", l.text)
		if i == bad {
			switch d.what {
			case "no-lemma-rev":
				lrev = ""
			case "bad-lemma-rev":
				lrev = attr("rev", "")
			case "no-lemma-text":
				lt = ""
			}
		}
		b.WriteString("<lemma" + attrs(lid, lrev) + "><l" + attrs(lt) + ">")
		at := len(l.g)
		if i == bad && at > 0 {
			at = int(id) % (at + 1)
		}
		for k, g := range append(l.g[:len(l.g):len(l.g)], "") {
			if i == bad && k == at {
				switch d.what {
				case "no-lemma-tag":
					b.WriteString("<g/>")
				case "unknown-lemma-tag":
					b.WriteString("<g v=\"ZZZZ\"></g>")
				}
			}
			if k < len(l.g) {
				tag(g)
			}
		}
		b.WriteString("</l>")
		for k, f := range l.forms {
			comment()
			at := attr("t", f.t)
			if i == bad && k == len(l.forms)-1 {
				switch d.what {
				case "no-form-text":
					at = ""
				case "empty-form":
					at = attr("t", "")
				}
			}
			gap()
			b.WriteString("<f" + attrs(at) + ">")
			if i == bad && k == len(l.forms)-1 {
				switch d.what {
				case "no-tag-value":
					b.WriteString("<g/>")
				case "unknown-tag":
					b.WriteString("<g v=\"ZZZZ\"/>")
				}
			}
			for _, g := range f.g {
				tag(g)
			}
			gap()
			b.WriteString("</f>")
			m := key([]rune(f.t))
			d.m.add(m)
			var set []dag.TagName
			for _, g := range l.g {
				set = append(set, dag.TagName(g))
			}
			for _, g := range f.g {
				set = append(set, dag.TagName(g))
			}
			if !d.m.attach(m, set) {
				panic("harness: unknown tag in a dictionary")
			}
		}
		b.WriteString("</lemma>" + nl2)
	}
	b.WriteString("</lemmata>" + nl2)
	if rich && p.one(2) {
		b.WriteString("<link_types><type id=\"1\">ADJF-ADJS</type></link_types><links><link id=\"1\" from=\"1\" to=\"2\" type=\"1\"/></links>" + nl2)
	}
	end := "</" + root + ">"
	switch d.what {
	case "wrong-end":
		end = "</dictionery>"
	case "two-roots":
		end += end
	}
	b.WriteString(end)
	d.xml = []byte(b.String())
	switch d.what {
	case "cut":
		n := len(d.xml)
		switch q.n(3) {
		case 0:
			n -= 1 + q.n(len(end))
		default:
			n -= 1 + q.n(n)
		}
		d.xml = d.xml[:n]
	case "empty":
		d.xml = nil
	case "not-xml":
		d.xml = []byte(q.next2())
	}
	per := 1 << 20
	block := 200 + p.n(3000)
	if id > 8 && p.one(4) {
		per = 1 + p.n(2)
	}
	if id >= hugeID {
		block = 90000 // as much as the header allows
	}
	if d.what == "two-roots" {
		per = 1 << 20 // no cut between streams may leave exactly the first of them
	}
	d.body = bzip(d.xml, block, per)
	if d.what == "not-bzip2" {
		d.body = append([]byte(nil), d.xml...)
		if q.one(3) {
			d.body = []byte("<html><body>503 Service Unavailable</body></html>")
		}
	}
	if d.what != "" {
		d.m = nil
	}
	return d
}

// padded adds grammemes up to n of them.
func padded(names []string, n int) []string {
	names = names[:len(names):len(names)]
	for i := len(names); i < n; i++ {
		names = append(names, fmt.Sprintf("%c%03d", 'a'+i%26, i))
	}
	return names
}

// manyAnalyses makes a lemma with one word of n analyses.
func manyAnalyses(word string, n int, names []string) lemmaSrc {
	l := lemmaSrc{id: "2000", rev: "1", text: word, g: names[:1:1]}
	var g []string
	for i := 0; i < n; i++ {
		if i == 180 && len(names) > 1 {
			g = names[1:2:2]
		} else if i > 0 {
			g = append(g[:len(g):len(g)], names[0])
		}
		l.forms = append(l.forms, formSrc{word, g})
	}
	return l
}

func (p *prng) next2() string {
	return []string{"<html><body>Moved</body></html>", "dictionary", "\x00\x01\x02", "{\"error\": 503}", "<dictionary"}[p.n(5)]
}
