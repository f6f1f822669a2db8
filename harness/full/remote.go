package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"

	"verif.local/simrt/rt"
)

// pub is one publication on the simulated server.
type pub struct {
	*dict
	n     int
	stamp int64 // seconds
}

func (p *pub) String() string {
	s := fmt.Sprintf("#%d (dictionary %d, %s", p.n, p.id, time.Unix(p.stamp, 0).UTC().Format(time.RFC3339))
	if p.what != "" {
		s += ", malformed: " + p.what
	}
	return s + ")"
}

// remote is the simulated dictionary server behind net/http.
type remote struct {
	pubs     []*pub
	framed   bool // answers carry their length
	chunk    int  // bytes delivered at once, at most
	latency  int64
	midway   int // publish a new version after so many body reads; 0: never
	goodMid  bool
	restless int // publishes anew at every request: 1 good, 2 malformed, 3 either
	requests int
	huge     bool // publish huge dictionaries
	tagged   bool // answers carry an entity tag

	heads, gets int
	trouble     int // faults of the network since it was last cleared
	served      []*pub
	bodies      []*body_
}

// held counts the answers neither read to their end nor closed: each holds a connection.
func (s *remote) held() (n int) {
	for _, b := range s.bodies {
		if !b.closed && b.err == nil {
			n++
		}
	}
	return n
}

func newRemote() *remote {
	s := &remote{framed: !rt.OneIn(3), tagged: rt.OneIn(2), latency: int64(time.Millisecond) << uint(rt.Choose(10))}
	s.chunk = []int{1 << 20, 512, 97, 32 << 10}[rt.Choose(4)]
	http.DefaultTransport = s
	return s
}

func (s *remote) cur() *pub { return s.pubs[len(s.pubs)-1] }

// publish puts a new version on the server, with a later modification stamp.
func (s *remote) publish(malformed bool) *pub {
	id := uint32(rt.Log(15))
	if s.huge {
		id = hugeID
	}
	for {
		used := false
		for _, p := range s.pubs {
			used = used || p.id == id
		}
		if !used {
			break
		}
		id++
	}
	if len(s.pubs) > 0 && !s.huge && rt.OneIn(8) { // a change that changes no size
		if twin := s.cur().id | twinBit; twin != s.cur().id && (len(s.pubs) < 2 || s.pubs[len(s.pubs)-2].id != twin) {
			id = twin
			rt.Probe("twin")
		}
	}
	how := 0
	if malformed {
		how = 1 + rt.Choose(len(malformations)-1)
		rt.Probe("malformed")
	}
	p := &pub{dict: getDict(id, how), n: len(s.pubs) + 1, stamp: rt.TrueNS()/1e9 - 1000}
	if len(s.pubs) > 0 {
		if last := s.cur().stamp; p.stamp <= last || rt.OneIn(3) {
			p.stamp = last + 1
		}
	}
	s.pubs = append(s.pubs, p)
	return p
}

// isolated tells that the simulated machine is gone and its network with it.
var errGone = errors.New("connection lost")

var httpKinds = []string{"http-refused", "http-timeout", "http-no-such-host", "http-status", "http-bad-stamp", "http-no-stamp", "http-portal"}
var readKinds = []string{"http-reset", "http-cut", "http-corrupt", "http-stall"}

// failing are the network faults after which an answer is not usable.
var headFailures = []string{"http-refused", "http-timeout", "http-no-such-host", "http-status"}

type netError struct{ s string }

func (e netError) Error() string   { return e.s }
func (e netError) Timeout() bool   { return e.s == "i/o timeout" }
func (e netError) Temporary() bool { return true }

func (s *remote) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	if !rt.InTask() {
		return nil, errGone
	}
	s.requests++
	if s.restless > 0 {
		s.publish(s.restless == 2 || s.restless == 3 && rt.OneIn(2))
	}
	f := rt.Fire("http", req.Method, httpKinds...)
	if f == "crash" {
		rt.Crash("during an http request")
	}
	if f != "" {
		s.trouble++
	}
	rt.Sleep(s.latency)
	switch f {
	case "http-refused":
		return nil, syscall.ECONNREFUSED
	case "http-timeout":
		rt.Sleep(int64(30 * time.Second))
		return nil, netError{"i/o timeout"}
	case "http-no-such-host":
		return nil, netError{"no such host"}
	}
	p := s.cur()
	res := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, StatusCode: 200, ContentLength: -1}
	body := p.body
	if req.URL.String() != opencorpora.RemoteURL {
		res.StatusCode = 404
	}
	if f == "http-status" {
		res.StatusCode = []int{404, 500, 503, 403, 502, 204, 429, 206, 304}[rt.Choose(9)]
		if res.StatusCode/100 < 4 && conditional(req) { // these would be lies then
			res.StatusCode = 500
		}
		res.Header.Set("Last-Modified", time.Unix(p.stamp, 0).UTC().Format(http.TimeFormat))
	}
	res.Status = fmt.Sprint(res.StatusCode, " ", http.StatusText(res.StatusCode))
	res.Header.Set("Date", time.Unix(rt.TrueNS()/1e9, 0).UTC().Format(http.TimeFormat))
	if res.StatusCode != 200 {
		body = []byte("<html>" + res.Status + "</html>")
		if res.StatusCode == 206 && len(p.body) > 1 {
			body = p.body[rt.Choose(len(p.body)):]
		}
	} else {
		st := time.Unix(p.stamp, 0).UTC().Format(http.TimeFormat)
		if f == "http-bad-stamp" {
			st = []string{"yesterday", "", "2023-11-14 22:13:20", "Tue, 14 Nov 2023"}[rt.Choose(4)]
		}
		if f != "http-no-stamp" {
			res.Header.Set("Last-Modified", st)
		}
	}
	if f == "http-portal" { // somebody else answers, as networks asking to log in do
		body = []byte("<html>" + strings.Repeat("log in ", rt.Log(9)) + "</html>")
		res.StatusCode, res.Status = 200, "200 OK"
		res.Header.Del("Last-Modified")
		if k := rt.Choose(4); k > 0 {
			at := []int64{rt.TrueNS() / 1e9, 0, 2_100_000_000}[k-1]
			res.Header.Set("Last-Modified", time.Unix(at, 0).UTC().Format(http.TimeFormat))
		}
	}
	if s.tagged && f != "http-portal" {
		res.Header.Set("Etag", p.etag())
	}
	if res.StatusCode == 200 && f != "http-portal" && f != "http-bad-stamp" && f != "http-no-stamp" && conditional(req) {
		body = s.static(res, req, p)
	}
	if s.framed {
		res.ContentLength = int64(len(body))
		res.Header.Set("Content-Length", fmt.Sprint(len(body)))
	}
	if req.Method == "HEAD" {
		s.heads++
		res.Body = http.NoBody
		return res, nil
	}
	s.gets++
	s.served = append(s.served, p)
	b := &body_{s: s, d: body}
	s.bodies = append(s.bodies, b)
	res.Body = b
	return res, nil
}

// etag is what servers of files give: made of time and size.
func (p *pub) etag() string { return fmt.Sprintf("\"%x-%x\"", p.stamp, len(p.body)) }

// conditional tells that a request asks for a part of the file, or for the file if it has changed.
func conditional(req *http.Request) bool {
	for _, h := range []string{"Range", "If-Modified-Since", "If-Unmodified-Since", "If-None-Match", "If-Match"} {
		if req.Header.Get(h) != "" {
			return true
		}
	}
	return false
}

// static answers such a request the way servers of files do.
func (s *remote) static(res *http.Response, req *http.Request, p *pub) []byte {
	w := &answer{h: res.Header, status: 200}
	w.h.Set("Content-Type", "application/x-bzip2")
	http.ServeContent(w, req, "", time.Unix(p.stamp, 0).UTC(), bytes.NewReader(p.body))
	res.StatusCode, res.Status = w.status, fmt.Sprint(w.status, " ", http.StatusText(w.status))
	w.h.Del("Content-Length")
	return w.b.Bytes()
}

type answer struct {
	h      http.Header
	b      bytes.Buffer
	status int
}

func (a *answer) Header() http.Header         { return a.h }
func (a *answer) Write(p []byte) (int, error) { return a.b.Write(p) }
func (a *answer) WriteHeader(status int)      { a.status = status }

type body_ struct {
	s      *remote
	d      []byte
	reads  int
	err    error
	closed bool
}

func (b *body_) Close() error { b.closed = true; return nil }

func (b *body_) Read(p []byte) (int, error) {
	if !rt.InTask() {
		return 0, errGone
	}
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	b.reads++
	if b.s.midway > 0 {
		if b.s.midway--; b.s.midway == 0 {
			b.s.publish(!b.s.goodMid && rt.OneIn(6))
			rt.Probe("published-during-download")
		}
	}
	rt.Sleep(b.s.latency)
	f := rt.Fire("http-read", "body", readKinds...)
	if f == "crash" {
		rt.Crash("during a download")
	}
	if f != "" && f != "http-stall" {
		b.s.trouble++
	}
	switch f {
	case "http-reset":
		b.err = syscall.ECONNRESET
		return 0, b.err
	case "http-cut":
		b.err = io.EOF
		if b.s.framed {
			b.err = io.ErrUnexpectedEOF
		}
		if ends := streamEnds(b.d); len(ends) > 0 && rt.OneIn(2) {
			b.d = b.d[:ends[rt.Choose(len(ends))]]
			rt.Probe("cut-between-streams")
		} else if len(b.d) > 0 {
			b.d = b.d[:rt.Choose(len(b.d))]
		}
	case "http-corrupt":
		c := append([]byte(nil), b.d...)
		for k := 1 + rt.Choose(3); k > 0 && len(c) > 0; k-- {
			c[rt.Choose(len(c))] ^= byte(1 + rt.Choose(255))
		}
		b.d = c
	case "http-stall":
		rt.Sleep(int64(time.Hour) * int64(1+rt.Choose(100)))
	}
	n := len(p)
	if n > b.s.chunk {
		n = b.s.chunk
	}
	n = copy(p[:n], b.d)
	b.d = b.d[n:]
	if len(b.d) == 0 {
		if b.err == nil {
			b.err = io.EOF
		}
		if n == 0 || rt.OneIn(2) {
			return n, b.err
		}
	}
	return n, nil
}

// streamEnds returns where the parts of an archive of several end.
func streamEnds(d []byte) (ends []int) {
	for i := 1; i+10 <= len(d); i++ {
		if string(d[i:i+3]) == "BZh" && string(d[i+4:i+10]) == "1AY&SY" {
			ends = append(ends, i)
		}
	}
	return ends
}
