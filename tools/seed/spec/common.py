import bz2, base64
def xml(words, tags=('NOUN','VERB','sing','plur'), tail='</dictionary>'):
    s='<?xml version="1.0" encoding="utf-8"?>\n<dictionary version="0.92" revision="1">\n<grammemes>\n'
    for t in tags: s+=f'<grammeme parent=""><name>{t}</name><alias>a</alias><description>d</description></grammeme>\n'
    s+='</grammemes>\n<lemmata>\n'
    for n,(lemma,g,forms) in enumerate(words):
        s+=f'<lemma id="{n+1}" rev="{n+1}"><l t="{lemma}"><g v="{g}"/></l>'+''.join(f'<f t="{f}">'+''.join(f'<g v="{x}"/>' for x in fg)+'</f>' for f,fg in forms)+'</lemma>\n'
    return s+'</lemmata>\n'+tail
def arch(x): return base64.b64encode(bz2.compress(x.encode())).decode()
V1=xml([('cat','NOUN',[('cat',['sing']),('cats',['plur'])])])
V2=xml([('cat','NOUN',[('cat',['sing']),('cats',['plur'])]),('dog','NOUN',[('dog',['sing']),('dogs',['plur'])])])
HEAD='''package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
)

const (
	archiveV1 = "%s"
	archiveV2 = "%s"
	archiveV3 = "%s"
)

var (
	data     []byte
	modified time.Time
	gets     int
)

type remote struct{}

func (remote) RoundTrip(request *http.Request) (*http.Response, error) {
	body := []byte{}
	if request.Method == http.MethodGet {
		body = data
		gets++
	}
	header := http.Header{}
	header.Set("Last-Modified", modified.UTC().Format(http.TimeFormat))

	return &http.Response{
		Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: header,
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: request,
	}, nil
}

func publish(archive string, at time.Time) {
	var err error
	if data, err = base64.StdEncoding.DecodeString(archive); err != nil {
		fail(err)
	}
	modified = at
}

func fail(why ...interface{}) {
	fmt.Println(why...)
	os.Exit(1)
}

// tags returns sorted analyses of the word in compiled dictionary.
func tags(loader *opencorpora.Loader, word string) string {
	idx, err := loader.LoadIndex()
	if err != nil {
		fail("load:", err)
	}
	node, err := idx.FetchString(word)
	if err != nil {
		return "unknown"
	}
	var res []string
	for _, set := range node.TagSets() {
		var names []string
		for _, tag := range set {
			names = append(names, string(tag.Name))
		}
		sort.Strings(names)
		res = append(res, strings.Join(names, " "))
	}
	sort.Strings(res)

	return strings.Join(res, ",")
}

func main() {
	http.DefaultTransport = remote{}
	_ = time.Now
	_ = bytes.NewReader
	loader := opencorpora.NewLoader("data")
'''
def demo(body, v1=V1, v2=V2, v3=V2): return HEAD%(arch(v1),arch(v2),arch(v3))+body+'}\n'
