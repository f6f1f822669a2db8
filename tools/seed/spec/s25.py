exec(open('/verif/tools/seed/spec/common.py').read())
ID='C25-shared-parsers'; PROP='C25'
EDITS=[('pkg/opencorpora/parser.go','''type Parser struct {''','''// elementParsers maps an element path to its processor.
var elementParsers = make(map[string]elementProcessor)

type Parser struct {'''),
('pkg/opencorpora/parser.go','''		parsers:         make(map[string]elementProcessor),
''','''		parsers:         elementParsers,
''')]
NEEDS='two dictionaries compiled in one process, the second compilation starting before the first one ended'
BREAKS='elements of the first dictionary are handled by the parser of the second one: dictionaries are mixed or incomplete'
DEMO=demo('''	read, _ := base64.StdEncoding.DecodeString(archiveV1)
	first, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(read)))
	if err != nil {
		fail(err)
	}
	read, _ = base64.StdEncoding.DecodeString(archiveV2)
	second, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(read)))
	if err != nil {
		fail(err)
	}
	var padded []byte // nothing but white space, to be read while the other one is compiled
	cut := bytes.Index(first, []byte("<lemmata>"))
	padded = append(padded, first[:cut]...)
	padded = append(padded, bytes.Repeat([]byte(" "), 1<<17)...)
	if err := os.MkdirAll("data", 0o755); err != nil {
		fail(err)
	}
	if err := os.WriteFile("data/second.xml", second, 0o644); err != nil {
		fail(err)
	}
	if err := syscall.Mkfifo("data/first.xml", 0o644); err != nil {
		fail(err)
	}
	done := make(chan error, 1)
	go func() { done <- loader.ParseUpdate("data/first.xml", "data/first.dat") }()
	// once for the loader looking at the file and once for the parser reading it, unless it is one and the same
	feed, err := os.OpenFile("data/first.xml", os.O_RDWR, 0)
	if err != nil {
		fail(err)
	}
	if _, err := feed.Write(padded); err != nil { // more than a pipe keeps: the parser has read the beginning
		fail(err)
	}
	if err := opencorpora.NewLoader("data").ParseUpdate("data/second.xml", "data/second.dat"); err != nil {
		fail("second:", err)
	}
	if _, err := feed.Write(first[cut:]); err != nil {
		fail(err)
	}
	feed.Close()
	if err := <-done; err != nil {
		fail("first:", err)
	}
	for name, want := range map[string]string{"first": "unknown", "second": "NOUN sing"} {
		if err := os.Rename("data/"+name+".dat", "data/opencorpora.dat"); err != nil {
			fail(err)
		}
		if got := tags(loader, "dog"); got != want {
			fail(name, "dog:", got, "expected", want)
		}
		if got := tags(loader, "cats"); got != "NOUN plur" {
			fail(name, "cats:", got)
		}
	}
''').replace('	"bytes"\n','	"bytes"\n	"compress/bzip2"\n').replace('	"strings"\n','	"strings"\n	"syscall"\n')
