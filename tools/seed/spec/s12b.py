exec(open('/verif/tools/seed/spec/common.py').read())
ID='C12-busy-after-failure'; PROP='C12'
EDITS=[('pkg/opencorpora/loader.go','''	loader.Info("check OpenCorpora updates")

''','''	if !atomic.CompareAndSwapInt32(&updating, 0, 1) {
		loader.Info("OpenCorpora update is running already")

		return nil
	}

	defer func() {
		if err == nil {
			atomic.StoreInt32(&updating, 0)
		}
	}()

	loader.Info("check for OpenCorpora updates")

'''),('pkg/opencorpora/loader.go','''func (loader Loader) Update(''','''// updating tells that the process updates the dictionary now.
var updating int32

func (loader Loader) Update('''),('pkg/opencorpora/loader.go','''	"runtime/debug"
''','''	"runtime/debug"
	"sync/atomic"
''')]
NEEDS='an update that fails, then a forced update in the same process'
BREAKS='the forced update does nothing and reports success; the compiled dictionary stays the old one'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	normal := http.DefaultTransport
	http.DefaultTransport = unreachable{}
	if err := loader.Update(false); err == nil {
		fail("an update without the server succeeded")
	}
	http.DefaultTransport = normal
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	if got := tags(loader, "dogs"); got != "NOUN plur" {
		fail("dogs:", got)
	}
''')+'''
type unreachable struct{}

func (unreachable) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, fmt.Errorf("network is unreachable")
}
'''
