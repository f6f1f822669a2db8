exec(open('/verif/tools/seed/spec/common.py').read())
ID='C26-retry-timeouts'; PROP='C26'
EDITS=[('pkg/opencorpora/loader.go','''	response, err := http.Get(RemoteURL)
	if err != nil {
		return err
	}
''','''	response, err := loader.get(RemoteURL)
	if err != nil {
		return err
	}
'''),('pkg/opencorpora/loader.go','''func (loader Loader) DownloadUpdate() (''','''// get requests specified URL, once more if the server is slow.
func (loader Loader) get(url string) (*http.Response, error) {
	response, err := http.Get(url) // nolint:gosec
	if os.IsTimeout(err) {
		loader.Warnf("remote %v: %v, try again", url, err)

		return loader.get(url)
	}

	return response, err
}

func (loader Loader) DownloadUpdate() (''')]
NEEDS='a server which answers the check, but whose downloads time out again and again'
BREAKS='the update never ends'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	http.DefaultTransport = slow{}
	if err := loader.Update(true); err == nil {
		fail("updated by a server that did not answer")
	}
''').replace('func main() {','''// slow answers nothing but checks.
type slow struct{}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (slow) RoundTrip(request *http.Request) (*http.Response, error) {
	if request.Method != http.MethodGet {
		return remote{}.RoundTrip(request)
	}
	if gets++; gets > 100 {
		fail("still trying")
	}

	return nil, timeout{}
}

func main() {''')
