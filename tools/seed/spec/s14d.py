exec(open('/verif/tools/seed/spec/common.py').read())
ID='C14-remembered-answer'; PROP='C14'
EDITS=[('pkg/opencorpora/loader.go','''	response, err := http.Head(RemoteURL)
''','''	response, err := remoteHead()
'''),('pkg/opencorpora/loader.go','''func (loader Loader) IsUpdateRequired()''','''// headInterval limits how often the server is asked for the state of its file.
const headInterval = 10 * time.Minute

var (
	lastHeadMu sync.Mutex
	lastHead   *http.Response
	lastHeadAt time.Time
)

// remoteHead asks the server for the state of its file, or tells what it answered recently.
func remoteHead() (*http.Response, error) {
	lastHeadMu.Lock()
	defer lastHeadMu.Unlock()

	if lastHead != nil && time.Since(lastHeadAt) < headInterval {
		return lastHead, nil
	}

	response, err := http.Head(RemoteURL)
	if err == nil && response.StatusCode == http.StatusOK {
		lastHead, lastHeadAt = response, time.Now()
	}

	return response, err
}

func (loader Loader) IsUpdateRequired()'''),('pkg/opencorpora/loader.go','''	"runtime/debug"
''','''	"runtime/debug"
	"sync"
''')]
NEEDS='two update checks in one process within ten minutes and a publication between them'
BREAKS='a newer publication is taken for the one stored, the update is missed'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	if required, err := loader.IsUpdateRequired(); required || err != nil {
		fail("required after the update:", required, err)
	}
	publish(archiveV2, time.Unix(1700000300, 0))
	if required, err := loader.IsUpdateRequired(); !required || err != nil {
		fail("required after a publication:", required, err)
	}
	_ = tags
''')
