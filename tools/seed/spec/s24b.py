exec(open('/verif/tools/seed/spec/common.py').read())
ID='C24-answer-not-closed'; PROP='C24'
EDITS=[('pkg/opencorpora/loader.go','''	defer func() {
		if response.Body != nil {
			_ = response.Body.Close()
		}
	}()

	if response.StatusCode != 200 {
		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
		return fmt.Errorf("unexpected response code %v", response.StatusCode)
	}
''','''	if response.StatusCode != 200 {
		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
		return fmt.Errorf("unexpected response code %v", response.StatusCode)
	}

	defer func() { _ = response.Body.Close() }()
''')]
NEEDS='the server answering the download, not the check, with an error status'
BREAKS='the answer is neither read nor closed, so its connection is never given back'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	http.DefaultTransport = overloaded{}
	if err := loader.Update(false); err == nil {
		fail("updated from an overloaded server")
	}
	if held > 0 {
		fail("answers held:", held)
	}
''')+'''
type overloaded struct{}

func (overloaded) RoundTrip(request *http.Request) (*http.Response, error) {
	response, err := remote{}.RoundTrip(request)
	if request.Method == http.MethodGet {
		response.StatusCode, response.Status = 503, "503 Service Unavailable"
		response.Body = &answer{ReadCloser: response.Body}
		held++
	}

	return response, err
}

var held int

type answer struct {
	io.ReadCloser
	given bool
}

func (a *answer) Read(p []byte) (n int, err error) {
	if n, err = a.ReadCloser.Read(p); err == io.EOF {
		a.give()
	}

	return n, err
}

func (a *answer) Close() error {
	a.give()

	return nil
}

func (a *answer) give() {
	if !a.given {
		a.given = true
		held--
	}
}
'''
