exec(open('/verif/tools/seed/spec/common.py').read())
ID='C21-unavailable-is-current'; PROP='C21'
EDITS=[('pkg/opencorpora/loader.go','''	if response.StatusCode != 200 {
		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
	}

	lastModifiedString, ok''','''	if response.StatusCode == http.StatusServiceUnavailable {
		loader.Warnf("remote %v: maintenance, try next time", RemoteURL)
		return false, nil
	}

	if response.StatusCode != 200 {
		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
	}

	lastModifiedString, ok''')]
EDITS=[('pkg/opencorpora/loader.go','''		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
	}

	lastModifiedString, ok''','''		loader.Warnf("remote %v: status: %v, try next time", RemoteURL, response.StatusCode)
		return false, nil // same as if there is nothing newer
	}

	lastModifiedString, ok''')]
NEEDS='a newer dictionary published while the server answers the update check with an error status'
BREAKS='an unforced update reports success although the compiled dictionary is not the published one'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	normal := http.DefaultTransport
	http.DefaultTransport = unavailable{}
	err := loader.Update(false)
	http.DefaultTransport = normal
	if got := tags(loader, "dogs"); err == nil && got != "NOUN plur" {
		fail("update reported success, dogs:", got)
	}
''')+'''
type unavailable struct{}

func (unavailable) RoundTrip(request *http.Request) (*http.Response, error) {
	return &http.Response{
		Status: "503 Service Unavailable", StatusCode: 503, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader(nil)), Request: request,
	}, nil
}
'''
