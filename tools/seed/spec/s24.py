exec(open('/verif/tools/seed/spec/common.py').read())
ID='C24-closed-when-loaded'; PROP='C24'
EDITS=[('pkg/opencorpora/loader.go','''	defer func() {
		loader.Debugf("loading finished %v", fromFile)
		if closeErr := reader.Close(); closeErr != nil {
			loader.Warnf("close index: %v", closeErr)
		}

		if err != nil {
			loader.Error(err.Error())
		} else {
			loader.Infof("compiled index loaded from %v", fromFile)
		}
	}()
''','''	defer func() {
		loader.Debugf("loading finished %v", fromFile)

		if err != nil {
			loader.Error(err.Error())
			return
		}

		if closeErr := reader.Close(); closeErr != nil {
			loader.Warnf("close index: %v", closeErr)
		}

		loader.Infof("compiled index loaded from %v", fromFile)
	}()
''')]
NEEDS='loading a damaged compiled index'
BREAKS='every failed load leaves a file open'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	if err := os.WriteFile("data/opencorpora.dat", []byte("damaged"), 0o644); err != nil {
		fail(err)
	}
	debug.SetGCPercent(-1) // nothing is closed by chance
	if _, err := loader.LoadIndex(); err == nil {
		fail("damaged index loaded")
	}
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fail(err)
	}
	for _, entry := range entries {
		if to, err := os.Readlink("/proc/self/fd/" + entry.Name()); err == nil && strings.HasSuffix(to, "opencorpora.dat") {
			fail("left open:", to)
		}
	}
''').replace('	"os"\n','	"os"\n	"runtime/debug"\n')
