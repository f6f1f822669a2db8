exec(open('/verif/tools/seed/spec/common.py').read())
ID='C24-ticker-runs-on'; PROP='C24'
EDITS=[('pkg/opencorpora/loader.go','''	loader.Debug("create index instance")
	mainIndex = index.New()
''','''	loader.Debug("create index instance and report progress")
	finished := make(chan struct{})
	go func() {
		ticker := time.NewTicker(10 * time.Second)
		defer ticker.Stop()
		for {
			select {
			case <-ticker.C:
				loader.Debugf("still loading %v", fromFile)
			case <-finished:
				return
			}
		}
	}()

	mainIndex = index.New()
'''),('pkg/opencorpora/loader.go','''		return nil, fmt.Errorf("%w: read index: %v", Error, err)
	}
''','''		return nil, fmt.Errorf("%w: read index: %v", Error, err)
	}

	close(finished)
''')]
NEEDS='loading a damaged compiled index'
BREAKS='the goroutine reporting progress of the failed loading runs on for ever'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(false); err != nil {
		fail(err)
	}
	path := loader.DataPath() + "/" + opencorpora.LocalCompiledFilename
	content, err := os.ReadFile(path)
	if err != nil {
		fail(err)
	}
	if err = os.WriteFile(path, content[:len(content)/2], 0o600); err != nil {
		fail(err)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		if _, err = loader.LoadIndex(); err == nil {
			fail("damaged index loaded")
		}
	}
	time.Sleep(time.Second)
	if after := runtime.NumGoroutine(); after > before+5 {
		fail("goroutines:", before, after)
	}
''').replace('\t"os"\n','\t"os"\n\t"runtime"\n',1)
