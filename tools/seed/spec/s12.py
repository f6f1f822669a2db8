exec(open('/verif/tools/seed/spec/common.py').read())
ID='C12-stale-unpacked'; PROP='C12'
EDITS=[('pkg/opencorpora/loader.go','''	case err != nil && forceRecompile && unpackedExists:
		loader.Errorf("check update: %v, force recompile using previous unpacked file", err)
''','''	case (err != nil || !updateRequired) && forceRecompile && unpackedExists:
		loader.Infof("no update: %v, force recompile using previous unpacked file", err)
''')]
NEEDS='an update interrupted after the new archive was stored and before it was unpacked, followed by a forced update'
BREAKS='the forced update compiles the dictionary unpacked for the previous version and reports success'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	// interrupted after download
	if updated, err := loader.DownloadUpdate(); err != nil || !updated {
		fail("download:", updated, err)
	}
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	if got := tags(loader, "dogs"); got != "NOUN plur" {
		fail("dogs:", got)
	}
''')
