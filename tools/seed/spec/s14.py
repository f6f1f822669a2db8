exec(open('/verif/tools/seed/spec/common.py').read())
ID='C14-small-difference'; PROP='C14'
EDITS=[('pkg/opencorpora/loader.go','''		if lastModified.After(fileStat.ModTime()) {
''','''		if lastModified.Sub(fileStat.ModTime()) > time.Minute {
''')]
NEEDS='a corrected dictionary published less than a minute after the one which was downloaded'
BREAKS='the newer publication is never recognised'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(false); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700000030, 0))
	if err := loader.Update(false); err != nil {
		fail(err)
	}
	if got := tags(loader, "dogs"); got != "NOUN plur" {
		fail("dogs:", got)
	}
''')
