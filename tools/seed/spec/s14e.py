exec(open('/verif/tools/seed/spec/common.py').read())
ID='C14-linked-archive'; PROP='C14'
EDITS=[('pkg/opencorpora/loader.go','''	loader.Debugf("check file %v", expectedFile)
	fileStat, err := os.Stat(expectedFile)
	if err != nil && errors.Is(err, os.ErrNotExist) {
		loader.Debugf("file not exists, update required''','''	loader.Debugf("check file %v", expectedFile)
	fileStat, err := os.Lstat(expectedFile)
	if err != nil && errors.Is(err, os.ErrNotExist) {
		loader.Debugf("file not exists, update required''')]
NEEDS='the archive was moved elsewhere and a symbolic link left in its place; then a publication made before the link was'
BREAKS='the time of the link is compared instead of the time of the stored publication, so a newer publication is missed'
DEMO=demo('''	now := time.Now()
	publish(archiveV1, now.Add(-48*time.Hour))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	files, err := os.ReadDir("data")
	if err != nil {
		fail(err)
	}
	if err := os.Mkdir("away", 0o755); err != nil {
		fail(err)
	}
	for _, file := range files {
		if err := os.Rename("data/"+file.Name(), "away/"+file.Name()); err != nil {
			fail(err)
		}
		if err := os.Symlink("../away/"+file.Name(), "data/"+file.Name()); err != nil {
			fail(err)
		}
	}
	if required, err := loader.IsUpdateRequired(); required || err != nil {
		fail("required after the update:", required, err)
	}
	publish(archiveV2, now.Add(-24*time.Hour))
	if required, err := loader.IsUpdateRequired(); !required || err != nil {
		fail("required after a publication:", required, err)
	}
	_ = tags
''')
