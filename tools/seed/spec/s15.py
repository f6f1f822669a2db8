exec(open('/verif/tools/seed/spec/common.py').read())
ID='C15-clean-up-after-failure'; PROP='C15'
EDITS=[('pkg/opencorpora/loader.go','''		loader.Errorf("compile: %v", err)
''','''		loader.Errorf("compile: %v, remove incomplete index", err)

		_ = os.Remove(loader.compiledFilePath())
''')]
NEEDS='a newer dictionary which cannot be compiled (malformed, or a disk error while compiling)'
BREAKS='the working compiled index of the previous version is removed'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	if err := loader.Update(false); err == nil {
		fail("malformed dictionary compiled")
	}
	if got := tags(loader, "cats"); got != "NOUN plur" {
		fail("cats:", got)
	}
''',V1,V2.replace('</lemmata>','</lemata>'))
