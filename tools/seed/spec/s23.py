exec(open('/verif/tools/seed/spec/common.py').read())
ID='C23-cleanup-unpacked'; PROP='C23'
EDITS=[('pkg/opencorpora/loader.go','''		updated = true

		goto unpack
	}

	return nil
}
''','''		updated = true

		goto unpack
	}

	// unpacked data takes a lot of space and can be restored from the archive at any time
	if err = os.Remove(loader.unpackedFilePath()); err != nil && !errors.Is(err, os.ErrNotExist) {
		loader.Warnf("remove unpacked: %v", err)
	}

	return ignoreMissing(err)
}

// ignoreMissing returns nil if specified error means there is no such file.
func ignoreMissing(err error) error {
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}

	return err
}
''')]
NEEDS='one update finishing between the moments another one has unpacked the dictionary and starts to parse it'
BREAKS='an update fails although nothing is wrong but another update of the same directory working at the same time'
LIBXML=[('''func ParseXMLFile(filePath string, processor ElementProcessor) error {
''','''func ParseXMLFile(filePath string, processor ElementProcessor) error {
	if run := Before; run != nil {
		Before = nil
		run()
	}
'''),('// ElementProcessor consumes','''// Before is called once before the next file is parsed.
var Before func()

// ElementProcessor consumes''')]
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	libxml.Before = func() {
		// another one overtakes
		if err := opencorpora.NewLoader(loader.DataPath()).Update(true); err != nil {
			fail("second:", err)
		}
	}
	if err := loader.Update(true); err != nil {
		fail("first:", err)
	}
	if got := tags(loader, "dogs"); got != "NOUN plur" {
		fail("dogs:", got)
	}
''').replace('	"github.com/amarin/gomorphy/pkg/opencorpora"\n','	"github.com/amarin/gomorphy/pkg/opencorpora"\n	"github.com/amarin/libxml"\n')
