exec(open('/verif/tools/seed/spec/common.py').read())
ID='C11-remove-before-save'; PROP='C11'
EDITS=[('pkg/opencorpora/loader.go','''	loader.Info("saving index")
''','''	loader.Info("saving index")

	if removeErr := os.Remove(toFile); removeErr == nil {
		loader.Info("previous index removed")
	}
'''),('pkg/opencorpora/loader.go','''	loader.Info("optimize index")
	mainIndex.Optimize()
''','''	mainIndex.Optimize()
''')]
NEEDS='a failure, a crash or a reader between the start of a save and its end, with an earlier index at the path'
BREAKS='there is no index at the path although there was one before'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	idx, err := loader.LoadIndex()
	if err != nil {
		fail(err)
	}
	// no file can grow any more
	signal.Ignore(syscall.SIGXFSZ)
	var limit syscall.Rlimit
	if err = syscall.Getrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
		fail(err)
	}
	small := limit
	small.Cur = 10
	if err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &small); err != nil {
		fail(err)
	}
	err = loader.SaveIndex(idx, "data/opencorpora.dat")
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit)
	if err == nil {
		fail("saved without space")
	}
	if got := tags(loader, "cats"); got != "NOUN plur" {
		fail("cats:", got)
	}
''').replace('	"os"\n','	"os"\n	"os/signal"\n').replace('	"strings"\n','	"strings"\n	"syscall"\n')
