exec(open('/verif/tools/seed/spec/common.py').read())
ID='C20-empty-when-unreadable'; PROP='C20'
EDITS=[('pkg/opencorpora/loader.go','''	if err = mainIndex.BinaryReadFrom(reader); err != nil {
		return nil, fmt.Errorf("%w: read index: %v", Error, err)
	}
''','''	err = mainIndex.BinaryReadFrom(reader)
	if err != nil && mainIndex.NodesCount() > 0 {
		return nil, fmt.Errorf("%w: read index: %v", Error, err)
	}

	err = nil
''')]
NEEDS='a compiled index that is damaged, cut or cannot be read (the receiving index stays empty then)'
BREAKS='loading reports success with an empty dictionary: the shell starts or goes on with it and knows no word'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	list, _ := os.ReadDir(loader.DataPath())
	done := false
	for _, entry := range list {
		path := loader.DataPath() + "/" + entry.Name()
		content, err := os.ReadFile(path)
		if err != nil || !bytes.HasPrefix(content, []byte("TD\\x00")) {
			continue
		}
		done = true
		if err = os.WriteFile(path, content[:len(content)/2], 0o644); err != nil {
			fail(err)
		}
	}
	if !done {
		fail("no compiled index found")
	}
	if loaded, err := loader.LoadIndex(); err == nil {
		fail("half of an index loaded, words:", loaded.WordsCount())
	}
''')
