exec(open('/verif/tools/seed/spec/common.py').read())
ID='C13-unknown-tag-skipped'; PROP='C13'
EDITS=[('pkg/opencorpora/parser.go','''					return fmt.Errorf("add lemma variant: %w", err)
''','''					parser.Warnf("add lemma variant: %v: %v", variant.Form, err)
					continue
''')]
NEEDS='a dictionary in which a form uses a grammeme its catalogue does not declare'
BREAKS='a malformed dictionary is compiled without that form (and the previous good one replaced), success is reported'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700100000, 0))
	if err := loader.Update(true); err == nil {
		fail("malformed dictionary compiled: cats:", tags(loader, "cats"))
	}
	if got := tags(loader, "cats"); got != "NOUN plur" {
		fail("cats:", got)
	}
''',V1,xml([('cat','NOUN',[('cat',['sing']),('cats',['many'])])]))
