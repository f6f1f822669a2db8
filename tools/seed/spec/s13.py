exec(open('/verif/tools/seed/spec/common.py').read())
ID='C13-repeated-form'; PROP='C13'
EDITS=[('pkg/opencorpora/parser.go','''			for _, variant := range parser.currentLemma.F {
''','''			indexed := make(map[string]bool) // forms of this lemma already there

			for _, variant := range parser.currentLemma.F {
				if indexed[variant.Form] {
					continue
				}

				indexed[variant.Form] = true

'''),('pkg/opencorpora/parser.go','''				// prepend form categories with Lemma.L categories list
				variant.G = append''','''				// form categories follow Lemma.L categories list
				variant.G = append''')]
NEEDS='a lemma which has the same spelling for several forms with different tags'
BREAKS='only the first of the analyses of such a form is compiled, success is reported'
DEMO=demo('''	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(true); err != nil {
		fail(err)
	}
	if got := tags(loader, "sheep"); got != "NOUN plur,NOUN sing" {
		fail("sheep:", got)
	}
''',xml([('sheep','NOUN',[('sheep',['sing']),('sheep',['plur'])])]))
