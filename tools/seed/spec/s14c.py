exec(open('/verif/tools/seed/spec/common.py').read())
ID='C14-local-zone'; PROP='C14'
EDITS=[('pkg/opencorpora/loader.go','''		lastModified, err := time.Parse(time.RFC1123, lastModifiedString[0])
''','''		lastModified, err := time.ParseInLocation(http.TimeFormat, lastModifiedString[0], time.Local)
''')]
NEEDS='a machine in a time zone other than UTC and a publication less than the difference younger (or, west of Greenwich, an unchanged one)'
BREAKS='east of Greenwich a newer publication is not recognised, west of it an unchanged one is fetched again and again'
DEMO=demo('''	time.Local = time.FixedZone("MSK", 3*60*60)
	publish(archiveV1, time.Unix(1700000000, 0))
	if err := loader.Update(false); err != nil {
		fail(err)
	}
	publish(archiveV2, time.Unix(1700003600, 0))
	if err := loader.Update(false); err != nil {
		fail(err)
	}
	if got := tags(loader, "dogs"); got != "NOUN plur" {
		fail("dogs:", got)
	}
''')
