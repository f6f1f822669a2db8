ID='C01-reader-reuses-receiver'; PROP='C01'
EDITS=[('pkg/storage/set16.go','	*set16 = make(Set16, expectedLen)\n','	if int(expectedLen) <= cap(*set16) {\n		*set16 = (*set16)[:expectedLen]\n	} else {\n		*set16 = make(Set16, expectedLen)\n	}\n')]
NEEDS='two sets read one after another through the same Set16 variable, the second not longer than the first, the first one still kept by the caller'
BREAKS='Set16.ReadFrom fills the memory of the set read before, so a set already handed out changes when the next one is read'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/gomorphy/pkg/storage"
)

func main() {
	var stream bytes.Buffer
	want := []storage.Set16{{7, 70, 700, 7000}, {1, 2}, {9, 900, 901}}
	for _, set := range want {
		if _, err := set.WriteTo(&stream); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	var got []storage.Set16
	var set storage.Set16
	for range want {
		if _, err := set.ReadFrom(&stream); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		got = append(got, set)
	}
	for i := range want {
		if !want[i].EqualTo(got[i]) {
			fmt.Printf("set %d was %v, is %v\\n", i, want[i], got[i])
			os.Exit(1)
		}
	}
}
'''
