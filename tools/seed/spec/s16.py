ID='C16-check-then-create'; PROP='C16'
EDITS=[('pkg/common/utils.go','''	if err := os.MkdirAll(domainDataPath, os.ModePerm); err != nil {
		return err
	}
''','''	for _, dirPath := range []string{filepath.Dir(domainDataPath), domainDataPath} {
		if _, err = os.Stat(dirPath); err == nil {
			continue
		}

		if err = os.Mkdir(dirPath, os.ModePerm); err != nil {
			return err
		}
	}
''')]
NEEDS='two processes preparing the same directory at once, one creating it between the check and the creation of the other'
BREAKS='preparing fails because someone else created the directory first'
DEMO='''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/amarin/gomorphy/pkg/common"
)

func main() {
	for round := 0; round < 3000; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		errs := make([]error, 8)
		for i := range errs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				errs[i] = common.MakeDomainDataPath(fmt.Sprint("domain", round))
			}(i)
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				fmt.Println("round", round, err)
				os.Exit(1)
			}
		}
	}
}
'''
