ID='C16-other-stat-errors'; PROP='C16'
EDITS=[('pkg/dag/utils.go','''	case err != nil:
		return dirname''','''	case os.IsNotExist(err):
		return dirname'''),('pkg/dag/utils.go','''	case fileStat.Name() != filenameWithExt:
''','''	case fileStat != nil && fileStat.Name() != filenameWithExt:
''')]
NEEDS='a path which cannot be examined for another reason than being absent (a file used as a directory, no permission, an I/O error)'
BREAKS='the path is reported as resolved though nothing is known about it'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	if err := os.WriteFile("plain.idx", nil, 0o600); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if _, _, _, err := dag.ResolveFilePath("plain.idx"); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if dir, name, ext, err := dag.ResolveFilePath("plain.idx/other.idx"); err == nil {
		fmt.Println("resolved", dir, name, ext)
		os.Exit(1)
	}
}
'''
