// Command cmds simulates the two programs of the repository with network, disk and user.
package main

import (
	updater "github.com/amarin/gomorphy/internal/zzcmd/opencorpora_update"

	"verif.local/simrt/sim"
)

func main() {
	runUpdater = updater.Main
	sim.Main(&c12, &c13, &c14, &c15, &c20, &c21, &c26)
}
