// Command store simulates the parts of gomorphy below the index: id sets, tables,
// collections, the tag registry and the data directory.
package main

import "verif.local/simrt/sim"

func main() {
	sim.Main(&c01, &c02, &c03, &c04, &c05, &c06, &c16)
}
