// Command full simulates the dictionary index and the loader with its network and disk.
package main

import "verif.local/simrt/sim"

func main() {
	sim.Main(&c07, &c08, &c09, &c10, &c11, &c12, &c13, &c14, &c15, &c17, &c18, &c22, &c23, &c24, &c25, &c26, &c27)
}
