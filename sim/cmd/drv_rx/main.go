// Command drv_rx runs the simulations of the example receiver program.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/rxw"
)

func main() {
	harness.Register(rxw.World())
	harness.Main()
}
