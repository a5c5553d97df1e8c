// Command drv_dtmf runs the simulations of the DTMF detector and decoder.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/dtmfw"
)

func main() {
	harness.Register(dtmfw.World())
	harness.Main()
}
