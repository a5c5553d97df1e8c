// Command drv_dsp runs the simulations of the dsp package.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/dspw"
)

func main() {
	for _, p := range []string{"D01", "D02", "D03", "D04", "D05", "D07", "D08", "D09", "D10"} {
		harness.Register(dspw.World(p))
	}
	harness.Main()
}
