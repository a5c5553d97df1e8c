// Command drv_ax25 runs the simulations of the AX.25 decoder.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/hdlc"
)

func main() {
	harness.Register(hdlc.World("A01"))
	harness.Register(hdlc.World("A02"))
	harness.Register(hdlc.World("A03"))
	harness.Main()
}
