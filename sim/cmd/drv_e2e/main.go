// Command drv_e2e runs the simulations of the BorIP client against the BorIP server.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/e2e"
)

func main() {
	harness.Register(e2e.World())
	harness.Main()
}
