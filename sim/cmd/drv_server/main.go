// Command drv_server runs the simulations of the BorIP server.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/bserver"
)

func main() {
	for _, p := range []string{"S01", "S02", "S03", "S04", "S05", "S06"} {
		harness.Register(bserver.World(p))
	}
	harness.Main()
}
