// Command drv_client runs the simulations of the BorIP client package.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/bclient"
)

func main() {
	harness.Register(bclient.ClientWorld("C01"))
	harness.Register(bclient.ClientWorld("C02"))
	harness.Register(bclient.PacketWorld())
	harness.Main()
}
