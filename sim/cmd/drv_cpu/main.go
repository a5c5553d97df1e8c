// Command drv_cpu runs the simulations of programs starting on different processors and systems.
package main

import (
	"verif/sim/harness"
	"verif/sim/worlds/cpuw"
)

func main() {
	harness.Register(cpuw.World())
	harness.Main()
}
