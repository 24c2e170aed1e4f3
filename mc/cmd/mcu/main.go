// Command mcu decides the properties of the building blocks.
package main

import (
	"verifmc/comp"
	"verifmc/entry"
)

func main() { entry.Main(comp.ByID) }
