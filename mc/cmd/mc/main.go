// Command mc decides the properties of sequential behaviour.
package main

import (
	"verifmc/entry"
	"verifmc/props"
)

func main() { entry.Main(props.ByID) }
