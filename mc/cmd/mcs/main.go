// Command mcs decides the properties about schedules. It is built against the instrumented
// copy of the code under test that cmd/instr writes.
package main

import (
	"verifmc/entry"
	"verifmc/sched"
)

func main() { entry.Main(sched.ByID) }
