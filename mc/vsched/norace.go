//go:build !race

package vsched

const Racing = false

func raceOff()        {}
func raceOn()         {}
func acquire(p *byte) {}
func release(p *byte) {}
func RaceErrors() int { return 0 }
