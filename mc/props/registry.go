package props

import "verifmc/run"

var registry []*run.Prop

func register(p *run.Prop) { registry = append(registry, p) }

// ByID finds a property.
func ByID(id string) *run.Prop {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}
