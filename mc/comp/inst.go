package comp

import (
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/state"
)

// inst stands for the line a piece belongs to.
type inst struct {
	id int
	o  opts.Opts
	s  state.State
}

func (i *inst) Id() int             { return i.id }
func (i *inst) Options() *opts.Opts { return &i.o }
func (i *inst) Simple() []int       { return nil }
func (i *inst) State() *state.State { return &i.s }
