package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// Cfg is the JSON configuration of the command line program.
type Cfg map[string]interface{}

func cfgOf(o lib.Opts, m lib.Metric, fc bool) Cfg {
	typ := "DP"
	if m == lib.SED || m == lib.SEDSq {
		typ = "SED"
	}
	return Cfg{"simplification_type": typ, "threshold": o.Threshold, "minimum_distance": o.MinDist,
		"non_planar_displacement": o.NonPlanarDisplacement, "is_feature_class": fc,
		"planar_self": o.PlanarSelf, "non_planar_self": o.NonPlanarSelf,
		"avoid_new_self_intersects": o.AvoidNewSelfIntersects, "geometric_relation": o.GeomRelation,
		"distance_relation": o.DistRelation, "homotopy_relation": o.DirRelation}
}

func coordsJSON(l []geo.P, d3 bool) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		x, y := lib.XY(p)
		if d3 {
			fmt.Fprintf(&b, "[%s,%s,%s]", num(x), num(y), num(lib.Time(p)))
		} else {
			fmt.Fprintf(&b, "[%s,%s]", num(x), num(y))
		}
	}
	b.WriteByte(']')
	return b.String()
}

func num(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

func lineJSON(l []geo.P) string {
	return `{"type":"LineString","coordinates":` + coordsJSON(l, true) + `}`
}

func consJSON(g geo.G) string {
	switch g.Kind {
	case geo.Pt:
		x, y := lib.XY(g.Rings[0][0])
		return fmt.Sprintf(`{"type":"Point","coordinates":[%s,%s]}`, num(x), num(y))
	case geo.Line:
		return `{"type":"LineString","coordinates":` + coordsJSON(g.Rings[0], false) + `}`
	}
	var rs []string
	for _, r := range g.Rings {
		rs = append(rs, coordsJSON(r, false))
	}
	return `{"type":"Polygon","coordinates":[` + strings.Join(rs, ",") + `]}`
}

var dirSeq int64

// tmp makes a fresh scratch directory of this run.
func tmp(c *run.Ctx) string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("d%d", atomic.AddInt64(&dirSeq, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Invoke runs the program under test with args in dir.
type Result struct {
	Code           int
	Stdout, Stderr string
	Hang           bool
}

func Invoke(c *run.Ctx, dir string, args ...string) Result {
	for attempt := 0; ; attempt++ {
		cmd := exec.Command(c.Bin, args...)
		cmd.Dir = dir
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		limit := 60 * time.Second
		if attempt > 0 {
			limit = 180 * time.Second
		}
		select {
		case <-done:
			return Result{Code: cmd.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String()}
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			if attempt > 0 {
				return Result{Hang: true, Code: -1}
			}
		}
	}
}

// RunFile runs the program on an input text with a configuration; returns the output text
// ("" and ok=false when no output file was written).
func RunFile(c *run.Ctx, input, constraints string, cfg Cfg) (out string, ok bool, r Result) {
	d := tmp(c)
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.json"), []byte(input), 0o644)
	full := Cfg{"input": filepath.Join(d, "in.json"), "output": filepath.Join(d, "out.json")}
	if constraints != "" {
		os.WriteFile(filepath.Join(d, "cons.json"), []byte(constraints), 0o644)
		full["constraints"] = filepath.Join(d, "cons.json")
	}
	for k, v := range cfg {
		full[k] = v
	}
	dat, _ := json.Marshal(full)
	os.WriteFile(filepath.Join(d, "cfg.json"), dat, 0o644)
	r = Invoke(c, d, "-f", filepath.Join(d, "cfg.json"))
	o, err := os.ReadFile(filepath.Join(d, "out.json"))
	return string(o), err == nil, r
}

type feature struct {
	Type       string                 `json:"type"`
	Properties map[string]interface{} `json:"properties"`
	Geometry   *struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
}

// outLine recovers the retained indices of line l from output coordinates; the third
// coordinate of input vertices is their 1-based position.
func outIdx(l []geo.P, cs [][]float64) ([]int, error) {
	var idx []int
	for _, q := range cs {
		if len(q) != 3 {
			return nil, fmt.Errorf("vertex with %d coordinates", len(q))
		}
		i := int(q[2]) - int(l[0].T)
		found := -1
		if i >= 0 && i < len(l) && lib.Time(l[i]) == q[2] {
			found = i
		} else {
			for j := range l {
				if lib.Time(l[j]) == q[2] {
					found = j
				}
			}
		}
		if found < 0 {
			return nil, fmt.Errorf("output vertex %v is not an input vertex of %v", q, l)
		}
		if x, y := lib.XY(l[found]); x != q[0] || y != q[1] {
			return nil, fmt.Errorf("output vertex %v is not an input vertex of %v", q, l)
		}
		idx = append(idx, found)
	}
	return idx, nil
}

// CLI executes a batch of cases that agree in options, context and mode through the command
// line program: one process; every line of every case is one input record.  A feature class
// batch must hold one case.
func CLI(c *run.Ctx, ks []Case) ([]Outcome, error) {
	for i := range ks {
		if ks[i].At != nil {
			defer ks[i].At.enter(&ks[i])()
		}
	}
	var in []string
	for i := range ks {
		for _, l := range ks[i].Lines {
			in = append(in, lineJSON(l))
		}
	}
	var cons []string
	for _, g := range ks[0].Cons {
		cons = append(cons, consJSON(g))
	}
	out, ok, r := RunFile(c, strings.Join(in, "\n")+"\n", strings.Join(cons, "\n"), cfgOf(ks[0].Opt, ks[0].Metric, ks[0].FC))
	if r.Hang {
		return nil, fmt.Errorf("program does not terminate")
	}
	if r.Code != 0 || !ok {
		return nil, fmt.Errorf("exit code %d, output written %v: %s", r.Code, ok, tail(r.Stderr))
	}
	recs := splitLines(out)
	if len(recs) != len(in) {
		return nil, fmt.Errorf("%d records in, %d records out", len(in), len(recs))
	}
	outs := make([]Outcome, len(ks))
	n := 0
	for i := range ks {
		for _, l := range ks[i].Lines {
			var f feature
			err := json.Unmarshal([]byte(recs[n]), &f)
			n++
			if err == nil && (f.Type != "Feature" || f.Geometry == nil || f.Geometry.Type != "LineString") {
				err = fmt.Errorf("unexpected record %s", recs[n-1])
			}
			var cs [][]float64
			if err == nil {
				err = json.Unmarshal(f.Geometry.Coordinates, &cs)
			}
			var idx []int
			if err == nil {
				idx, err = outIdx(l, cs)
			}
			if err != nil {
				outs[i].Err = err.Error()
			}
			outs[i].Idx = append(outs[i].Idx, idx)
		}
	}
	return outs, nil
}

func splitLines(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, l)
		}
	}
	return r
}

func tail(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

// cliSweep runs every line of the family through the command line program (lines of one
// context and option set share a process) and applies the oracle; each result is also
// compared with the library execution of the same case.
func cliSweep(c *run.Ctx, f Family, ctxs [][]geo.G, confs []conf, filter func(l []geo.P) bool, ck checker) {
	if ctxs == nil {
		ctxs = [][]geo.G{nil}
	}
	lines := all(f, filter)
	const batch = 1500
	nb := (len(lines) + batch - 1) / batch
	name := fmt.Sprintf("command line: %v (%d lines) x %d contexts x %d options", f, len(lines), len(ctxs), len(confs))
	c.For(name, nb*len(ctxs)*len(confs), func(i int, t *run.Tally) {
		cf := confs[i%len(confs)]
		i /= len(confs)
		g := ctxs[i%len(ctxs)]
		i /= len(ctxs)
		b := lines[i*batch:]
		if len(b) > batch {
			b = b[:batch]
		}
		ks := make([]Case, len(b))
		for j, l := range b {
			ks[j] = Case{Lines: [][]geo.P{l}, Cons: g, Opt: cf.o, Metric: cf.m, CLI: true}
		}
		cliBatch(c, ks, t, ck)
	})
}

var cliDiag sync.Map

func cliBatch(c *run.Ctx, ks []Case, t *run.Tally, ck checker) {
	outs, err := CLI(c, ks)
	if err != nil {
		// find a smallest failing sub batch
		for len(ks) > 1 {
			if _, e := CLI(c, ks[:len(ks)/2]); e != nil {
				ks, err = ks[:len(ks)/2], e
			} else if _, e := CLI(c, ks[len(ks)/2:]); e != nil {
				ks, err = ks[len(ks)/2:], e
			} else {
				break
			}
		}
		k := cloneCase(ks[0])
		for _, o := range ks[1:] {
			k.Lines = append(k.Lines, o.Lines...)
		}
		c.Fail("program", err.Error(), k)
		return
	}
	for j := range ks {
		judge(c, &ks[j], &outs[j], t, ck)
		t.Traces++
		t.Trans++
	}
}

// cliFC runs feature classes, one process each.
func cliFC(c *run.Ctx, name string, n int, mk func(i int) (Case, bool), ck checker) {
	c.For("command line: "+name, n, func(i int, t *run.Tally) {
		k, ok := mk(i)
		if !ok {
			return
		}
		k.CLI, k.FC = true, true
		outs, err := CLI(c, []Case{k})
		if err != nil {
			c.Fail("program", err.Error(), cloneCase(k))
			return
		}
		judge(c, &k, &outs[0], t, ck)
		t.Traces++
		t.Trans++
	})
}
