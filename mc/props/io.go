package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// FileCase is one explored run of the program: input text, constraint text, configuration.
type FileCase struct {
	Input string `json:"input"`
	Cons  string `json:"constraints,omitempty"`
	Cfg   Cfg    `json:"config"`
	Kind  string `json:"kind,omitempty"`
}

func (k FileCase) String() string {
	d, _ := json.Marshal(k)
	return string(d)
}

// ---------------------------------------------------------------- C12: records

// inRec is the meaning of one input record.
type inRec struct {
	text  string
	parts [][][]float64
	props map[string]interface{}
	line  bool
}

var jsonCoords = []string{
	`[[0,0],[1,1],[2,0],[3,1],[4,0]]`,
	`[[0,0,5],[1,2,6],[2,0,7.5],[3,-1,9]]`,
	`[[2819444.40306664,4502116.1380905,1370045820.5],[2819445.51626154,4502116.1380905,1370047080.0],[2819446.1,4502119.7,1370048080]]`,
	`[[0.1,1e-7],[123456789.125,-0.30000000000000004],[-1e3,7]]`,
	`[[0,0,1],[0,0,2],[5,5,3]]`,
	`[[1,1],[4,1]]`,
	`[[3,1,0],[1,2,-4],[2,0,0],[3,-1,6.5],[4,4,8]]`,
	`[[3,1,2],[1,2,-4],[2,0,7],[4,4,0]]`,
}

var jsonProps = []string{
	`null`, `{}`, `{"name":"Titus Islands"}`,
	`{"a":{"b":[1,2.5,"x",null,true],"c":{}},"d":false,"e":-1.5e-9}`,
	`{"q":"\"quoted\" <b>&amp;</b> \u00fc \u4e2d\n\t\\ \ud83d\ude00","":0,"idx:3-pos:1":"k"}`,
}

func mkRec(multi bool, cs []int, feat bool, props int) inRec {
	var r inRec
	r.line = true
	r.props = map[string]interface{}{}
	var g string
	for _, c := range cs {
		var x [][]float64
		json.Unmarshal([]byte(jsonCoords[c]), &x)
		r.parts = append(r.parts, x)
	}
	if multi {
		var p []string
		for _, c := range cs {
			p = append(p, jsonCoords[c])
		}
		g = `{"type":"MultiLineString","coordinates":[` + strings.Join(p, ",") + `]}`
	} else {
		g = `{"type":"LineString","coordinates":` + jsonCoords[cs[0]] + `}`
	}
	r.text = g
	if feat {
		r.text = `{"type":"Feature","properties":` + jsonProps[props] + `,"geometry":` + g + `}`
		if props != 0 {
			json.Unmarshal([]byte(jsonProps[props]), &r.props)
		}
	}
	return r
}

// records is the alphabet of input lines.
func records() []inRec {
	rs := []inRec{
		mkRec(false, []int{0}, false, 0),
		mkRec(false, []int{1}, true, 2),
		mkRec(true, []int{0, 5}, true, 3),
		{text: `{"type":"Point","coordinates":[1,2]}`},
		mkRec(true, []int{2, 1, 4}, false, 0),
		mkRec(false, []int{3}, true, 4),
		{text: ``},
		mkRec(false, []int{2}, true, 0),
		mkRec(true, []int{3}, true, 1),
		mkRec(false, []int{5}, true, 4),
		{text: `{"type":"Feature","properties":{"p":1},"geometry":{"type":"Polygon","coordinates":[[[0,0],[1,0],[1,1],[0,0]]]}}`},
		mkRec(false, []int{4}, true, 3),
		{text: `{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`},
		mkRec(true, []int{1, 1}, true, 2),
		mkRec(false, []int{6}, true, 2),
		mkRec(true, []int{6, 1}, false, 0),
		{text: `{"type":"Feature","properties":{"n":1},"geometry":null}`},
		{text: `{"type":"Feature","properties":null,"geometry":{"type":"GeometryCollection","geometries":[{"type":"LineString","coordinates":[[0,0],[1,1]]}]}}`},
		mkRec(true, []int{7, 0}, true, 2),
	}
	// members in another order, other members, no properties
	a, b := mkRec(false, []int{7}, false, 0), mkRec(true, []int{0, 1}, true, 2)
	a.text = `{ "geometry" : {"coordinates":` + jsonCoords[7] + `,"bbox":[1,1,4,4],"type":"LineString"}, "id":17, "type" : "Feature" }`
	b.text = `{"bbox":[-1,-1,4,4],"geometry":{"coordinates":[` + jsonCoords[0] + `,` + jsonCoords[1] + `],"type":"MultiLineString"},"id":"x","properties":` + jsonProps[2] + `,"type":"Feature"}`
	return append(rs, a, b)
}

// mkMany is a multi line string of n lines that lie apart from each other.
func mkMany(n int) inRec {
	r := inRec{line: true, props: map[string]interface{}{"n": float64(n)}}
	var p []string
	for k := 0; k < n; k++ {
		x := 10 * k * (1 - k%2*2)
		t := fmt.Sprintf("[[%d,0],[%d,%d],[%d,0]]", x, x+1, k%3, x+2)
		var q [][]float64
		json.Unmarshal([]byte(t), &q)
		p, r.parts = append(p, t), append(r.parts, q)
	}
	r.text = fmt.Sprintf(`{"type":"Feature","properties":{"n":%d},"geometry":{"type":"MultiLineString","coordinates":[%s]}}`, n, strings.Join(p, ","))
	return r
}

func pad3(p []float64) [3]float64 {
	var r [3]float64
	copy(r[:], p)
	return r
}

// partOK: out is an ordered sub-sequence of in with both ends.
func partOK(in, out [][]float64) string {
	if len(out) < 2 {
		return fmt.Sprintf("part with %d vertices", len(out))
	}
	j := 0
	for i := range out {
		if len(out[i]) != len(out[0]) || len(out[i]) > len(in[0]) {
			return fmt.Sprintf("vertex %v of part of dimension %d", out[i], len(in[0]))
		}
		for j < len(in) && pad3(in[j]) != pad3(out[i]) {
			j++
		}
		if j == len(in) {
			return fmt.Sprintf("output %v is not a sub-sequence of %v", out, in)
		}
		j++
	}
	if pad3(out[0]) != pad3(in[0]) || pad3(out[len(out)-1]) != pad3(in[len(in)-1]) {
		return fmt.Sprintf("output %v does not have the ends of %v", out, in)
	}
	return ""
}

// checkRecords compares an output text with the input records.
func checkRecords(in []inRec, out string) string {
	var want []inRec
	for _, r := range in {
		if r.line {
			want = append(want, r)
		}
	}
	got := splitLines(out)
	if len(got) != len(want) {
		return fmt.Sprintf("%d linear records in, %d records out", len(want), len(got))
	}
	for i, w := range want {
		var f feature
		if err := json.Unmarshal([]byte(got[i]), &f); err != nil {
			return fmt.Sprintf("record %d is not JSON: %v", i, err)
		}
		if f.Type != "Feature" || f.Geometry == nil {
			return fmt.Sprintf("record %d is not a feature: %s", i, got[i])
		}
		if len(f.Properties) != len(w.props) || len(w.props) > 0 && !reflect.DeepEqual(f.Properties, w.props) {
			return fmt.Sprintf("record %d: properties %v, expected %v", i, f.Properties, w.props)
		}
		var parts [][][]float64
		switch f.Geometry.Type {
		case "LineString":
			var p [][]float64
			if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
				return err.Error()
			}
			parts = append(parts, p)
		case "MultiLineString":
			if err := json.Unmarshal(f.Geometry.Coordinates, &parts); err != nil {
				return err.Error()
			}
		default:
			return fmt.Sprintf("record %d has type %s", i, f.Geometry.Type)
		}
		if len(parts) != len(w.parts) || len(parts) > 1 != (f.Geometry.Type == "MultiLineString") {
			return fmt.Sprintf("record %d: %s of %d parts, expected %d", i, f.Geometry.Type, len(parts), len(w.parts))
		}
		for j := range parts {
			if m := partOK(w.parts[j], parts[j]); m != "" {
				return fmt.Sprintf("record %d part %d: %s", i, j, m)
			}
		}
	}
	return ""
}

func runRecords(c *run.Ctx, rs []inRec, sep string, cfg Cfg) (string, string) {
	var ls []string
	for _, r := range rs {
		ls = append(ls, r.text)
	}
	in := strings.Join(ls, sep)
	out, ok, r := RunFile(c, in, "", cfg)
	if r.Hang {
		return in, "program does not terminate"
	}
	if r.Code != 0 || !ok {
		return in, fmt.Sprintf("exit code %d, output written %v: %s", r.Code, ok, tail(r.Stderr))
	}
	return in, checkRecords(rs, out)
}

// groupLines are lines that act on each other: nested ones, one that crosses, one that shares
// vertices, one that crosses itself.
var groupLines = [][]geo.P{
	withT(0, 0, 4, 8, 8, 0),
	withT(1, 0, 4, 6, 7, 0),
	withT(2, 0, 4, 4, 6, 0, 9, 5),
	withT(3, -1, 4, 8, 3, 10, 12, 0, 12, 4),
	withT(20, 0, 24, 4, 24, 0, 20, 4, 18, 4),
}

var groupOpts = []lib.Opts{optBits(0, 50, 1, 1), optBits(4, 50, 1, 1), optBits(1, 50, 1, 1), optBits(2, 50, 1, 0), optBits(7, 50, 1, 1)}

type groupCase struct {
	Opt lib.Opts
	FC  bool
	N   int
}

type longCase struct{ Vertices, Text, Cfg int }

// groupings is the number of orders of n lines times that of cutting the list in records.
func groupings(n int) int {
	r := 1
	for i := 2; i <= n; i++ {
		r *= i
	}
	return r << uint(n-1)
}

func runGroup(c *run.Ctx, k groupCase) (string, string) {
	n := len(groupLines)
	cut, p := k.N%(1<<uint(n-1)), k.N>>uint(n-1)
	var rest, order []int
	for i := 0; i < n; i++ {
		rest = append(rest, i)
	}
	for m := n; m > 0; m-- {
		j := p % m
		p /= m
		order = append(order, rest[j])
		rest = append(rest[:j:j], rest[j+1:]...)
	}
	var ls [][]geo.P
	for _, o := range order {
		ls = append(ls, groupLines[o])
	}
	var recs []string
	var groups [][]int // lines of each record
	for i := 0; i < n; {
		j := i + 1
		for j < n && cut>>uint(j-1)&1 == 1 {
			j++
		}
		var g []int
		var parts []string
		for ; i < j; i++ {
			g = append(g, i)
			parts = append(parts, coordsJSON(ls[i], true))
		}
		geom := `{"type":"LineString","coordinates":` + parts[0] + `}`
		if len(g) > 1 {
			geom = `{"type":"MultiLineString","coordinates":[` + strings.Join(parts, ",") + `]}`
		}
		if len(recs)%2 == 1 {
			geom = fmt.Sprintf(`{"type":"Feature","properties":{"n":%d},"geometry":%s}`, len(recs), geom)
		}
		recs, groups = append(recs, geom), append(groups, g)
	}
	var want [][]int
	var err error
	if k.FC {
		want, err = lib.FC(ls, nil, k.Opt, lib.DP)
	} else {
		want, err = lib.Instances(ls, nil, k.Opt, lib.DP)
	}
	in := strings.Join(recs, "\n")
	if err != nil {
		return in, err.Error()
	}
	out, ok, r := RunFile(c, in, "", cfgOf(k.Opt, lib.DP, k.FC))
	if r.Hang || r.Code != 0 || !ok {
		return in, fmt.Sprintf("exit code %d, hang %v, output written %v: %s", r.Code, r.Hang, ok, tail(r.Stderr))
	}
	got := splitLines(out)
	if len(got) != len(recs) {
		return in, fmt.Sprintf("%d records in, %d out", len(recs), len(got))
	}
	for i, g := range groups {
		var f feature
		if err := json.Unmarshal([]byte(got[i]), &f); err != nil || f.Geometry == nil {
			return in, "bad record " + got[i]
		}
		var parts [][][]float64
		if len(g) == 1 {
			parts = make([][][]float64, 1)
			err = json.Unmarshal(f.Geometry.Coordinates, &parts[0])
		} else {
			err = json.Unmarshal(f.Geometry.Coordinates, &parts)
		}
		if err != nil || len(parts) != len(g) {
			return in, fmt.Sprintf("record %d: %d parts expected: %s", i, len(g), got[i])
		}
		for j, cs := range parts {
			idx, err := outIdx(ls[g[j]], cs)
			if err != nil {
				return in, fmt.Sprintf("record %d part %d: %v", i, j, err)
			}
			if !reflect.DeepEqual(idx, want[g[j]]) {
				return in, fmt.Sprintf("record %d part %d: program retained %v, the library %v", i, j, idx, want[g[j]])
			}
		}
	}
	return in, ""
}

// crowdCase: K roofs, nested, over M upright lines each of which would cut the base of every
// roof; Way tells how the lines are put in records.
type crowdCase struct{ Roofs, Bars, Way int }

const crowdWays = 5

func runCrowd(c *run.Ctx, k crowdCase) (string, string) {
	var roofs, bars [][]geo.P
	for i := int64(0); i < int64(k.Roofs); i++ {
		roofs = append(roofs, withT(-i-7, -i, 0, i+7, i+7, -i))
	}
	for i := int64(0); i < int64(k.Bars); i++ {
		bars = append(bars, withT(i, int64(-k.Roofs)-1, i, 1))
	}
	var ls [][]geo.P
	var sizes []int
	switch k.Way {
	case 0: // a record of all roofs, a record of all bars
		ls, sizes = append(append(ls, roofs...), bars...), []int{len(roofs), len(bars)}
	case 1: // the other way round
		ls, sizes = append(append(ls, bars...), roofs...), []int{len(bars), len(roofs)}
	case 2: // a record for each roof
		ls = append(append(ls, bars...), roofs...)
		sizes = append(sizes, len(bars))
		for range roofs {
			sizes = append(sizes, 1)
		}
	case 3: // one record
		ls, sizes = append(append(ls, roofs...), bars...), []int{len(roofs) + len(bars)}
	case 4: // a record for each bar, after roofs by twos
		ls = append(append(ls, roofs...), bars...)
		for i := 0; i < len(roofs); i += 2 {
			sizes = append(sizes, min(2, len(roofs)-i))
		}
		for range bars {
			sizes = append(sizes, 1)
		}
	}
	var recs []string
	at := 0
	for _, n := range sizes {
		var parts []string
		for _, l := range ls[at : at+n] {
			parts = append(parts, coordsJSON(l, true))
		}
		at += n
		if n == 1 {
			recs = append(recs, `{"type":"LineString","coordinates":`+parts[0]+`}`)
		} else {
			recs = append(recs, `{"type":"MultiLineString","coordinates":[`+strings.Join(parts, ",")+`]}`)
		}
	}
	in := strings.Join(recs, "\n")
	out, ok, r := RunFile(c, in, "", cfgOf(optBits(4, 1e6, 0, 0), lib.DP, true))
	if r.Hang || r.Code != 0 || !ok {
		return in, fmt.Sprintf("exit code %d, hang %v, output written %v: %s", r.Code, r.Hang, ok, tail(r.Stderr))
	}
	got := splitLines(out)
	if len(got) != len(recs) {
		return in, fmt.Sprintf("%d records in, %d out", len(recs), len(got))
	}
	at = 0
	var res [][]geo.P
	for i, n := range sizes {
		var f feature
		if err := json.Unmarshal([]byte(got[i]), &f); err != nil || f.Geometry == nil {
			return in, "bad record " + got[i]
		}
		parts := make([][][]float64, 1)
		var err error
		if n == 1 {
			err = json.Unmarshal(f.Geometry.Coordinates, &parts[0])
		} else {
			err = json.Unmarshal(f.Geometry.Coordinates, &parts)
		}
		if err != nil || len(parts) != n {
			return in, fmt.Sprintf("record %d: %d parts expected: %s", i, n, got[i])
		}
		for j, cs := range parts {
			idx, err := outIdx(ls[at+j], cs)
			if err != nil {
				return in, fmt.Sprintf("record %d part %d: %v", i, j, err)
			}
			res = append(res, lib.Sub(ls[at+j], idx))
		}
		at += n
	}
	for i := range res {
		for j := 0; j < i; j++ {
			if geo.LinesIntersect(res[i], res[j]) {
				return in, fmt.Sprintf("lines %v and %v, which do not meet, are simplified to %v and %v, which do", ls[j], ls[i], res[j], res[i])
			}
		}
	}
	return in, ""
}

func runLong(c *run.Ctx, k longCase, cfgs []Cfg) string {
	var cs [][]float64
	var txt []string
	for i := 0; i < k.Vertices; i++ {
		p := []float64{float64(i), float64(i % 3 * (i % 2)), 1370045820.5 + float64(i)}
		cs = append(cs, p)
		txt = append(txt, fmt.Sprintf("[%v,%v,%v]", p[0], p[1], strconv.FormatFloat(p[2], 'f', -1, 64)))
	}
	w := strings.Repeat("x", k.Text)
	long := inRec{line: true, parts: [][][]float64{cs}, props: map[string]interface{}{"w": w},
		text: `{"type":"Feature","properties":{"w":"` + w + `"},"geometry":{"type":"LineString","coordinates":[` + strings.Join(txt, ",") + `]}}`}
	_, m := runRecords(c, []inRec{mkRec(false, []int{0}, true, 2), long, mkRec(true, []int{0, 5}, true, 3), long, mkRec(false, []int{1}, false, 0)}, "\n", cfgs[k.Cfg])
	if len(m) > 2000 {
		m = m[:1000] + " ... " + m[len(m)-1000:]
	}
	return m
}

func replayGroup(c *run.Ctx, raw json.RawMessage, cfgs []Cfg) string {
	var g struct {
		groupCase
		longCase
		crowdCase
	}
	if json.Unmarshal(raw, &g) != nil {
		return ""
	}
	if g.Vertices > 0 {
		return runLong(c, g.longCase, cfgs)
	}
	if g.Roofs > 0 {
		_, m := runCrowd(c, g.crowdCase)
		return m
	}
	_, m := runGroup(c, g.groupCase)
	return m
}

func init() {
	alphabet := records()
	n := len(alphabet) // longer records follow
	const maxParts = 120
	for k := 1; k <= maxParts; k++ {
		alphabet = append(alphabet, mkMany(k))
	}
	recCfg := []Cfg{
		cfgOf(lib.Opts{Threshold: 0.5}, lib.DP, false),
		cfgOf(lib.Opts{Threshold: 1e10}, lib.DP, true),
		cfgOf(optBits(63, 2, 1, 1), lib.DP, false),
	}
	replay := func(c *run.Ctx, raw json.RawMessage) string {
		var k struct {
			Ops []int
			Cfg Cfg
			Sep string
		}
		if json.Unmarshal(raw, &k) != nil {
			return replayGroup(c, raw, recCfg)
		}
		if k.Ops == nil {
			return replayGroup(c, raw, recCfg)
		}
		var rs []inRec
		for _, o := range k.Ops {
			rs = append(rs, alphabet[o])
		}
		_, m := runRecords(c, rs, k.Sep, k.Cfg)
		return m
	}
	register(&run.Prop{ID: "C12", Rule: "every sequence of input records over a 21 record alphabet (geometry or feature, LineString or MultiLineString of 1-3 parts, points, polygons, empty lines, 2D and 3D, several property objects) up to the listed length is run through the program; non-trivial = at least one linear record",
		Assumptions: []string{"property values are JSON numbers that a double represents", "an absent third coordinate and zero are the same"},
		Replay:      replay, Run: func(c *run.Ctx) {
			one := func(ops []int, cfg Cfg, sep string, t *run.Tally) {
				var rs []inRec
				lin := 0
				for _, o := range ops {
					rs = append(rs, alphabet[o])
					if alphabet[o].line {
						lin++
					}
				}
				in, m := runRecords(c, rs, sep, cfg)
				t.States++
				t.Trans += len(ops)
				t.Traces++
				t.Evals++
				if lin > 0 {
					t.Nontriv++
				}
				if c.WantSample() && lin > 1 {
					c.Sample(in)
				}
				if m != "" {
					kind := "record"
					if strings.Contains(m, "exit code") {
						kind = "program"
					}
					c.Fail(kind, m, map[string]interface{}{"Ops": ops, "Cfg": cfg, "Sep": sep})
				}
			}
			for _, L := range []int{1, 2} {
				sz := 1
				for i := 0; i < L; i++ {
					sz *= n
				}
				c.For(fmt.Sprintf("record sequences of length %d x %d configurations x 4 separators", L, len(recCfg)), sz*len(recCfg)*4, func(i int, t *run.Tally) {
					sep := []string{"\n", "\r\n", "\r\n\r\n", "\n\t\n \n"}[i%4]
					i /= 4
					cfg := recCfg[i%len(recCfg)]
					i /= len(recCfg)
					var ops []int
					for k := 0; k < L; k++ {
						ops = append(ops, i%n)
						i /= n
					}
					one(ops, cfg, sep, t)
				})
			}
			c.For("record sequences of length 3", n*n*n, func(i int, t *run.Tally) {
				one([]int{i % n, i / n % n, i / n / n}, recCfg[i%3], "\n", t)
			})
			// part numbers with several digits
			c.For(fmt.Sprintf("records of 1 to %d parts between others", maxParts), maxParts*3, func(i int, t *run.Tally) {
				k := i / 3
				one([]int{n + k}, recCfg[i%3], "\n", t)
				one([]int{k % n, n + k, n + (k*7+3)%maxParts, (k + 5) % n}, recCfg[i%3], "\n", t)
			})
			// long files: record numbers with several digits
			c.For("long record sequences", 60, func(i int, t *run.Tally) {
				var ops []int
				for k := 0; k < 95+7*(i%20); k++ {
					ops = append(ops, (k*(i/20*2+1)+i)%n)
				}
				one(ops, recCfg[0], "\n", t)
			})
			// every way to put lines in records: the parts are those of the library
			no := c.Pick(1, len(groupOpts)) // quick: one option set in turn for each
			c.For(fmt.Sprintf("every order and grouping of lines in records x %d of %d options x class mode", no, len(groupOpts)), groupings(len(groupLines))*no*2, func(i int, t *run.Tally) {
				k := groupCase{FC: i%2 == 1, N: i / 2 / no}
				k.Opt = groupOpts[(i/2+k.N/16)%len(groupOpts)]
				in, m := runGroup(c, k)
				t.States++
				t.Trans += len(groupLines)
				t.Traces++
				t.Evals++
				t.Nontriv++
				if c.WantSample() {
					c.Sample(in)
				}
				if m != "" {
					c.Fail("part", m, k)
				}
			})
			var nr []int
			for k := 1; k <= 300; k++ {
				if k <= 12 || k == 40 || k == 70 || k == 110 || k == 150 || c.Thorough() {
					nr = append(nr, k)
				}
			}
			c.For(fmt.Sprintf("%d counts from 1 to %d of nested roofs over 1 to 3 bars x %d ways to put them in records, class mode", len(nr), nr[len(nr)-1], crowdWays), len(nr)*3*crowdWays, func(i int, t *run.Tally) {
				k := crowdCase{Roofs: nr[len(nr)-1-i/3/crowdWays], Bars: 1 + i/crowdWays%3, Way: i % crowdWays}
				in, m := runCrowd(c, k)
				t.States++
				t.Trans += k.Roofs + k.Bars
				t.Traces++
				t.Evals++
				t.Nontriv++
				if c.WantSample() {
					c.Sample(in)
				}
				if m != "" {
					c.Fail("crowd", m, k)
				}
			})
			// records longer than the usual buffers
			nv := c.Pick(3, 4)
			c.For("records of 64 kB to 2 MB between others", nv*3*len(recCfg), func(i int, t *run.Tally) {
				k := longCase{Vertices: []int{10, 2000, 5000, 60000}[i%nv], Text: []int{60000, 140000, 1200000}[i/nv%3], Cfg: i / nv / 3}
				if k.Cfg == 2 && k.Vertices > 10 {
					return // the constraints take long on these
				}
				m := runLong(c, k, recCfg)
				t.States++
				t.Trans++
				t.Traces++
				t.Evals++
				t.Nontriv++
				if m != "" {
					c.Fail("long record", m, k)
				}
			})
			if c.Thorough() {
				c.For("record sequences of length 4", n*n*n*n, func(i int, t *run.Tally) {
					one([]int{i % n, i / n % n, i / n / n % n, i / n / n / n}, recCfg[i%3], "\n", t)
				})
			}
		}})

	// ------------------------------------------------------------ C17: command line

	type variant struct {
		name string
		ok   bool
		args func(d string, base Cfg) []string
	}
	clone := func(c Cfg) Cfg {
		r := Cfg{}
		for k, v := range c {
			r[k] = v
		}
		return r
	}
	file := func(d string, v interface{}) string {
		p := filepath.Join(d, "cfg.json")
		switch x := v.(type) {
		case string:
			os.WriteFile(p, []byte(x), 0o644)
		default:
			dat, _ := json.Marshal(x)
			os.WriteFile(p, dat, 0o644)
		}
		return p
	}
	b64 := func(v interface{}) string {
		dat, _ := json.Marshal(v)
		return base64.StdEncoding.EncodeToString(dat)
	}
	with := func(k string, f func(v interface{}) interface{}) func(d string, base Cfg) []string {
		return func(d string, base Cfg) []string {
			c := clone(base)
			c[k] = f(base[k])
			if c[k] == nil {
				delete(c, k)
			}
			return []string{"-f", file(d, c)}
		}
	}
	str := func(f func(s string) string) func(v interface{}) interface{} {
		return func(v interface{}) interface{} { return f(fmt.Sprint(v)) }
	}
	konst := func(x interface{}) func(v interface{}) interface{} {
		return func(v interface{}) interface{} { return x }
	}
	boolKeys := []string{"is_feature_class", "planar_self", "non_planar_self", "avoid_new_self_intersects", "geometric_relation", "distance_relation", "homotopy_relation"}
	variants := []variant{
		{"-f", true, func(d string, b Cfg) []string { return []string{"-f", file(d, b)} }},
		{"--f=", true, func(d string, b Cfg) []string { return []string{"--f=" + file(d, b)} }},
		{"-b", true, func(d string, b Cfg) []string { return []string{"-b", b64(b)} }},
		{"-b=", true, func(d string, b Cfg) []string { return []string{"-b=" + b64(b)} }},
		{"-b blanks around", true, func(d string, b Cfg) []string { return []string{"-b", " " + b64(b) + "\n"} }},
		{"-b indented json", true, func(d string, b Cfg) []string {
			dat, _ := json.MarshalIndent(b, "", "    ")
			return []string{"-b", base64.StdEncoding.EncodeToString(dat)}
		}},
		{"-f indented json, blanks around", true, func(d string, b Cfg) []string {
			dat, _ := json.MarshalIndent(b, "", "\t")
			return []string{"-f", file(d, "\n  "+string(dat)+"\n\n")}
		}},
		{"type lower case", true, with("simplification_type", str(strings.ToLower))},
		{"type upper case", true, with("simplification_type", str(strings.ToUpper))},
		{"type mixed case", true, with("simplification_type", str(func(s string) string { return s[:1] + strings.ToLower(s[1:]) }))},
		{"type with blanks", true, with("simplification_type", str(func(s string) string { return " " + s + "\t" }))},
		{"input with blanks", true, with("input", str(func(s string) string { return "  " + s + " " }))},
		{"output with blanks", true, with("output", str(func(s string) string { return " " + s + "\n" }))},
		{"constraints with blanks", true, with("constraints", str(func(s string) string { return " " + s + " " }))},
		{"unknown key", true, with("color", konst("red"))},
		{"false options omitted", true, func(d string, b Cfg) []string {
			c := clone(b)
			for _, k := range boolKeys {
				if c[k] == false {
					delete(c, k)
				}
			}
			return []string{"-f", file(d, c)}
		}},
		{"relative input and output", true, func(d string, b Cfg) []string {
			c := clone(b)
			c["input"], c["output"] = filepath.Base(c["input"].(string)), filepath.Base(c["output"].(string))
			if s, ok := c["constraints"].(string); ok {
				c["constraints"] = "./" + filepath.Base(s)
			}
			return []string{"-f", filepath.Base(file(d, c))}
		}},
		{"configuration file with letters of other scripts", true, func(d string, b Cfg) []string {
			c := clone(b)
			c["note"] = "\u00fc\u4e2d\u00ff\u00fe ???>>>~~~"
			dat, _ := json.Marshal(c)
			return []string{"-f", file(d, string(dat))}
		}},
		{"-b with letters of other scripts", true, func(d string, b Cfg) []string {
			c := clone(b)
			c["a note"] = "\u00fc\u4e2d\u00ff\u00fe ???>>>~~~ \u00ff\u00ff\u00ff"
			return []string{"-b", b64(c)}
		}},
		{"input in a folder with letters of other scripts", true, func(d string, b Cfg) []string {
			c := clone(b)
			n := filepath.Join(d, "\u00fc \u4e2d?>~")
			os.Mkdir(n, 0o755)
			dat, _ := os.ReadFile(c["input"].(string))
			c["input"] = filepath.Join(n, "in")
			os.WriteFile(c["input"].(string), dat, 0o644)
			return []string{"-f", file(d, c)}
		}},
		{"numbers with exponents", true, func(d string, b Cfg) []string {
			dat, _ := json.Marshal(b)
			s := string(dat)
			for _, k := range []string{"threshold", "minimum_distance", "non_planar_displacement"} {
				if v, ok := b[k]; ok {
					old, _ := json.Marshal(v)
					x, _ := strconv.ParseFloat(string(old), 64)
					s = strings.Replace(s, fmt.Sprintf(`"%s":%s`, k, old), fmt.Sprintf(`"%s":%s`, k, strconv.FormatFloat(x, 'E', -1, 64)), 1)
				}
			}
			return []string{"-f", file(d, s)}
		}},
		{"constraints blank", true, func(d string, b Cfg) []string {
			c := clone(b)
			if _, ok := c["constraints"]; !ok {
				c["constraints"] = "  "
			}
			return []string{"-f", file(d, c)}
		}},
		{"long configuration", true, with("description", konst(longText))},
		{"no arguments", false, func(d string, b Cfg) []string { return nil }},
		{"both flags", false, func(d string, b Cfg) []string { return []string{"-f", file(d, b), "-b", b64(b)} }},
		{"both flags, other order", false, func(d string, b Cfg) []string { return []string{"-b", b64(b), "-f", file(d, b)} }},
		{"unknown flag", false, func(d string, b Cfg) []string { return []string{"-x", file(d, b)} }},
		{"missing configuration file", false, func(d string, b Cfg) []string { return []string{"-f", filepath.Join(d, "none.json")} }},
		{"type missing", false, with("simplification_type", konst(nil))},
		{"type empty", false, with("simplification_type", konst(""))},
		{"type unknown", false, with("simplification_type", konst("VW"))},
		{"type dps", false, with("simplification_type", konst("dps"))},
		{"input missing", false, with("input", konst(nil))},
		{"input not there", false, with("input", str(func(s string) string { return s + "x" }))},
		{"input is a directory", false, with("input", str(func(s string) string { return filepath.Dir(s) }))},
		{"output missing", false, with("output", konst(nil))},
		{"output blank", false, with("output", konst("  "))},
		{"output is a directory", false, with("output", str(func(s string) string { return filepath.Dir(s) }))},
		{"output in a folder that is not there", false, with("output", str(func(s string) string { return filepath.Join(filepath.Dir(s), "none", "out.json") }))},
		{"output on a full device", false, with("output", konst("/dev/full"))},
		{"constraints not there", false, with("constraints", str(func(s string) string { return s + "x" }))},
		{"constraints are a directory", false, with("constraints", str(filepath.Dir))},
		{"output in a file taken for a folder", false, with("output", str(func(s string) string { return filepath.Join(filepath.Dir(s), "input file.json", "out.json") }))},
		{"threshold is text", false, with("threshold", konst("1"))},
		{"option is a number", false, with("planar_self", konst(1))},
		{"not base64", false, func(d string, b Cfg) []string { return []string{"-b", "{" + b64(b)} }},
		{"truncated base64", false, func(d string, b Cfg) []string { s := b64(b); return []string{"-b", s[:len(s)/2/4*4+1]} }},
		{"truncated json", false, func(d string, b Cfg) []string {
			dat, _ := json.Marshal(b)
			return []string{"-f", file(d, string(dat[:len(dat)-1]))}
		}},
		{"empty configuration", false, func(d string, b Cfg) []string { return []string{"-f", file(d, "")} }},
		{"configuration is a list", false, func(d string, b Cfg) []string { return []string{"-f", file(d, "[]")} }},
		{"input line is not json", false, func(d string, b Cfg) []string {
			appendFile(b["input"].(string), "\n{\"type\":\"LineString\"\n")
			return []string{"-f", file(d, b)}
		}},
		{"constraint line is not json", false, func(d string, b Cfg) []string {
			appendFile(b["constraints"].(string), "\nPOINT (1 1)\n")
			return []string{"-f", file(d, b)}
		}},
	}
	// a discriminating set: every option changes the result of at least one of these lines
	probe := [][]geo.P{
		withT(0, 0, 1, 2, 2, 0, 3, 2, 4, 0),                    // threshold
		withT(0, 0, 4, 0, 4, 4, 2, 0, 0, 4),                    // non planar T
		withT(0, 0, 4, 4, 4, 0, 0, 4, -2, 4),                   // non planar X
		withT(10, 0, 12, 2, 14, 0, 12, -2, 12, 2, 16, 3),       // planar vertex
		withT(20, 0, 22, 4, 24, 0, 24, 1, 20, 2, 22, -1),       // self
		withT(30, 0, 32, 4, 34, 0), withT(31, 0, 32, 2, 33, 0), // class
		withT(40, 0, 42, 4, 44, 0),                                           // context point inside
		withT(50, 0, 52, 4, 54, 0, 56, 4, 58, 0),                             // context line crossing
		withT(60, 0, 61, 2, 62, 1, 63, 2, 64, 0, 65, 3, 61, 3),               // mixed
		withT(32, 1, 36, 2, 32, 5),                                           // crossing a class member
		withT(70, 0, 70, 4, 74, 4, 74, 0, 70, 0, 70, -3),                     // loop
		withT(90, 0, 92, 4, 94, 0),                                           // near a context point
		{{X: 80, T: 1}, {X: 81, T: 2}, {X: 84, T: 20}, {X: 90, Y: 1, T: 21}}, // time
	}
	probeCons := []geo.G{pt(42, 1), seg(50, 2, 53, 2), poly(62, -1, 63, -1, 63, 0, 62, 0), pt(72, 2), pt(22, 1), pt(92, -1)}

	libText := func(o lib.Opts, m lib.Metric, fc bool) ([][]int, string) {
		k := Case{Lines: probe, Cons: probeCons, Opt: o, Metric: m, FC: fc}
		r := Exec(&k)
		return r.Idx, r.Err
	}
	probeIn := func() (string, string) {
		var in, cons []string
		for _, l := range probe {
			in = append(in, lineJSON(l))
		}
		for _, g := range probeCons {
			cons = append(cons, consJSON(g))
		}
		return strings.Join(in, "\n"), strings.Join(cons, "\n")
	}
	// runVariant executes one command line; returns a complaint
	runVariant := func(c *run.Ctx, v variant, o lib.Opts, m lib.Metric, fc, cons, old bool) string {
		d := tmp(c)
		defer os.RemoveAll(d)
		in, cn := probeIn()
		ip, op, cp := filepath.Join(d, "input file.json"), filepath.Join(d, "out.json"), filepath.Join(d, "cons.json")
		os.WriteFile(ip, []byte(in), 0o644)
		os.WriteFile(cp, []byte(cn), 0o644)
		previous := strings.Repeat("{\"previous\":1}\n", 400)
		if old {
			os.WriteFile(op, []byte(previous), 0o644)
		}
		cfg := cfgOf(o, m, fc)
		cfg["input"], cfg["output"] = ip, op
		if cons || strings.Contains(v.name, "constraint") {
			cfg["constraints"] = cp
		}
		args := v.args(d, cfg)
		before, _ := os.ReadFile(ip)
		beforeC, _ := os.ReadFile(cp)
		r := Invoke(c, d, args...)
		if r.Hang {
			return "program does not terminate"
		}
		after, _ := os.ReadFile(ip)
		afterC, _ := os.ReadFile(cp)
		if string(before) != string(after) || string(beforeC) != string(afterC) {
			return "input or constraints file changed"
		}
		out, err := os.ReadFile(op)
		if !v.ok {
			if r.Code == 0 {
				return "exit code 0"
			}
			if !old && err == nil {
				return "output written"
			}
			if old && string(out) != previous {
				return "existing output touched"
			}
			return ""
		}
		if r.Code != 0 || err != nil {
			return fmt.Sprintf("exit code %d: %s", r.Code, tail(r.Stderr))
		}
		var want [][]int
		var e string
		if _, ok := cfg["constraints"]; ok {
			want, e = libText(o, m, fc)
		} else {
			k := Case{Lines: probe, Opt: o, Metric: m, FC: fc}
			x := Exec(&k)
			want, e = x.Idx, x.Err
		}
		if e != "" {
			return e
		}
		recs := splitLines(string(out))
		if len(recs) != len(probe) {
			return fmt.Sprintf("%d records in, %d out", len(probe), len(recs))
		}
		for i := range recs {
			var f feature
			if err := json.Unmarshal([]byte(recs[i]), &f); err != nil || f.Geometry == nil {
				return "bad record " + recs[i]
			}
			var cs [][]float64
			json.Unmarshal(f.Geometry.Coordinates, &cs)
			idx, err := outIdx(probe[i], cs)
			if err != nil {
				return err.Error()
			}
			if !reflect.DeepEqual(idx, want[i]) {
				return fmt.Sprintf("line %d: program retained %v, the configuration means %v", i, idx, want[i])
			}
		}
		return ""
	}
	type vcase struct {
		Variant       string
		Opt           lib.Opts
		Metric        lib.Metric
		FC, Cons, Old bool
	}
	register(&run.Prop{ID: "C17", Rule: "every way of passing a configuration in the variant list x every combination of the seven boolean options x both types x with/without constraints file; expected result computed by the library with the meant options; non-trivial = the run must succeed",
		Assumptions: []string{"the library run with the meant options is the reference for accepted configurations; its results are the subject of the other properties"},
		Replay: func(c *run.Ctx, raw json.RawMessage) string {
			var k vcase
			json.Unmarshal(raw, &k)
			for _, v := range variants {
				if v.name == k.Variant {
					return runVariant(c, v, k.Opt, k.Metric, k.FC, k.Cons, k.Old)
				}
			}
			return ""
		},
		Run: func(c *run.Ctx) {
			one := func(v variant, k vcase, t *run.Tally) {
				k.Variant = v.name
				t.States++
				t.Trans++
				t.Evals++
				t.Traces++
				if v.ok {
					t.Nontriv++
				}
				if m := runVariant(c, v, k.Opt, k.Metric, k.FC, k.Cons, k.Old); m != "" {
					kind := "accepted"
					if v.ok {
						kind = "meaning"
					}
					c.Fail(kind, v.name+": "+m, k)
				}
				if c.WantSample() {
					c.Sample(k)
				}
			}
			vals := []lib.Opts{{Threshold: 3, MinDist: 1.5, NonPlanarDisplacement: 0.5}, {Threshold: 50, MinDist: 1.25, NonPlanarDisplacement: 3}, {Threshold: 0}}
			mk := func(bits int, v lib.Opts) lib.Opts {
				return optBits(bits, v.Threshold, v.MinDist, v.NonPlanarDisplacement)
			}
			// every option combination x type x class mode x values, plain -f
			c.For("64 option sets x class mode x 2 types x 3 value sets x constraints", 64*2*2*3*2, func(i int, t *run.Tally) {
				k := vcase{FC: i%2 == 1, Metric: []lib.Metric{lib.DP, lib.SED}[i/2%2], Cons: i/4%2 == 1}
				k.Opt = mk(i/8%64, vals[i/512])
				one(variants[0], k, t)
			})
			// every variant
			c.For(fmt.Sprintf("%d ways of passing a configuration x option sets", len(variants)), len(variants)*2*2*8*2, func(i int, t *run.Tally) {
				v := variants[i%len(variants)]
				i /= len(variants)
				k := vcase{FC: i%2 == 1, Metric: []lib.Metric{lib.DP, lib.SED}[i/2%2], Old: i/4%2 == 1, Cons: i%3 == 0}
				k.Opt = mk([]int{0, 1, 2, 4, 8, 16, 32, 63}[i/8%8], vals[0])
				one(v, k, t)
			})
			// does the probe tell the options apart
			if c.Shard == 0 {
				var dead []string
				for b := 0; b < 6; b++ {
					diff := false
					for rest := 0; rest < 64 && !diff; rest++ {
						if rest>>b&1 == 1 {
							continue
						}
						for _, fc := range []bool{false, true} {
							x, _ := libText(mk(rest, vals[1]), lib.DP, fc)
							y, _ := libText(mk(rest|1<<b, vals[1]), lib.DP, fc)
							diff = diff || !reflect.DeepEqual(x, y)
						}
					}
					if !diff {
						dead = append(dead, fmt.Sprint(1<<b))
					}
				}
				c.Set("options_without_effect_on_probe", dead)
			}
			if c.Thorough() {
				c.For("every variant x 64 option sets x class mode x types", len(variants)*64*4, func(i int, t *run.Tally) {
					v := variants[i%len(variants)]
					i /= len(variants)
					one(v, vcase{FC: i%2 == 1, Metric: []lib.Metric{lib.DP, lib.SED}[i/2%2], Opt: mk(i/4%64, vals[i%3])}, t)
				})
			}
		}})

	// ------------------------------------------------------------ C18: representations

	objs := []geo.G{pt(1, 1), pt(3, 1), seg(0, 3, 1, 4), seg(5, 0, 5, 2), poly(2, 2, 4, 2, 3, 3),
		geo.PolyG(ring(-6, -6, 12, -6, 12, 12, -6, 12), ring(-5, -5, 11, -5, 11, 11, -5, 11)),
		poly(-1, -2, 7, -2, 7, 5, 3, 5, 2, 1, 1, 5, -1, 5)}
	ptc := func(g geo.G) string {
		p := g.Rings[0][0]
		return fmt.Sprintf("[%d,%d]", p.X, p.Y)
	}
	coordsOf := func(g geo.G) string {
		switch g.Kind {
		case geo.Pt:
			return ptc(g)
		case geo.Line:
			return coordsJSON(g.Rings[0], false)
		}
		var rs []string
		for _, r := range g.Rings {
			rs = append(rs, coordsJSON(r, false))
		}
		return "[" + strings.Join(rs, ",") + "]"
	}
	feat := func(g string, i int) string {
		return fmt.Sprintf(`{"type":"Feature","properties":%s,"geometry":%s}`, jsonProps[i%len(jsonProps)], g)
	}
	// multi groups runs of equal kind
	multi := func(gs []geo.G) []string {
		var r []string
		for i := 0; i < len(gs); {
			j := i
			var cs []string
			for j < len(gs) && gs[j].Kind == gs[i].Kind {
				cs = append(cs, coordsOf(gs[j]))
				j++
			}
			name := map[geo.Kind]string{geo.Pt: "MultiPoint", geo.Line: "MultiLineString", geo.Poly: "MultiPolygon"}[gs[i].Kind]
			r = append(r, fmt.Sprintf(`{"type":"%s","coordinates":[%s]}`, name, strings.Join(cs, ",")))
			i = j
		}
		return r
	}
	type form struct {
		name string
		f    func(gs []geo.G) string
	}
	each := func(gs []geo.G, f func(g string, i int) string) []string {
		var r []string
		for i, g := range gs {
			r = append(r, f(consJSON(g), i))
		}
		return r
	}
	plain := func(g string, i int) string { return g }
	forms := []form{
		{"geometries", func(gs []geo.G) string { return strings.Join(each(gs, plain), "\n") }},
		{"features", func(gs []geo.G) string { return strings.Join(each(gs, feat), "\n") }},
		{"multi geometries", func(gs []geo.G) string { return strings.Join(multi(gs), "\n") }},
		{"multi features", func(gs []geo.G) string {
			m := multi(gs)
			for i := range m {
				m[i] = feat(m[i], i)
			}
			return strings.Join(m, "\n")
		}},
		{"feature collection", func(gs []geo.G) string {
			return `{"type":"FeatureCollection","features":[` + strings.Join(each(gs, feat), ",") + "]}"
		}},
		{"reversed order", func(gs []geo.G) string {
			var r []geo.G
			for i := len(gs) - 1; i >= 0; i-- {
				r = append(r, gs[i])
			}
			return strings.Join(each(r, plain), "\n")
		}},
		{"every object twice", func(gs []geo.G) string { return strings.Join(append(each(gs, plain), each(gs, feat)...), "\n") }},
		{"features without geometry between", func(gs []geo.G) string {
			none := `{"type":"Feature","properties":{"p":1},"geometry":null}`
			return none + "\n" + strings.Join(each(gs, plain), "\n"+none+"\n")
		}},
		{"collection with features without geometry", func(gs []geo.G) string {
			none := `{"type":"Feature","properties":null,"geometry":null}`
			return `{"type":"FeatureCollection","features":[` + none + "," + strings.Join(each(gs, feat), ","+none+",") + "]}"
		}},
		{"one collection per object", func(gs []geo.G) string {
			return strings.Join(each(gs, func(g string, i int) string {
				return `{"features":[` + feat(g, i) + `],"type":"FeatureCollection"}`
			}), "\n")
		}},
		{"members in other order, foreign members", func(gs []geo.G) string {
			return strings.Join(each(gs, func(g string, i int) string {
				return fmt.Sprintf(`{ "geometry" : %s , "id" : "g%d", "bbox": [0, 0, 1, 1], "properties" : %s , "type" : "Feature", "note": {"type": "Point"} }`, g, i, jsonProps[i%len(jsonProps)])
			}), "\n")
		}},
		{"long records", func(gs []geo.G) string {
			return strings.Join(each(gs, func(g string, i int) string {
				return fmt.Sprintf(`{"type":"Feature","properties":{"text":"%s"},"geometry":%s}`, longText, g)
			}), "\n")
		}},
		{"blank lines and carriage returns", func(gs []geo.G) string { return "\r\n" + strings.Join(each(gs, plain), "\r\n\r\n  ") + "\n\n" }},
	}
	consLines := func() [][]geo.P {
		var r [][]geo.P
		for i, l := range (Words{Name: "teeth", Steps: teeth, L: 5}).lines() {
			if i%27 == 0 {
				r = append(r, shift(l, int64(i/27%3)-1, int64(i/81%3)))
			}
		}
		return append(r, (Grid{N: 4, W: 3, H: 2, Scale: 2}).All(func(l []geo.P) bool { return (l[0].X+3*l[1].X+5*l[2].Y+l[3].X)%7 == 0 })...)
	}()
	consIn := func() string {
		var in []string
		for _, l := range consLines {
			in = append(in, lineJSON(l))
		}
		return strings.Join(in, "\n")
	}()
	var sets [][]int
	for n := 1; n <= 3; n++ {
		for i, no := 0, len(objs); i < no*no*no; i++ {
			s := []int{i % no, i / no % no, i / no / no}[:n]
			ok := true
			for a := 0; a+1 < n; a++ {
				ok = ok && s[a] < s[a+1]
			}
			if ok && (n == 3 || i < no || n == 2 && i < no*no) {
				sets = append(sets, append([]int{}, s...))
			}
		}
	}
	sets = append(sets, []int{0, 1, 2, 3, 4, 5, 6})
	pick := func(s []int) []geo.G {
		var r []geo.G
		for _, i := range s {
			r = append(r, objs[i])
		}
		return r
	}
	type ccase struct {
		Set  []int
		Form string
		Opt  lib.Opts
		FC   bool
	}
	reprRun := func(c *run.Ctx, k ccase, base string) (string, string) {
		for _, f := range forms {
			if f.name != k.Form {
				continue
			}
			in := consIn
			if k.FC {
				in = strings.Join(strings.Split(consIn, "\n")[:40], "\n")
			}
			out, ok, r := RunFile(c, in, f.f(pick(k.Set)), cfgOf(k.Opt, lib.DP, k.FC))
			if r.Hang || r.Code != 0 || !ok {
				return "", fmt.Sprintf("%s: exit code %d: %s", k.Form, r.Code, tail(r.Stderr))
			}
			if base != "" && out != base {
				a, b := splitLines(base), splitLines(out)
				for i := range a {
					if i >= len(b) || a[i] != b[i] {
						return out, fmt.Sprintf("%s: record %d differs from the run with one geometry per line: %s instead of %s", k.Form, i, b[i], a[i])
					}
				}
				return out, k.Form + ": output differs"
			}
			return out, ""
		}
		return "", ""
	}
	register(&run.Prop{ID: "C18", Rule: "every subset of up to three of seven context objects (points, lines, polygons, one concave around the lines, polygon with hole) x every form of the constraints file x relation options; the program's output is compared with that of the run with one geometry per line; non-trivial = the constraints change the result",
		Replay: func(c *run.Ctx, raw json.RawMessage) string {
			var k ccase
			json.Unmarshal(raw, &k)
			b := k
			b.Form = forms[0].name
			base, m := reprRun(c, b, "")
			if m != "" {
				return m
			}
			_, m = reprRun(c, k, base)
			return m
		},
		Run: func(c *run.Ctx) {
			bits := []int{8, 16, 32, 56}
			if c.Thorough() {
				bits = []int{8, 16, 24, 32, 40, 48, 56, 12, 20, 36, 63}
			}
			c.For(fmt.Sprintf("%d sets of objects x %d options x class mode x %d forms", len(sets), len(bits), len(forms)), len(sets)*len(bits)*2, func(i int, t *run.Tally) {
				k := ccase{Opt: optBits(bits[i%len(bits)], 10, 1, 1)}
				i /= len(bits)
				k.FC = i%2 == 1
				k.Set = sets[i/2]
				base := ""
				in := consIn
				if k.FC {
					in = strings.Join(strings.Split(consIn, "\n")[:40], "\n")
				}
				none, _, _ := RunFile(c, in, "", cfgOf(k.Opt, lib.DP, k.FC))
				for _, f := range forms {
					k.Form = f.name
					out, m := reprRun(c, k, base)
					t.States++
					t.Trans++
					t.Evals++
					t.Traces++
					if m != "" {
						c.Fail("representation", m, k)
					}
					if base == "" {
						base = out
						if base == "" {
							break
						}
					}
					if out != none {
						t.Nontriv++
					}
				}
				if c.WantSample() {
					c.Sample(fmt.Sprintf("%v %s", k.Set, forms[2].f(pick(k.Set))))
				}
			})
		}})
}

// longText makes a record longer than the usual buffers.
var longText = strings.Repeat("long text ", 14000)

func appendFile(p, s string) {
	dat, _ := os.ReadFile(p)
	os.WriteFile(p, append(dat, s...), 0o644)
}

func (w Words) lines() [][]geo.P { return all(w, nil) }
