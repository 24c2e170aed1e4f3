// Package run is the frame every check runs in: exhaustive enumeration of index spaces
// sharded over single-threaded worker processes under an internal deadline, violation
// recording and replay, known findings, evidence.
package run

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one decided property.
type Prop struct {
	ID          string
	Rule        string // how cases are made, what makes one non-trivial
	Assumptions []string
	Run         func(c *Ctx)
	Replay      func(c *Ctx, kase json.RawMessage) string // "" when the case passes
}

// Fam is the progress of one index space.
type Fam struct {
	Name string
	N    int
	Done int
}

// Violation is one kind of failure with its smallest case.
type Violation struct {
	Property string          `json:"property"`
	Key      string          `json:"key"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Times    int             `json:"times_seen"`
	Again    string          `json:"reproduced,omitempty"`
}

// Result is what one worker process hands to the parent.
type Result struct {
	States, Trans, Traces, Evals, Nontriv int64
	Fams                                  []*Fam
	Notes                                 []string // completed families outside For
	Capped                                []string
	Samples                               []interface{}
	Viol                                  map[string]*Violation
	KnownHit                              map[string]bool
	Extra                                 map[string]interface{}
	Sums                                  map[string]int64
	Broken                                string
}

// Ctx of one run.
type Ctx struct {
	Prop, Tier     string
	Seed           int
	Root           string // /verif
	Scratch        string
	Bin            string // command line program under test
	Start          time.Time
	Deadline       time.Time
	Shard, NShards int
	Verbose        bool
	Also           []string // further programs every shard is also given to
	Trace          string   // slot file: every case is written before it is executed

	R     Result
	mu    sync.Mutex
	known map[string]string
	stop  int32
	cur   atomic.Value
	tick  int64
}

// Tally of executions.
type Tally struct{ States, Trans, Traces, Evals, Nontriv int }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }
func (c *Ctx) Late() bool     { return atomic.LoadInt32(&c.stop) != 0 || time.Now().After(c.Deadline) }
func (c *Ctx) Merge(t *Tally) {
	c.mu.Lock()
	c.R.States += int64(t.States)
	c.R.Trans += int64(t.Trans)
	c.R.Traces += int64(t.Traces)
	c.R.Evals += int64(t.Evals)
	c.R.Nontriv += int64(t.Nontriv)
	c.mu.Unlock()
	*t = Tally{}
}

// Pick selects by tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// PickS selects by tier.
func (c *Ctx) PickS(q, t string) string {
	if c.Thorough() {
		return t
	}
	return q
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.R.Samples) < 4 {
		c.R.Samples = append(c.R.Samples, v)
	}
	c.mu.Unlock()
}
func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.R.Samples) < 4
}

// Now declares the case about to be executed (for hangs and crashes of the real code).
func (c *Ctx) Now(f func() interface{}) {
	atomic.AddInt64(&c.tick, 1)
	c.cur.Store(f)
	if c.Trace != "" {
		dat, _ := json.Marshal(f())
		os.WriteFile(c.Trace, dat, 0o644)
	}
}

// Mine tells whether work item i belongs to this worker process.
func (c *Ctx) Mine(i int) bool {
	return int((uint64(i)*0x9E3779B97F4A7C15>>33)%uint64(c.NShards)) == c.Shard
}

// For explores this worker's part of the index space [0,n) unless the deadline is reached,
// in which case the family is reported as capped.
func (c *Ctx) For(family string, n int, f func(i int, t *Tally)) {
	fam := &Fam{Name: family, N: n}
	c.R.Fams = append(c.R.Fams, fam)
	if c.Late() {
		return
	}
	chunk := n/(c.NShards*256) + 1
	if chunk > 64 {
		chunk = 64
	}
	var t Tally
	t0, e0 := time.Now(), c.R.Evals
	for a, q := 0, 0; a < n; a, q = a+chunk, q+1 {
		if !c.Mine(q) {
			continue
		}
		if q&7 == 0 || n < 100000 {
			if c.Late() {
				break
			}
		}
		b := a + chunk
		if b > n {
			b = n
		}
		for i := a; i < b; i++ {
			f(i, &t)
		}
		fam.Done += b - a
	}
	c.Merge(&t)
	if c.Verbose && c.Shard == 0 {
		fmt.Fprintf(os.Stderr, "# %-80s n=%d evals=%d %.1fs (total %.1fs)\n", family, n, c.R.Evals-e0, time.Since(t0).Seconds(), time.Since(c.Start).Seconds())
	}
}

// Cap notes that a bound was not reached.
func (c *Ctx) Cap(what string) {
	c.mu.Lock()
	c.R.Capped = append(c.R.Capped, what)
	c.mu.Unlock()
}

// Done notes a completed family.
func (c *Ctx) Done(what string) {
	c.mu.Lock()
	c.R.Notes = append(c.R.Notes, what)
	c.mu.Unlock()
}

// Set an extra evidence entry; Sum adds to one over all workers.
func (c *Ctx) Set(k string, v interface{}) {
	c.mu.Lock()
	c.R.Extra[k] = v
	c.mu.Unlock()
}
func (c *Ctx) Sum(k string, v int64) {
	c.mu.Lock()
	c.R.Sums[k] += v
	c.mu.Unlock()
}

// Fail records a violation. kind groups similar ones; the smallest case of a kind is kept.
func (c *Ctx) Fail(kind, msg string, kase interface{}) {
	dat, _ := json.Marshal(kase)
	key := kind + " " + string(dat)
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.R.KnownHit[key] = true
		return
	}
	addViol(&c.R, &Violation{Property: c.Prop, Key: key, Kind: kind, Message: kind + ": " + msg, Case: dat, Times: 1})
	if c.R.Viol[kind].Times > 500 { // plenty of evidence: stop exploring
		atomic.StoreInt32(&c.stop, 1)
	}
}

func addViol(r *Result, v *Violation) {
	old := r.Viol[v.Kind]
	if old == nil {
		r.Viol[v.Kind] = v
		return
	}
	n := old.Times + v.Times
	if len(v.Case) < len(old.Case) || len(v.Case) == len(old.Case) && string(v.Case) < string(old.Case) {
		*old = *v
	}
	old.Times = n
}

func (c *Ctx) NumViol() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.R.Viol) }

func newResult() Result {
	return Result{Viol: map[string]*Violation{}, KnownHit: map[string]bool{}, Extra: map[string]interface{}{}, Sums: map[string]int64{}}
}

func New(prop, tier string, seed int, root, scratch, bin string, budget time.Duration) *Ctx {
	now := time.Now()
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Root: root, Scratch: scratch, Bin: bin, Start: now,
		Deadline: now.Add(budget), NShards: 1, R: newResult(), known: map[string]string{}}
	dat, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err == nil {
		for _, l := range strings.Split(string(dat), "\n") {
			l = strings.TrimSpace(l)
			pre := "known: property=" + prop + " "
			if strings.HasPrefix(l, pre) {
				l = l[len(pre):]
				what := l
				if i := strings.Index(l, " ## "); i >= 0 {
					l, what = l[:i], l[i+4:]
				}
				c.known[strings.TrimSpace(l)] = what
			}
		}
	}
	return c
}

const hangAfter = 120 // seconds without progress while this process is being scheduled

// Work runs as one worker process and writes its result.
func (c *Ctx) Work(p *Prop, out string) int {
	done := make(chan struct{})
	go func() {
		defer close(done)
		p.Run(c)
	}()
	last, still := int64(-1), 0
	for {
		select {
		case <-done:
			return c.write(out)
		case <-time.After(time.Second):
		}
		if now := atomic.LoadInt64(&c.tick); now != last {
			last, still = now, 0
		} else if still++; still > hangAfter {
			f, _ := c.cur.Load().(func() interface{})
			if f == nil {
				still = 0 // nothing of the real code is being executed
				continue
			}
			c.Fail("hang", fmt.Sprintf("no result after %d s", hangAfter), f())
			return c.write(out)
		}
	}
}

func (c *Ctx) write(out string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	dat, err := json.Marshal(c.R)
	if err == nil {
		err = os.WriteFile(out, dat, 0o644)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

// Parent starts n worker processes and merges their results.
func (c *Ctx) Parent(p *Prop, n int, args []string) int {
	type one struct {
		r   Result
		err string
	}
	exes := append([]string{os.Args[0]}, c.Also...)
	res := make([]one, n*len(exes))
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i].r = newResult()
			start := func(trace string, limit time.Duration) (string, error) {
				out := filepath.Join(c.Scratch, fmt.Sprintf("result-%d.json", i))
				os.Remove(out)
				sc := filepath.Join(c.Scratch, fmt.Sprintf("w%d", i))
				os.MkdirAll(sc, 0o755)
				a := append([]string{}, args...)
				a = append(a, "-shard", fmt.Sprint(i%n), "-shards", fmt.Sprint(n), "-out", out, "-scratch", sc)
				if trace != "" {
					a = append(a, "-trace", trace)
				}
				cmd := exec.Command(exes[i/n], a...)
				var log tailBuf
				cmd.Stdout = &log
				cmd.Stderr = &log
				if c.Verbose && i == 0 {
					cmd.Stderr = os.Stderr
				}
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(sc, "race"))
				if err := cmd.Start(); err != nil {
					return "", err
				}
				t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				t.Stop()
				if err != nil {
					return log.String(), err
				}
				dat, err := os.ReadFile(out)
				if err == nil {
					err = json.Unmarshal(dat, &res[i].r)
				}
				return log.String(), err
			}
			limit := time.Until(c.Deadline) + 200*time.Second
			log, err := start("", limit)
			if err == nil {
				return
			}
			// the real code took the process down: find the case
			slot := filepath.Join(c.Scratch, fmt.Sprintf("slot-%d.json", i))
			log2, err2 := start(slot, limit)
			if err2 == nil {
				if !strings.Contains(log, "TopoSimplify/plugin") {
					res[i].err = fmt.Sprintf("worker %d: %v: %s", i, err, log)
				} else {
					res[i].r.Notes = append(res[i].r.Notes, fmt.Sprintf("worker %d died once and not again: %s", i, log))
				}
				return
			}
			dat, rerr := os.ReadFile(slot)
			if rerr != nil || !strings.Contains(log2, "TopoSimplify/plugin") {
				res[i].err = fmt.Sprintf("worker %d: %v: %s", i, err2, log2)
				return
			}
			res[i].r = newResult()
			key := "crash " + string(dat)
			if _, ok := c.known[key]; ok {
				res[i].r.KnownHit[key] = true
				res[i].r.Capped = append(res[i].r.Capped, "worker ended by known finding")
				return
			}
			addViol(&res[i].r, &Violation{Property: c.Prop, Key: key, Kind: "crash", Message: "crash: " + firstLines(log2, 3), Case: dat, Times: 1})
		}(i)
	}
	wg.Wait()
	fams := map[string]*Fam{}
	var order []string
	for i := range res {
		r := &res[i].r
		if res[i].err != "" {
			c.R.Broken = res[i].err
		}
		c.R.States += r.States
		c.R.Trans += r.Trans
		c.R.Traces += r.Traces
		c.R.Evals += r.Evals
		c.R.Nontriv += r.Nontriv
		for _, f := range r.Fams {
			if o := fams[f.Name]; o == nil {
				fams[f.Name] = f
				order = append(order, f.Name)
			} else {
				o.Done += f.Done
			}
		}
		seen := map[string]bool{}
		for _, s := range c.R.Notes {
			seen[s] = true
		}
		for _, s := range r.Notes {
			if !seen[s] {
				c.R.Notes = append(c.R.Notes, s)
			}
		}
		c.R.Capped = append(c.R.Capped, r.Capped...)
		if len(c.R.Samples) < 6 {
			c.R.Samples = append(c.R.Samples, r.Samples...)
		}
		for _, v := range r.Viol {
			addViol(&c.R, v)
		}
		for k := range r.KnownHit {
			c.R.KnownHit[k] = true
		}
		for k, v := range r.Extra {
			c.R.Extra[k] = v
		}
		for k, v := range r.Sums {
			c.R.Sums[k] += v
		}
	}
	for _, n := range order {
		f := fams[n]
		if f.Done < f.N {
			c.R.Capped = append(c.R.Capped, fmt.Sprintf("%s: %d of %d indices", f.Name, f.Done, f.N))
		} else {
			c.R.Notes = append(c.R.Notes, fmt.Sprintf("%s: all %d indices", f.Name, f.N))
		}
	}
	return c.finish(p)
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 20000 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// finish prints the verdict, writes replay files and evidence, returns the exit code.
func (c *Ctx) finish(p *Prop) int {
	rc := 0
	var kinds []string
	for k := range c.R.Viol {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	if old, _ := filepath.Glob(filepath.Join(c.Root, "replay", c.Prop+"-*.json")); len(old) > 0 {
		for _, f := range old {
			os.Remove(f)
		}
	}
	for _, k := range kinds {
		v := c.R.Viol[k]
		if p.Replay != nil && k != "crash" && k != "hang" {
			again := 0
			for i := 0; i < 5; i++ {
				if p.Replay(c, v.Case) != "" {
					again++
				}
			}
			v.Again = fmt.Sprintf("%d/5", again)
		}
		dir := filepath.Join(c.Root, "replay")
		os.MkdirAll(dir, 0o755)
		name := strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' {
				return r
			}
			return '-'
		}, k)
		path := filepath.Join(dir, c.Prop+"-"+name+".json")
		dat, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, dat, 0o644)
		fmt.Printf("%s (seen %d times, reproduced %s)\n  case %s\n", v.Message, v.Times, v.Again, firstLines(v.Key, 5))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		rc = 1
	}
	for k, what := range c.known {
		if c.R.KnownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, what)
		}
	}
	if c.R.Broken != "" && rc == 0 {
		fmt.Println("the check itself failed:", c.R.Broken)
		return 2
	}
	cov := map[string]interface{}{
		"states": c.R.States, "transitions": c.R.Trans, "traces_validated_against_impl": c.R.Traces,
		"evaluations": c.R.Evals, "distinct_nontrivial": c.R.Nontriv,
		"rule": p.Rule, "samples": c.R.Samples, "exhaustive": len(c.R.Capped) == 0,
		"space_completed": c.R.Notes,
	}
	if len(c.R.Capped) > 0 {
		cov["space_capped"] = c.R.Capped
	}
	for k, v := range c.R.Extra {
		cov[k] = v
	}
	for k, v := range c.R.Sums {
		cov[k] = v
	}
	if c.R.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.R.Viol),
	}
	dat, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Root, "evidence", c.Prop+".json"), append(dat, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces, %d evaluations (%d non-trivial), exhaustive=%v, %d violations, %.1fs\n",
		c.Prop, c.Tier, c.R.States, c.R.Trans, c.R.Traces, c.R.Evals, c.R.Nontriv, len(c.R.Capped) == 0, len(c.R.Viol), time.Since(c.Start).Seconds())
	return rc
}
