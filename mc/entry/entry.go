// Package entry is the command line frame of the checkers: it decides one property by bounded
// exhaustive exploration of the real code.
package entry

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"verifmc/run"
)

// Main decides the property named on the command line.
func Main(byID func(string) *run.Prop) {
	id := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	root := flag.String("root", "/verif", "")
	scratch := flag.String("scratch", "", "scratch directory")
	bin := flag.String("bin", "", "built command line program")
	secs := flag.Int("budget", 0, "seconds")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("v", false, "")
	shard := flag.Int("shard", -1, "worker process number")
	shards := flag.Int("shards", runtime.NumCPU(), "worker processes")
	out := flag.String("out", "", "worker result file")
	trace := flag.String("trace", "", "worker slot file")
	deadline := flag.Int64("deadline", 0, "unix time")
	flag.Parse()
	t := *tier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t == "" {
		t = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 75 * time.Second
	if t == "thorough" {
		budget = 780 * time.Second
	}
	if *secs > 0 {
		budget = time.Duration(*secs) * time.Second
	}
	p := byID(*id)
	if p == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	c := run.New(*id, t, seed, *root, *scratch, *bin, budget)
	c.Verbose = *verbose
	if e := os.Getenv("VERIF_ALSO"); e != "" {
		c.Also = []string{e}
	}
	if *replay != "" {
		dat, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v struct {
			Case json.RawMessage `json:"case"`
		}
		json.Unmarshal(dat, &v)
		if m := p.Replay(c, v.Case); m != "" {
			fmt.Println("reproduced:", m)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	}
	if *shard >= 0 {
		c.Shard, c.NShards, c.Trace = *shard, *shards, *trace
		if *trace == "" && *deadline > 0 {
			c.Deadline = time.Unix(*deadline, 0)
		}
		os.Exit(c.Work(p, *out))
	}
	args := []string{"-property", *id, "-tier", t, "-root", *root, "-bin", *bin,
		"-budget", fmt.Sprint(int(budget.Seconds())), "-deadline", fmt.Sprint(c.Deadline.Unix())}
	if *verbose {
		args = append(args, "-v")
	}
	os.Exit(c.Parent(p, *shards, args))
}
