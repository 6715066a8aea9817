// Command vworker runs or replays the check of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"verif/pbt"
	"verif/props"
)

func main() {
	id := flag.String("prop", "", "the property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "the seed")
	shard := flag.Int("shard", 0, "the shard")
	total := flag.Int("total", 1, "the number of shards")
	cases := flag.Int("cases", 0, "the number of cases, if not the default")
	deadline := flag.Duration("deadline", 10*time.Minute, "no cases are started after this time")
	out := flag.String("out", "", "file for the statistics")
	cur := flag.String("current", "", "file for the current case")
	replay := flag.String("replay", "", "file with an input (or a failure with an input) to check")
	list := flag.Bool("list", false, "list the properties")
	noshrink := flag.Bool("noshrink", false, "don't shrink")
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(3 << 30)
	if runtime.GOMAXPROCS(0) > 4 {
		runtime.GOMAXPROCS(2)
	}
	if *list {
		var ids []string
		for id := range props.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props.Props[id]
			fmt.Printf("%s\t%d\t%d\n", id, p.Quick, p.Thorough)
		}
		return
	}
	p := props.Props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", *id)
		os.Exit(pbt.ExitHarness)
	}
	pbt.Watchdog()
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(pbt.ExitHarness)
		}
	}
	code := run(p, *tier, *seed, *shard, *total, *cases, *deadline, *out, *cur, *replay, *noshrink)
	if p.Teardown != nil {
		p.Teardown()
	}
	os.Exit(code)
}

func run(p *pbt.Prop, tier string, seed uint64, shard, total, cases int, deadline time.Duration, out, cur, replay string, noshrink bool) (code int) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(pbt.HarnessError); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h)
			} else { // a panic in a generator or in the engine
				fmt.Fprintf(os.Stderr, "HARNESS PANIC: %v\n%s\n", e, debug.Stack())
			}
			code = pbt.ExitHarness
		}
	}()
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return pbt.ExitHarness
		}
		in := b
		var f pbt.Failure
		if json.Unmarshal(b, &f) == nil && f.Property != "" {
			in = f.Input
		}
		c, err := pbt.Decode(p, in)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return pbt.ExitHarness
		}
		r := pbt.RunCheck(p, c)
		if r.Err != "" {
			fmt.Println(r.Err)
			return 1
		}
		fmt.Println("ok", r.Classes)
		return 0
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if cases > 0 {
		n = cases
	}
	if noshrink {
		p.MaxShrink = -1
	}
	o := pbt.Options{Seed: seed, Shard: shard, Total: total, Cases: n, Deadline: time.Now().Add(deadline), Thorough: tier == "thorough"}
	if cur != "" {
		c, err := pbt.OpenCurrent(cur)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return pbt.ExitHarness
		}
		o.Current = c
	}
	st := pbt.Run(p, o)
	b, err := json.Marshal(st)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return pbt.ExitHarness
	}
	if out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return pbt.ExitHarness
		}
	} else {
		st.Keys = st.Keys[:min(len(st.Keys), 3)]
		b, _ := json.MarshalIndent(st, "", " ")
		fmt.Println(string(b))
	}
	if st.Failure != nil {
		return 1
	}
	return 0
}
