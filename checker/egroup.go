package main

// Running the drivers: every driver is split into shards that run as processes of their own.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type shardResult struct {
	Driver string
	Reps   []*Rep
	Err    string
	Steps  int
	Exits  int
	Events map[string]int
	Secs   float64
}

// shards of each driver
var shards = map[string]int{"update.tree": 4, "update.alloc": 4, "delete.tree": 2, "delete.alloc": 2, "next.resume": 4}

func shardMain(args []string) {
	start := time.Now()
	res := shardResult{Driver: args[0]}
	k, _ := strconv.Atoi(args[1])
	n, _ := strconv.Atoi(args[2])
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(engErr); ok {
					res.Err = x.msg
				} else {
					res.Err = fmt.Sprint("internal error: ", r)
				}
			}
		}()
		p, err := loadProg(repoDir(), os.Getenv("RADIX_TAGS"), os.Getenv("RADIX_ARCH"))
		var c *Ctx
		if err == nil {
			c, err = newCtx(p)
		}
		if err != nil {
			res.Err = err.Error()
			return
		}
		c.shard, c.shards = k, n
		found := false
		for _, d := range drivers {
			if d.name == args[0] {
				found = true
				err = d.run(c)
			}
		}
		if err != nil {
			res.Err = err.Error()
		}
		if !found {
			res.Err = "no such driver"
		}
		res.Steps, res.Exits, res.Events = c.e.steps, c.exits, c.d.events
		res.Reps = c.d.sorted()
	}()
	res.Secs = time.Since(start).Seconds()
	json.NewEncoder(os.Stdout).Encode(res)
}

// mine tells whether exit i of the first call is followed in this process
func (c *Ctx) mine(i int) bool {
	c.exits++
	if v := os.Getenv("ONLY"); v != "" && v != fmt.Sprint(i) {
		return false
	}
	return c.shards < 2 || i%c.shards == c.shard
}

func (r *run) engineGroup(names ...string) {
	type job struct {
		name string
		k, n int
	}
	var jobs []job
	for _, nm := range names {
		n := shards[nm]
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{nm, k, n})
		}
	}
	self, err := os.Executable()
	must(err)
	results := make([]shardResult, len(jobs))
	sem := make(chan bool, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	ctx, cancel := context.WithTimeout(context.Background(), 780*time.Second)
	defer cancel()
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.CommandContext(ctx, self, "-shard", j.name, strconv.Itoa(j.k), strconv.Itoa(j.n))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var out, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &er
			e := cmd.Run()
			results[i].Driver = j.name
			if e2 := json.Unmarshal(out.Bytes(), &results[i]); e2 != nil {
				results[i].Err = fmt.Sprintf("analysis process: %v %s", e, tail(er.String(), 300))
			}
		}(i, j)
	}
	wg.Wait()
	steps, exits := 0, 0
	ds := map[string]bool{}
	for i, res := range results {
		steps += res.Steps
		if jobs[i].k == 0 {
			exits += res.Exits
		}
		ds[res.Driver] = true
		if res.Err != "" {
			r.undecided = append(r.undecided, res.Driver+": "+res.Err)
		}
		for _, x := range res.Reps {
			r.l.merge(x)
		}
	}
	r.count("drivers", len(ds))
	r.count("abstract_steps", steps)
	r.count("states_between_calls", exits)
}

func (r *run) count(k string, n int) {
	o, _ := r.info[k].(int)
	r.info[k] = o + n
}

func (l *Lint) merge(x *Rep) {
	k := x.Prop + "|" + x.Rule + "|" + x.Where + "|" + x.Fn
	if o := l.reps[k]; o != nil {
		o.Ok += x.Ok
		o.Bad += x.Bad
		if o.Msg == "" {
			o.Msg, o.Trace = x.Msg, x.Trace
		}
		return
	}
	l.reps[k] = x
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
