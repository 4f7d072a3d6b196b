package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type scenario func(s *Sys, rnd *rand.Rand)

var scenarios = map[string]scenario{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|gen|... ")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "list":
		names := []string{}
		for n := range scenarios {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, "\n"))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdRun runs scenarios and writes the events of each run, one run after the other, and an index
// with a line per run.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	scen := fs.String("scen", "", "scenarios name[:count],...")
	seed := fs.Int64("seed", 1, "seed")
	par := fs.Int("par", 8, "parallel runs")
	out := fs.String("out", "", "events")
	sched := fs.String("sched", "", "schedules")
	budget := fs.Duration("budget", 0, "start no run after this time")
	wd := fs.Duration("watchdog", watchdog, "")
	patient := fs.Int("patient", 1, "times the usual patience")
	procs := fs.Int("procs", 0, "GOMAXPROCS")
	one := fs.Int64("one", -1, "a single run with this seed")
	fs.Parse(args)
	watchdog = *wd
	calm = time.Duration(*patient)
	if *procs > 0 {
		runtime.GOMAXPROCS(*procs)
	}
	if *sched != "" {
		loadSchedules(*sched)
	}
	f, err := os.Create(*out)
	if err != nil {
		panic("harness: " + err.Error())
	}
	idx, err := os.Create(*out + ".idx")
	if err != nil {
		panic("harness: " + err.Error())
	}
	w := bufio.NewWriter(f)
	type job struct {
		name string
		seed int64
	}
	jobs := []job{}
	for _, x := range strings.Split(*scen, ",") {
		name, n := x, 1
		if i := strings.IndexByte(x, ':'); i >= 0 {
			name = x[:i]
			fmt.Sscanf(x[i+1:], "%d", &n)
		}
		if scenarios[name] == nil {
			panic("harness: no scenario " + name)
		}
		for i := 0; i < n; i++ {
			j := job{name, *seed*100000 + int64(i)}
			if *one >= 0 {
				j.seed = *one
			}
			jobs = append(jobs, j)
		}
	}
	rand.New(rand.NewSource(*seed)).Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan job)
	line := 0
	start := time.Now()
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				mu.Lock()
				fmt.Fprintf(os.Stderr, "START %s %d\n", j.name, j.seed)
				mu.Unlock()
				s := NewSys(j.seed)
				s.name = j.name
				scenarios[j.name](s, rand.New(rand.NewSource(j.seed)))
				s.Rec.mu.Lock()
				b := s.Rec.buf
				n := s.Rec.n
				hung := s.Rec.hung
				s.Rec.buf = nil
				s.Rec.mu.Unlock()
				mu.Lock()
				w.Write(b)
				w.Flush()
				x, _ := json.Marshal(map[string]interface{}{"scen": j.name, "seed": j.seed, "from": line, "n": n, "hung": hung})
				line += n
				idx.Write(append(x, '\n'))
				fmt.Fprintf(os.Stderr, "END %s %d\n", j.name, j.seed)
				mu.Unlock()
				if hung {
					dump(*out, j.name, j.seed)
				}
			}
		}()
	}
	for _, j := range jobs {
		if *budget > 0 && time.Since(start) > *budget {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	w.Flush()
	f.Close()
	idx.Close()
}

// dump writes the goroutines when something hangs
func dump(out, name string, seed int64) {
	b := make([]byte, 8<<20)
	b = b[:runtime.Stack(b, true)]
	os.WriteFile(fmt.Sprintf("%s.%s.%d.stacks", out, name, seed), b, 0644)
}
