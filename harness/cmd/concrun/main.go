// Command concrun runs one scenario of concurrent use, under all schedules or
// freely, and prints what came of it.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/flowchartsman/aql/zz_verif/conc"
	"github.com/flowchartsman/aql/zz_verif/shim/sched"
)

func main() {
	mode := os.Args[1]
	thorough := os.Args[2] == "thorough"
	n, _ := strconv.Atoi(os.Args[3])
	limit, _ := strconv.Atoi(os.Args[4])
	seconds, _ := strconv.Atoi(os.Args[5])
	s := conc.All(thorough)[n]
	p, err := conc.NewProgram(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := conc.Report{States: map[string]bool{}}
	until := time.Now().Add(time.Duration(seconds) * time.Second)
	switch mode {
	case "all":
		runtime.GOMAXPROCS(1)
		last := 0
		for bound := 0; ; bound++ {
			res := sched.Explore(bound, until, func() ([]func(), func() string) {
				bodies, check := p.Fresh(false)
				before := races()
				return bodies, func() string {
					if n := races() - before; n > 0 {
						return fmt.Sprintf("%d data races", n)
					}
					return check()
				}
			})
			out.Schedules += res.Schedules
			out.Points += res.Points
			for k := range res.States {
				out.States[fmt.Sprintf("%x", k)] = true
			}
			if res.Bad != "" {
				out.Bad, out.Schedule = res.Bad, res.Schedule
				break
			}
			if !res.Complete {
				out.Cut = true
				break
			}
			out.Bound, out.Last = bound, res.Schedules
			if bound > 0 && res.Schedules == last {
				out.All = true
				break
			}
			// how many the next bound will have, going by the last two
			if last > 0 && res.Schedules*(res.Schedules/last+1) > limit && bound >= 1 {
				break
			}
			last = res.Schedules
		}
	case "free":
		for i := 0; i < limit && out.Bad == "" && time.Now().Before(until); i++ {
			bodies, check := p.Fresh(true)
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, b := range bodies {
				b := b
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					b()
				}()
			}
			close(start)
			wg.Wait()
			out.Schedules++
			out.Bad = check()
			if races() > 0 {
				out.Bad = fmt.Sprintf("%d data races", races())
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
	// not the status of the race detector: the report says what was found
	os.Stdout.Close()
	os.Exit(0)
}
