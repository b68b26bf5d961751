// Package check decides the property of concurrent use.
package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/flowchartsman/aql/zz_verif/conc"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

var All = []*mc.Check{{
	ID: "C23",
	Rule: "a state is a place in a scenario's schedule: how many synchronising operations each goroutine has done; more than 400 (thorough 900) scenarios of two to four goroutines that match, read statistics, messages and the query, build matchers and parse with 37 queries of all kinds, with numbers, addresses and days not seen before in each execution, each run on the repository's code compiled with its atomics, locks and pools giving the turn to a scheduler and with the race detector on; " +
		"all schedules with 0, 1, 2 and more preemptions at those operations, until there are no more or the next bound passes 1500 (thorough 6000) schedules. Results, statistics on the way and at the end, and the data races seen by the detector, which the scheduler gives no order, are judged in every execution. Each scenario is also run freely 100 (thorough 300) times",
	Assumptions: []string{"between two synchronising operations of code without data races the schedule does not matter, and data races are reported by the detector in some schedule", "the modules the repository uses are run as they are"},
	Need:        []string{"free"},
	Run:         run,
}}

// stand-ins for the packages whose operations are points of the schedule
var stands = map[string]string{
	"sync":               "github.com/flowchartsman/aql/zz_verif/shim/sync",
	"sync/atomic":        "github.com/flowchartsman/aql/zz_verif/shim/atomic",
	"go.uber.org/atomic": "github.com/flowchartsman/aql/zz_verif/shim/uatomic",
}

// rewrite gives a file's text with its imports replaced, or nothing if there is
// nothing to replace.
func rewrite(file string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	var out []byte
	at := 0
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := stands[path]
		if !ok {
			continue
		}
		start, end := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
		out = append(out, src[at:start]...)
		if im.Name == nil {
			out = append(out, path[strings.LastIndexByte(path, '/')+1:]+" "...)
		}
		out = append(out, strconv.Quote(to)...)
		at = end
	}
	if at == 0 {
		return nil, nil
	}
	return append(out, src[at:]...), nil
}

// instrument writes an overlay in which the repository's packages use the
// stand-ins. It returns the number of files that do.
func instrument(tmp, overlay, to string) (int, error) {
	var o struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	if err != nil {
		return 0, err
	}
	if err := json.Unmarshal(b, &o); err != nil {
		return 0, err
	}
	n := 0
	put := func(as string, text []byte) error {
		n++
		p := filepath.Join(tmp, fmt.Sprintf("instrumented%d.go", n))
		o.Replace[as] = p
		return os.WriteFile(p, text, 0o644)
	}
	err = filepath.WalkDir(mc.Repo(), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if p != mc.Repo() && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata") {
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		text, err := rewrite(p)
		if err != nil || text == nil {
			return err
		}
		return put(p, text)
	})
	if err != nil {
		return 0, err
	}
	files := n
	// the module of atomic types becomes a package beside the stand-ins
	cmd := exec.Command("go", "list", "-f", "{{.Dir}} {{range .GoFiles}}{{.}} {{end}}", "go.uber.org/atomic")
	cmd.Dir = mc.Repo()
	if out, err := cmd.Output(); err == nil {
		f := strings.Fields(string(out))
		for _, name := range f[1:] {
			text, err := rewrite(filepath.Join(f[0], name))
			if err != nil {
				return 0, err
			}
			if text == nil {
				if text, err = os.ReadFile(filepath.Join(f[0], name)); err != nil {
					return 0, err
				}
			}
			if err := put(filepath.Join(mc.Repo(), "zz_verif/shim/uatomic", name), text); err != nil {
				return 0, err
			}
		}
	}
	b, err = json.Marshal(o)
	if err != nil {
		return 0, err
	}
	return files, os.WriteFile(to, b, 0o644)
}

func build(overlay, to string) error {
	cmd := exec.Command("go", "build", "-race", "-overlay", overlay, "-o", to, "./zz_verif/cmd/concrun")
	cmd.Dir = mc.Repo()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

// seconds is how long one scenario may take; a case may not take more than 90.
const seconds = 60

func run(r *mc.Run) {
	tmp, overlay := os.Getenv("VERIF_TMP"), os.Getenv("VERIF_OVERLAY")
	free, scheduled := filepath.Join(tmp, "free"), filepath.Join(tmp, "scheduled")
	if err := build(overlay, free); err != nil {
		fmt.Fprintln(os.Stderr, "the scenarios do not build:", err)
		os.Exit(3)
	}
	files, err := instrument(tmp, overlay, filepath.Join(tmp, "instrumented.json"))
	if err == nil {
		err = build(filepath.Join(tmp, "instrumented.json"), scheduled)
	}
	if err != nil {
		// code that the stand-ins do not cover: only the free runs remain
		fmt.Fprintln(os.Stderr, "the scenarios cannot be scheduled:", err)
		r.Incomplete()
		scheduled = ""
	}
	r.Set("files_with_points", files)

	tier, limit, rounds := "quick", 1500, 100
	if r.Thorough {
		tier, limit, rounds = "thorough", 6000, 300
	}
	ask := func(bin, mode string, n, limit int, deadline int) (*conc.Report, string) {
		log := filepath.Join(tmp, fmt.Sprintf("race-%s-%d", mode, n))
		cmd := exec.Command(bin, mode, tier, strconv.Itoa(n), strconv.Itoa(limit), strconv.Itoa(deadline))
		cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+log)
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		// an execution that does not end blocks in something the scheduler
		// does not know
		t := time.AfterFunc(time.Duration(deadline+20)*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timedOut := !t.Stop()
		logs, _ := filepath.Glob(log + ".*")
		report := ""
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			report += string(b)
			os.Remove(l)
		}
		var rep conc.Report
		if json.Unmarshal(out.Bytes(), &rep) != nil {
			if timedOut {
				return nil, ""
			}
			return nil, fmt.Sprintf("the program ended with %v\n%s%s", err, errs.String(), report)
		}
		if rep.Bad != "" {
			rep.Bad += fmt.Sprintf(" (turns %v)\n", rep.Schedule) + report
		}
		return &rep, ""
	}
	var mu sync.Mutex
	schedules, freeRuns, complete := 0, 0, 0
	bounds := map[int]int{}
	most := 0

	type job struct {
		n int
		s conc.Scenario
	}
	var jobs []job
	for n, s := range conc.All(r.Thorough) {
		jobs = append(jobs, job{n, s})
	}
	mc.EachBatch(r, 1, mc.Slice(jobs), func(w *mc.W, j job) {
		if scheduled != "" {
			w.Case("scheduled "+j.s.String(), func() string {
				rep, bad := ask(scheduled, "all", j.n, limit, seconds)
				if bad != "" {
					return bad
				}
				if rep == nil || rep.Cut {
					r.Incomplete()
				}
				if rep == nil {
					return ""
				}
				w.Step(rep.Points)
				for i := 0; i < rep.Schedules; i++ {
					w.Trace()
				}
				for k := range rep.States {
					w.State(fmt.Sprint(j.n, " ", k))
				}
				w.Outcome("scheduled")
				if rep.All {
					w.Outcome("all schedules")
				}
				mu.Lock()
				schedules += rep.Schedules
				if rep.All {
					complete++
				} else {
					bounds[rep.Bound]++
				}
				if rep.Last > most {
					most = rep.Last
				}
				mu.Unlock()
				return rep.Bad
			})
		}
	})
	mc.EachBatch(r, 1, mc.Slice(jobs), func(w *mc.W, j job) {
		w.Case("free "+j.s.String(), func() string {
			rep, bad := ask(free, "free", j.n, rounds, seconds)
			if bad != "" {
				return bad
			}
			if rep == nil {
				return "the goroutines do not come to an end"
			}
			w.Outcome("free")
			mu.Lock()
			freeRuns += rep.Schedules
			mu.Unlock()
			return rep.Bad
		})
	})
	r.Set("scenarios", len(jobs))
	r.Set("schedules", schedules)
	r.Set("scenarios_with_all_schedules", complete)
	r.Set("most_schedules_of_one_bound", most)
	r.Set("free_runs", freeRuns)
	var bs []string
	for b, n := range bounds {
		bs = append(bs, fmt.Sprintf("%d scenarios up to %d preemptions", n, b))
	}
	sort.Strings(bs)
	r.Set("scenarios_with_a_bound", bs)
}
