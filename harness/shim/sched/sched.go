// Package sched runs a few goroutines one at a time and lets the explorer choose
// which of them goes on at every point. Nothing in it orders memory: it only
// spins on plain variables in functions that the race detector does not see, so
// the only order the detector knows of is that made by the code under test.
package sched

import (
	"runtime"
	"sync"
	"time"
)

const (
	maxThreads = 4
	maxPoints  = 1 << 16
)

var (
	active  bool
	turn    int
	threads int
	base    int

	done    [maxThreads]bool
	blocked [maxThreads]bool

	// what has been decided in this execution
	points  int
	chosen  [maxPoints]int8 // number of the option taken
	options [maxPoints]int8 // number of options there were
	ran     [maxPoints]int8 // thread that was given the turn
	forced  [maxPoints]int8 // option to take, for the points below prefix
	prefix  int
	spent   int // turns taken from a thread that could go on
	bound   int

	stuck    bool
	overflow bool
)

// Point is called before every synchronising operation of the code under test.
//
//go:norace
//go:noinline
func Point() {
	if !active || stray() {
		return
	}
	pass(true)
}

// Wait is called when an operation cannot go on. It returns when another
// goroutine has run, after which the operation is tried again.
//
//go:norace
//go:noinline
func Wait() {
	if !active || stray() {
		runtime.Gosched()
		return
	}
	blocked[turn] = true
	pass(false)
}

// stray is whether goroutines that are not scheduled here are about and this is
// one of them.
//
//go:norace
//go:noinline
func stray() bool {
	if runtime.NumGoroutine() <= base {
		return false
	}
	return !mine()
}

//go:norace
//go:noinline
func mine() bool {
	id := goid()
	for i := 0; i < threads; i++ {
		if ids[i] == id {
			return true
		}
	}
	return false
}

var ids [maxThreads]uint64

//go:norace
//go:noinline
func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	id := uint64(0)
	for i := len("goroutine "); i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + uint64(buf[i]-'0')
	}
	return id
}

// pass decides who has the next turn and waits for its own.
//
//go:norace
//go:noinline
func pass(can bool) {
	me := turn
	next := decide(me, can)
	if next == me {
		return
	}
	turn = next
	for turn != me {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func decide(me int, can bool) int {
	var opts [maxThreads]int
	n := 0
	if can {
		// somebody has made a step: whoever waits can try again
		opts[0] = me
		n = 1
	}
	if !can || spent < bound {
		for i := 0; i < threads; i++ {
			if i != me && !done[i] && !blocked[i] {
				opts[n] = i
				n++
			}
		}
	}
	if n == 0 {
		// everybody waits: perhaps for a goroutine that is not scheduled here
		for i := 0; i < threads; i++ {
			if !done[i] {
				blocked[i] = false
				if n == 0 {
					opts[0], n = i, 1
				}
			}
		}
		idle++
		if idle > 200000 {
			stuck = true
		}
		runtime.Gosched()
		return opts[0]
	}
	idle = 0
	k := 0
	if points < prefix {
		k = int(forced[points])
		if k >= n {
			k = 0
			overflow = true
		}
	}
	if points >= maxPoints-1 {
		overflow = true
		return opts[0]
	}
	chosen[points] = int8(k)
	options[points] = int8(n)
	ran[points] = int8(opts[k])
	points++
	if can && k > 0 {
		spent++
	}
	if can {
		for i := 0; i < threads; i++ {
			blocked[i] = false
		}
	}
	return opts[k]
}

var idle int

//go:norace
//go:noinline
func enter(i int) {
	for turn != i {
		runtime.Gosched()
	}
	ids[i] = goid()
}

//go:norace
//go:noinline
func leave(i int) {
	done[i] = true
	for k := 0; k < threads; k++ {
		blocked[k] = false
	}
	for k := 0; k < threads; k++ {
		if !done[k] {
			turn = decide(i, false)
			return
		}
	}
	turn = -1
}

// Now is the number of points passed so far.
//
//go:norace
//go:noinline
func Now() int { return points }

// Result is what an exploration has done.
type Result struct {
	Schedules int
	Points    int
	States    map[string]bool
	Deadlock  bool
	Complete  bool
	Bad       string
	Schedule  []int
}

// Explore runs the threads that make gives under every schedule with at most
// preemptions turns taken from a thread that could go on (any number if
// negative), until check finds something wrong.
func Explore(preemptions int, until time.Time, make func() (bodies []func(), check func() string)) *Result {
	res := &Result{States: map[string]bool{}, Complete: true}
	bound = preemptions
	if bound < 0 {
		bound = 1 << 30
	}
	prefix = 0
	for {
		bodies, check := make()
		execute(bodies)
		res.Schedules++
		res.Points += points
		at := [2 * maxThreads]byte{}
		for i := 0; i < points; i++ {
			if at[ran[i]]++; at[ran[i]] == 0 {
				at[maxThreads+ran[i]]++
			}
			res.States[string(at[:])] = true
		}
		bad := check()
		if stuck {
			bad = "no goroutine can go on"
			res.Deadlock = true
		}
		if overflow {
			res.Complete = false
		}
		if bad != "" {
			res.Bad = bad
			for i := 0; i < points; i++ {
				res.Schedule = append(res.Schedule, int(ran[i]))
			}
			return res
		}
		// the next schedule in depth-first order
		i := points - 1
		for i >= 0 && chosen[i]+1 >= options[i] {
			i--
		}
		if i < 0 {
			return res
		}
		for k := 0; k < i; k++ {
			forced[k] = chosen[k]
		}
		forced[i] = chosen[i] + 1
		prefix = i + 1
		if !until.IsZero() && res.Schedules%64 == 0 && time.Now().After(until) {
			res.Complete = false
			return res
		}
	}
}

func execute(bodies []func()) {
	threads = len(bodies)
	points, spent, idle, stuck, overflow = 0, 0, 0, false, false
	turn = -1
	for i := range done {
		done[i], blocked[i], ids[i] = false, false, 0
	}
	var wg sync.WaitGroup
	wg.Add(threads)
	for i := range bodies {
		i := i
		go func() {
			defer wg.Done()
			enter(i)
			defer leave(i)
			bodies[i]()
		}()
	}
	base = runtime.NumGoroutine()
	begin()
	wg.Wait()
	end()
}

//go:norace
//go:noinline
func begin() {
	active = true
	turn = decide(-1, false)
}

//go:norace
//go:noinline
func end() { active = false }
