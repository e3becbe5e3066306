// Package axvsync is put into a scratch copy of the repository by /verif/instr. It replaces
// package sync there and provides P, a scheduling point inserted before every statement.
//
// Inside a testing/synctest bubble a scheduling point is a sleep of a few virtual nanoseconds,
// drawn from a seeded generator: exactly one of the ready goroutines wakes next, so a seed
// selects an interleaving, at statement granularity, of the code under test. The lock types
// block on channels (durably, in synctest's sense), so that virtual time can pass while a
// goroutine waits for a lock. With -race the lock types publish the same happens-before edges
// as package sync, and nothing else here creates any.
package axvsync

import "time"

var (
	on     bool
	rng    uint64
	mode   int
	budget int64
	used   int64
	onSpin func()
)

// Configure switches scheduling points on (mode > 0) or off and seeds them. When one run takes
// more than spinBudget points, spin is called once and later points sleep for a long virtual
// time, so that a busy loop cannot stop the clock.
//
//go:norace
func Configure(m int, seed uint64, spinBudget int64, spin func()) {
	mode, rng, budget, used, onSpin = m, seed*0x9E3779B97F4A7C15+0xD1B54A32D192ED03, spinBudget, 0, spin
	on = m > 0
}

// Exhaust ends the run's budget.
//
//go:norace
func Exhaust() {
	if on && used <= budget {
		used = budget
	}
}

// Used returns the number of scheduling points passed since Configure.
//
//go:norace
func Used() int64 { return used }

//go:norace
func next() uint64 {
	rng += 0x9E3779B97F4A7C15
	z := rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// P is a scheduling point.
//
//go:norace
func P() {
	if !on {
		return
	}
	used++
	if used > budget {
		if f := onSpin; f != nil {
			onSpin = nil
			f()
		}
		time.Sleep(time.Hour)
		return
	}
	x := next()
	var d uint64
	switch mode {
	case 1: // every point, small delays: a random walk
		d = 1 + x%7
	case 2: // mostly run on, sometimes stay behind for long
		switch c := x % 16; {
		case c < 9:
			d = 0
		case c < 13:
			d = 1 + (x>>8)%5
		case c < 15:
			d = 20 + (x>>8)%100
		default:
			d = 400 + (x>>8)%2000
		}
	case 3: // rare, long delays: few preemptions
		if x%24 == 0 {
			d = 1 + (x>>8)%3000
		}
	default: // every point, wide delays
		d = 1 + x%97
	}
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}
