package pipes

import (
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
)

var Drivers = map[string]*core.Driver{}

type Op = core.Op

// lanes puts the threads into lanes: a script's phases keep to the same ones.
type lanes struct{ ph []core.Phase }

func (l *lanes) phase() { l.ph = append(l.ph, core.Phase{}) }

// at appends calls to lane i of the present phase.
func (l *lanes) at(i int, ops ...Op) {
	p := &l.ph[len(l.ph)-1]
	for len(p.Threads) <= i {
		p.Threads = append(p.Threads, []Op{})
	}
	p.Threads[i] = append(p.Threads[i], ops...)
}
func (l *lanes) ticks(n int) { l.ph[len(l.ph)-1].Ticks = n }

// The lanes: adders, a lane for calls made on their own, one for a cancellation, receivers.
const (
	laneAdd   = 0
	laneAlone = 3
	laneStop  = 4
	laneRecv  = 5
)

func one(th ...Op) core.Phase { return core.Phase{Threads: [][]Op{th}} }

// pause lets others run: often a few scheduling points, sometimes some milliseconds.
func pause(n int) {
	switch x := n * 7919 % 11; {
	case x < 5:
		axvctl.P()
	case x < 8:
		for i := 0; i < 20; i++ {
			axvctl.P()
		}
	default:
		time.Sleep(time.Duration(1+x) * time.Millisecond)
	}
}

// adders is the number of threads that add; long scripts have one, sometimes.
func adders(r *core.Rand, long, stop bool) int {
	if long && stop {
		return 1
	}
	if long {
		return core.Pick(r, 1, 1, 1, 1, 2)
	}
	return r.Range(1, 3)
}
