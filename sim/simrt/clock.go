package simrt

// The simulated clock: it moves with the statements executed, and jumps to the next
// deadline when nothing else can run.

const nsPerStep = 100

var (
	clockBase int64
	deadlines []int64
	jumps     int
)

func resetClock() {
	clockBase, jumps = 0, 0
	deadlines = make([]int64, 0, 64)
}

// NowNS is the simulated time in nanoseconds since the start of the run.
func NowNS() int64 { return clockBase + steps*nsPerStep }

// Sleep blocks the current task for d simulated nanoseconds.
func Sleep(d int64) { SleepUnless(d, func() bool { return false }) }

// SleepUnless is Sleep, except that it ends as soon as stopped holds.
func SleepUnless(d int64, stopped func() bool) { SleepUntil(NowNS()+d, stopped) }

// SleepUntil is SleepUnless with the moment it ends at the latest.
func SleepUntil(at int64, stopped func() bool) {
	if !active || aborting {
		return
	}
	slot := -1
	for i := range deadlines {
		if deadlines[i] == 0 {
			slot = i
			deadlines[i] = at
			break
		}
	}
	if slot < 0 {
		slot = len(deadlines)
		deadlines = append(deadlines, at)
	}
	// The slot is free again once the deadline does not matter any more, which is before
	// this task runs again.
	clear := func() {
		if slot >= 0 {
			deadlines[slot] = 0
			slot = -1
		}
	}
	Block(func() bool {
		if stopped() {
			clear()
			return true
		}
		return NowNS() >= at
	}, "sleeping")
	clear()
}

// timersPending reports whether time passing can make a task runnable.
func timersPending() bool {
	for _, d := range deadlines {
		if d > NowNS() {
			return true
		}
	}
	return false
}

// advanceClock jumps to the earliest deadline in the future, if there is one.
func advanceClock() bool {
	var min int64
	for _, d := range deadlines {
		if d > NowNS() && (min == 0 || d < min) {
			min = d
		}
	}
	if min == 0 {
		return false
	}
	clockBase += min - NowNS()
	jumps++
	return true
}
