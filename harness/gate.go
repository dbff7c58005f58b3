package main

import (
	"bytes"
	"runtime"
	"sync"
	"time"

	"github.com/rom1mouret/ml-essentials/utils"
)

// gate makes the workers of a parallel operation follow a schedule of
// Queue.tla: which worker passes the next point of its protocol, or 0: the
// caller returns. Between the points workers run freely. A schedule that the
// code cannot follow is no error: its next entry is skipped after a while.
type gate struct {
	mu       sync.Mutex
	cond     *sync.Cond
	sched    []int
	pos      int
	holder   int            // who is between two points of one entry
	ids      map[string]int // goroutine: number
	order    []int          // numbers in order of appearance
	open     bool
	frozen   bool
	last     time.Time
	followed int
	skipped  int
}

const patience, patience0 = 4 * time.Millisecond, 40 * time.Millisecond

var theGate struct {
	mu sync.RWMutex
	g  *gate
}
var hookOnce sync.Once

func goid() string {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	f := bytes.Fields(b)
	if len(f) < 2 {
		return ""
	}
	return string(f[1])
}

func gatePoint(op string) {
	theGate.mu.RLock()
	g := theGate.g
	theGate.mu.RUnlock()
	if g != nil {
		g.point(op)
	}
}

func newGate(sched []int) *gate {
	hookOnce.Do(func() {
		utils.SetVerifHook(func(op, key string) { gatePoint(op) })
	})
	g := &gate{sched: sched, ids: map[string]int{}, last: time.Now()}
	g.cond = sync.NewCond(&g.mu)
	seen := map[int]bool{0: true}
	for _, x := range sched {
		if !seen[x] {
			seen[x] = true
			g.order = append(g.order, x)
		}
	}
	theGate.mu.Lock()
	theGate.g = g
	theGate.mu.Unlock()
	go g.watch()
	return g
}

// watch skips entries that nobody takes
func (g *gate) watch() {
	for {
		time.Sleep(time.Millisecond)
		g.mu.Lock()
		if g.open || (g.pos >= len(g.sched) && !g.frozen) {
			g.mu.Unlock()
			return
		}
		wait := patience
		if g.pos < len(g.sched) && g.sched[g.pos] == 0 {
			wait = patience0
		}
		if g.frozen && time.Since(g.last) > 5*time.Second {
			g.frozen = false // what the caller needs now may be held by a worker
			g.cond.Broadcast()
		}
		if !g.frozen && time.Since(g.last) > wait {
			g.skipped++
			g.step()
		}
		g.mu.Unlock()
	}
}

func (g *gate) step() {
	g.pos++
	g.holder = 0
	g.last = time.Now()
	g.cond.Broadcast()
}

func (g *gate) me() int {
	k := goid()
	id, ok := g.ids[k]
	if !ok {
		n := len(g.ids)
		id = 1000 + n
		if n < len(g.order) {
			id = g.order[n]
		}
		g.ids[k] = id
	}
	return id
}

func (g *gate) acquire(id int) {
	for !g.open && (g.frozen || g.pos < len(g.sched) && !(g.sched[g.pos] == id && g.holder == 0)) {
		g.cond.Wait()
	}
	if !g.open && g.pos < len(g.sched) {
		g.holder = id
	}
}

func (g *gate) complete(id int) {
	if !g.open && g.holder == id && g.pos < len(g.sched) {
		g.followed++
		g.step()
	}
}

// point: "ask" .. "next" or "exit" is one entry, so is "notify" .. "notified",
// and "notified" itself is one.
func (g *gate) point(op string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	id := g.me()
	switch op {
	case "ask", "notify":
		g.acquire(id)
	case "next", "exit":
		g.complete(id)
	case "notified":
		g.complete(id)
		g.acquire(id)
		g.complete(id)
	case "write": // a point of its own
		g.acquire(id)
		g.complete(id)
	}
}

// returned: the caller has its result; everyone else stays where they are
func (g *gate) returned() {
	g.mu.Lock()
	g.frozen = true
	if g.pos < len(g.sched) && g.sched[g.pos] == 0 {
		g.followed++
		g.pos++
	}
	g.last = time.Now()
	g.mu.Unlock()
}

func (g *gate) release() {
	theGate.mu.Lock()
	if theGate.g == g {
		theGate.g = nil
	}
	theGate.mu.Unlock()
	g.mu.Lock()
	g.open = true
	g.cond.Broadcast()
	g.mu.Unlock()
}
