package main

import "container/heap"

// event is something that happens at a simulated time.
type event struct {
	at  int64
	seq int64
	fn  func()
}

type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Net is a simulated network with its clock.
type Net struct {
	r    *Run
	rng  *Rng
	q    eventHeap
	now  int64
	seq  int64
	drop int
	dup  int
	jit  int64
	// calm is when faults stop.
	calm int64
	// part are the partitioned nodes, by when the partition heals.
	part map[string]int64
}

func newNet(r *Run, seed uint64, drop, dup int, jitter int64, calm int64) *Net {
	return &Net{r: r, rng: newRng(seed), drop: drop, dup: dup, jit: jitter, calm: calm, part: map[string]int64{}}
}

// after runs fn d units from now.
func (n *Net) after(d int64, fn func()) {
	n.seq++
	heap.Push(&n.q, event{n.now + d, n.seq, fn})
}

// send delivers a message between two nodes: late, twice, in another order, or not at all.
func (n *Net) send(from, to, what string, fn func()) {
	faulty := n.now < n.calm
	if faulty && (n.part[from] > n.now || n.part[to] > n.now) {
		n.r.fault("partitioned_message")
		n.r.log("t=%d %s->%s %s lost to a partition", n.now, from, to, what)
		return
	}
	if faulty && n.rng.p(n.drop) {
		n.r.fault("dropped_message")
		n.r.log("t=%d %s->%s %s dropped", n.now, from, to, what)
		return
	}
	d := int64(1)
	if n.jit > 0 {
		d += n.rng.n64(n.jit)
		if d > 1 {
			n.r.fault("delayed_message")
		}
	}
	n.after(d, fn)
	if faulty && n.rng.p(n.dup) {
		n.r.fault("duplicated_message")
		n.after(d+1+n.rng.n64(n.jit+5), fn)
	}
}

// run handles events until none is left, or the limit is reached.
func (n *Net) run(limit int) bool {
	for steps := 0; n.q.Len() > 0; steps++ {
		if steps >= limit {
			return false
		}
		e := heap.Pop(&n.q).(event)
		if e.at < n.now {
			panic("time went backwards")
		}
		n.now = e.at
		e.fn()
	}
	n.r.netTime += n.now
	return true
}
