package simhook

import (
	"fmt"
	"sort"
	"unsafe"
)

// SendTo sends on ch, letting other threads run while it is full.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() || ch == nil {
			ch <- v
			return
		}
		if cap(ch) == 0 {
			sendUnbuffered(ch, v)
			return
		}
		for {
			select {
			case ch <- v:
				return
			default:
			}
			Blocked()
		}
	}
}

// pending holds, per unbuffered channel, the thread that is blocked sending on it.
var pending [maxTasks]struct {
	ch unsafe.Pointer
	t  *Task
}

func chanPtr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func addPending(p unsafe.Pointer) *Task {
	t := cur.cur
	for i := range pending {
		if pending[i].ch == nil {
			pending[i].ch, pending[i].t = p, t
			return t
		}
	}
	panic("simhook: too many blocked senders")
}

//go:norace
func takePending(p unsafe.Pointer) *Task {
	for i := range pending {
		if pending[i].ch == p {
			t := pending[i].t
			pending[i].ch, pending[i].t = nil, nil
			return t
		}
	}
	return nil
}

//go:norace
func leave(t *Task) {
	s := cur
	s.account()
	t.blocked = true
	for i := 0; i < s.ntasks; i++ {
		if !s.tasks[i].done && !s.tasks[i].blocked {
			s.pick(t, true)
			return
		}
	}
	t.blocked = false
	panic(Deadlock{})
}

//go:norace
func rejoin(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

func sendUnbuffered[T any](ch chan<- T, v T) {
	t := addPending(chanPtr(ch))
	leave(t)
	ch <- v
	rejoin(t)
}

//go:norace
func unblock(t *Task) { t.blocked = false }

// Recv receives from ch, letting other threads run while it is empty.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is Recv with the second result.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() || ch == nil {
		v, ok := <-ch
		return v, ok
	}
	for {
		if cap(ch) == 0 {
			if t := takePending(*(*unsafe.Pointer)(unsafe.Pointer(&ch))); t != nil {
				v, ok := <-ch
				unblock(t)
				return v, ok
			}
		}
		select {
		case v, ok := <-ch:
			return v, ok
		default:
		}
		Blocked()
	}
}

// MapSeq ranges over a map in an order that the simulator decides.
func MapSeq[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for i := len(keys) - 1; i > 0; i-- {
			j := int(Choice(uint64(i + 1)))
			keys[i], keys[j] = keys[j], keys[i]
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
