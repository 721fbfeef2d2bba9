package main

import (
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

// Memory: when the live heap grows beyond memLimit, the job with the most
// terms gives up its remaining paths (and is reported as incomplete), so that
// a runaway job does not take the whole check down.
const memLimit = 11 << 30

var mem struct {
	sync.Mutex
	once sync.Once
	live map[*Worker]bool
}

func memEnter(w *Worker) {
	mem.Lock()
	defer mem.Unlock()
	if mem.live == nil {
		mem.live = map[*Worker]bool{}
	}
	mem.live[w] = true
	mem.once.Do(func() {
		debug.SetMemoryLimit(18 << 30)
		go memWatch()
	})
}

func memLeave(w *Worker) {
	mem.Lock()
	delete(mem.live, w)
	mem.Unlock()
}

func memWatch() {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for range time.Tick(300 * time.Millisecond) {
		metrics.Read(s)
		if s[0].Value.Kind() != metrics.KindUint64 || s[0].Value.Uint64() < memLimit {
			continue
		}
		mem.Lock()
		var big *Worker
		for w := range mem.live {
			if big == nil || atomic.LoadInt64(&w.size) > atomic.LoadInt64(&big.size) {
				big = w
			}
		}
		mem.Unlock()
		if big == nil {
			continue
		}
		atomic.StoreInt32(&big.full, 1)
		for i := 0; i < 100; i++ {
			time.Sleep(100 * time.Millisecond)
			mem.Lock()
			gone := !mem.live[big]
			mem.Unlock()
			if gone {
				break
			}
		}
		debug.FreeOSMemory()
	}
}
