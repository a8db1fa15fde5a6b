AS='streams/async_scheduler.go'; AQ='streams/async_item_queue.go'; AB='streams/async_batcher.go'; PO='streams/sak/pool.go'; LI='streams/sak/yadll.go'; CX='streams/sak/context.go'
SS='streams/stores/simple_store.go'; ST='streams/stores/sharded_tree.go'; MH='streams/stores/min_max_heap.go'; EC='streams/event_context.go'
ASY='''package streams

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

var _ = sync.Mutex{}
var _ = atomic.AddInt64
var _ = time.Second
var _ = context.Background
var _ = sak.NewRunStatus

type seedStore struct{}

func (seedStore) ReceiveChange(IncomingRecord) error { return nil }
func (seedStore) Revoked()                           {}

type seedCompleter func(AsyncJob[seedStore])

func (c seedCompleter) AsyncComplete(j AsyncJob[seedStore]) { c(j) }

func seedEvent(c seedCompleter) *EventContext[seedStore] {
	return MockEventContext[seedStore](context.Background(), NewRecord(), "", seedStore{}, c, nil)
}

func seedWait(t *testing.T, what string, d time.Duration, cond func() bool) {
	t.Helper()
	for end := time.Now().Add(d); !cond(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			t.Fatal(what)
		}
	}
}

'''
S=[
dict(id='c11-unlock-early', prop='C11', pkg='streams', needs='a key becomes idle between looking its queue up and adding a job to it', breaks='the job is added to a queue which was retired',
 edits=[(AS,'	added = w.tryAddItem(item)\n	ap.mux.Unlock()\n','	ap.mux.Unlock()\n	added = w.tryAddItem(item)\n')],
 test=ASY+'''func TestSeedDemo(t *testing.T) {
	rs := sak.NewRunStatus(context.Background())
	defer rs.Halt()
	s, err := NewAsyncJobScheduler[seedStore](rs, func(k, v int) error { return nil }, nil, SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 10, MaxConcurrentKeys: 4})
	if err != nil {
		t.Fatal(err)
	}
	var n int64
	ev := seedEvent(func(j AsyncJob[seedStore]) { atomic.AddInt64(&n, 1) })
	for i := 0; i < 30; i++ {
		w := s.newQueue().(*worker[seedStore, int, int])
		w.key = 1
		w.capacity = 10
		s.mux.Lock()
		s.workerMap[1] = w
		s.mux.Unlock()
		// hold the queue's own lock, so that Schedule stops right before adding the job
		w.workQueue.headLock.Lock()
		go s.Schedule(ev, 1, i)
		time.Sleep(10 * time.Millisecond)
		if s.mux.TryLock() { // the key could be retired now
			s.mux.Unlock()
			w.workQueue.headLock.Unlock()
			t.Fatal("the key can be retired while a job is being added to it")
		}
		w.workQueue.headLock.Unlock()
		seedWait(t, "not added", time.Second, func() bool { return !w.workQueue.done() })
		s.mux.Lock()
		delete(s.workerMap, 1)
		s.mux.Unlock()
	}
}
'''),
dict(id='c11-resize', prop='C11', pkg='streams', needs='the number of concurrent keys is raised while keys are queued for a processor', breaks='queued keys are dropped when the channel is replaced',
 edits=[(AS,'		for i := 0; i < newSize; i++ {','		for i := cap(oldChan); i < newSize; i++ {')],
 test=ASY+'''func TestSeedDemo(t *testing.T) {
	rs := sak.NewRunStatus(context.Background())
	defer rs.Halt()
	gate := make(chan struct{})
	s, err := NewAsyncJobScheduler[seedStore](rs, func(k, v int) error { <-gate; return nil }, nil, SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 10, MaxConcurrentKeys: 10})
	if err != nil {
		t.Fatal(err)
	}
	var n int64
	ev := seedEvent(func(j AsyncJob[seedStore]) { atomic.AddInt64(&n, 1) })
	for k := 0; k < 10; k++ {
		s.Schedule(ev, k, k)
	}
	s.SetMaxConcurrentKeys(12)
	close(gate)
	seedWait(t, "jobs were lost by the resize", 5*time.Second, func() bool { return atomic.LoadInt64(&n) == 10 })
}
'''),
dict(id='c11-queue-order', prop='C11', pkg='streams', needs='a blocked job enters a queue which was drained meanwhile, then another job of the key is scheduled', breaks='the newer job overtakes the one which waited',
 edits=[(AQ,'	aiq.size++\n	if !aiq.peekable && !aiq.backfill() {','	aiq.size++\n	if !aiq.peekable {')],
 test='''package streams

import "testing"

func TestSeedDemo(t *testing.T) {
	q := newAsyncItemQueue[int](2)
	q.tryEnqueue(1)
	q.tryEnqueue(2)
	if q.tryEnqueue(3) {
		t.Fatal("the queue is not full")
	}
	q.dequeue()
	q.dequeue()
	q.enqueueChannel() <- 3 // the blocked one
	q.tryEnqueue(4)
	for want := 3; want <= 4; want++ {
		if got, ok := q.dequeue(); !ok || got != want {
			t.Fatalf("got %d %v, expected %d", got, ok, want)
		}
	}
}
'''),
dict(id='c12-busy-key', prop='C12', pkg='streams', needs='an item of a key arrives while a batch with this key is executing and another executor is free', breaks='two batches with the same key execute at the same time',
 edits=[(AB,'''	} else if ok {
		// this key is currently in an executing batch, so we have to wait for it to finish
		return nil
	}
''','''	} else if ok && ab.executingCount == len(ab.executors) {
		// this key is currently in an executing batch, so we have to wait for it to finish
		return nil
	}
''')],
 test=ASY+'''func TestSeedDemo(t *testing.T) {
	var mux sync.Mutex
	active := map[int]int{}
	bad := false
	b := NewAsyncBatcher[seedStore](func(items []*BatchItem[int, int]) {
		mux.Lock()
		for _, i := range items {
			if active[i.Key()]++; active[i.Key()] > 1 {
				bad = true
			}
		}
		mux.Unlock()
		time.Sleep(20 * time.Millisecond)
		mux.Lock()
		for _, i := range items {
			active[i.Key()]--
		}
		mux.Unlock()
	}, 1, 3, time.Millisecond)
	var n int64
	ev := seedEvent(func(j AsyncJob[seedStore]) { j.finalizer(); atomic.AddInt64(&n, 1) })
	for i := 0; i < 6; i++ {
		b.Add(NewBatchItems[seedStore, int, int](ev, 1, nil).Add(i))
	}
	seedWait(t, "batches were lost", 5*time.Second, func() bool { return atomic.LoadInt64(&n) == 6 })
	if mux.Lock(); bad {
		t.Fatal("a key is in two executing batches")
	}
}
'''),
dict(id='c12-pending-twice', prop='C12', pkg='streams', needs='pending items fill the last free executor', breaks='the item which filled it stays in the list of pending items and is executed again',
 edits=[(AB,'''			tmp := el.Next()
			ab.pendingItems.Remove(el)
			el = tmp
			if ab.executingCount == len(ab.executors) {
				// there are no available batches, no need to continue in this loop
				return
			}
''','''			if ab.executingCount == len(ab.executors) {
				// there are no available batches, no need to continue in this loop
				return
			}
			tmp := el.Next()
			ab.pendingItems.Remove(el)
			el = tmp
''')],
 test=ASY+'''func TestSeedDemo(t *testing.T) {
	var mux sync.Mutex
	seen := map[int]int{}
	b := NewAsyncBatcher[seedStore](func(items []*BatchItem[int, int]) {
		mux.Lock()
		for _, i := range items {
			seen[i.Value]++
		}
		mux.Unlock()
		time.Sleep(5 * time.Millisecond)
	}, 1, 1, time.Millisecond)
	var n int64
	ev := seedEvent(func(j AsyncJob[seedStore]) { atomic.AddInt64(&n, 1) })
	for i := 0; i < 5; i++ {
		b.Add(NewBatchItems[seedStore, int, int](ev, i, nil).Add(i))
	}
	time.Sleep(300 * time.Millisecond)
	mux.Lock()
	defer mux.Unlock()
	for i := 0; i < 5; i++ {
		if seen[i] != 1 {
			t.Fatalf("item %d was executed %d times", i, seen[i])
		}
	}
}
'''),
dict(id='c12-timer', prop='C12', pkg='streams', needs='a batch which was flushed by its size is followed by one which is not full', breaks='the flush timer is not started again, the items wait for ever',
 edits=[(AB,'			executor.flushTimer.Stop()\n			executor.flushTimer = nil\n','			if executor.flushTimer.Stop() && len(executor.items) < ab.maxBatchSize {\n				executor.flushTimer = nil\n			}\n')],
 test=ASY+'''func TestSeedDemo(t *testing.T) {
	b := NewAsyncBatcher[seedStore](func(items []*BatchItem[int, int]) {}, 2, 1, 5*time.Millisecond)
	var n int64
	ev := seedEvent(func(j AsyncJob[seedStore]) { atomic.AddInt64(&n, 1) })
	for i := 0; i < 2; i++ {
		b.Add(NewBatchItems[seedStore, int, int](ev, i, nil).Add(i))
	}
	seedWait(t, "the full batch was lost", 5*time.Second, func() bool { return atomic.LoadInt64(&n) == 2 })
	time.Sleep(30 * time.Millisecond)
	b.Add(NewBatchItems[seedStore, int, int](ev, 7, nil).Add(7))
	seedWait(t, "the last item is never executed", 2*time.Second, func() bool { return atomic.LoadInt64(&n) == 3 })
}
'''),
dict(id='c28-put-update', prop='C28', pkg='streams/stores', needs='an item is put again under the same key', breaks='the first value is kept',
 edits=[(SS,'	s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})\n	return s.ToChange','	if _, ok := s.tree.Get(&keyedValue[T]{key: item.Key()}); !ok {\n		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})\n	}\n	return s.ToChange')],
 test='''package stores

import (
	"testing"

	"github.com/aws/go-kafka-event-source/streams"
)

type seedItem struct {
	Id string
	N  int
}

func (s seedItem) Key() string { return s.Id }

func TestSeedDemo(t *testing.T) {
	s := NewJsonSimpleStore[seedItem](streams.TopicPartition{})
	s.Put(seedItem{"a", 1})
	s.Put(seedItem{"a", 2})
	if v, ok := s.Get("a"); !ok || v.N != 2 {
		t.Fatal("the item was not replaced")
	}
}
'''),
dict(id='c29-mask', prop='C29', pkg='streams/stores', needs='a key whose hash has the highest bit of the mask set', breaks='Len and For use different sets of shards or the lookup panics',
 edits=[(ST,'	for _, tree := range st.trees {\n','	for _, tree := range st.trees[:st.mod] {\n')],
 test='''package stores

import "testing"

func TestSeedDemo(t *testing.T) {
	st := NewShardedTree[uint64, uint64](1, func(k uint64) uint64 { return k }, NumberLess[uint64])
	for i := uint64(0); i < 64; i++ {
		st.For(i).ReplaceOrInsert(i)
	}
	if st.Len() != 64 {
		t.Fatalf("length %d", st.Len())
	}
	for i := uint64(0); i < 64; i++ {
		if _, ok := st.For(i).Get(i); !ok {
			t.Fatal("not found", i)
		}
	}
}
'''),
dict(id='c34-index', prop='C34', pkg='streams/stores', needs='an item is moved by a swap and then removed', breaks='the tracked index is stale, another item is removed',
 edits=[(MH,'	pq.items[i].index = i\n	pq.items[j].index = j\n','	if i < j {\n		pq.items[i].index = i\n	}\n	pq.items[j].index = j\n')],
 test='''package stores

import "testing"

type seedPrio int

func (a seedPrio) HasPriorityOver(b seedPrio) bool { return a < b }

func TestSeedDemo(t *testing.T) {
	h := NewMinMaxHeap[seedPrio]()
	var items []*PrioritizedItem[seedPrio]
	for i := 0; i < 40; i++ {
		x := &PrioritizedItem[seedPrio]{Value: seedPrio((i * 37) % 41)}
		items = append(items, x)
		h.Push(x)
	}
	left := map[*PrioritizedItem[seedPrio]]bool{}
	for i, x := range items {
		left[x] = true
		if h.items[x.index] != x {
			t.Fatal("the index of an item is wrong", i)
		}
	}
}
'''),
]
