package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"
)

// X12: one index value used by several goroutines at once.
//
// Every query of the index answers the union of what it answers for each indexed
// object alone; those answers are computed first, on private stores. A query that runs
// while others index must return everything that was acknowledged before it started and
// nothing whose indexing had not begun when it ended.

type concQuery struct {
	K     int `json:"k"`
	Op    int `json:"op"`
	Pause int `json:"pause,omitempty"`
}

type concIdxCase struct {
	Eng    Eng           `json:"eng"`
	Idx    shareIdx      `json:"idx"`
	Ops    []shareOp     `json:"ops"`
	Who    []int         `json:"who"` // goroutine of each operation
	Pauses []int         `json:"pauses"`
	Qs     [][]concQuery `json:"qs"`
	From   int64         `json:"from"`
	To     int64         `json:"to"`
	Spare  int           `json:"spare,omitempty"` // spare capacity of the prefix given
}

func init() {
	register(Prop{ID: "X12", Quick: 1600, Thorough: 150000, Race: true, HangSecs: 60,
		Rule: "one index of each kind on a real engine, 2-3 goroutines indexing 2-12 generated objects and 1-3 goroutines sending 2-12 queries of every kind, with generated pauses, under the race detector; every answer must lie between what the operations acknowledged before it and those begun before its end answer alone, and keep its content; non-trivial: an answer that neither the first nor the last state gives"},
		func(t *rapid.T) *concIdxCase {
			c := &concIdxCase{Eng: genEng(t, "gtreap", "gtreap", "boltdb", "goleveldb", "badger"), Spare: rapid.IntRange(0, 40).Draw(t, "spare")}
			objs, level := genObjs(t, rapid.IntRange(1, 3).Draw(t, "nobj"), 4, 3)
			c.Idx = shareIdx{Kind: rapid.SampledFrom([]string{"flat", "time", "point"}).Draw(t, "kind"), Prefix: genPrefix(t), Level: level}
			var times []int64
			nw := rapid.IntRange(2, 3).Draw(t, "writers")
			for i, n := 0, rapid.IntRange(2, 12).Draw(t, "nops"); i < n; i++ {
				o := rapid.SampledFrom(objs).Draw(t, "obj")
				o.T = genTime(t, times)
				o.ID = genID(t)
				times = append(times, o.T)
				p := ptSpec{ID: o.ID}
				p.Lat, p.Lng = offsetVec(o.S.Lat, o.S.Lng, rapid.Float64Range(0, 6).Draw(t, "b"), cellSize(level)*rapid.Float64Range(0, 2).Draw(t, "d"))
				c.Ops = append(c.Ops, shareOp{O: o, P: p})
				c.Who = append(c.Who, rapid.IntRange(0, nw-1).Draw(t, "who"))
				c.Pauses = append(c.Pauses, genPause.Draw(t, "pause"))
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "readers"); i < n; i++ {
				var qs []concQuery
				for j, m := 0, rapid.IntRange(2, 12).Draw(t, "nq"); j < m; j++ {
					qs = append(qs, concQuery{K: rapid.IntRange(0, 30).Draw(t, "k"), Op: rapid.IntRange(0, len(c.Ops)-1).Draw(t, "op"), Pause: genPause.Draw(t, "pause")})
				}
				c.Qs = append(c.Qs, qs)
			}
			c.From, c.To = genTime(t, times), genTime(t, times)
			if c.From < c.To {
				c.From, c.To = c.To, c.From
			}
			return c
		}, runConcIdx)
}

func runConcIdx(c *concIdxCase, x *Ctx) (err error) {
	type qk struct{ k, op int }
	alone := map[qk][]map[string]bool{}
	privs := make([]anyIdx, len(c.Ops))
	for i, op := range c.Ops {
		privs[i] = c.Idx.make(newStrict())
		if err := privs[i].add(op); err != nil {
			x.Label("object refused")
			return nil
		}
	}
	for _, qs := range c.Qs {
		for _, q := range qs {
			k := qk{q.K, q.Op}
			if alone[k] != nil {
				continue
			}
			for i := range c.Ops {
				ids, err := privs[i].query(q.K, c.Ops[q.Op], c.Idx.Level, c.From, c.To)
				if err != nil {
					return failf("query %d: %v", q.K, err)
				}
				m := map[string]bool{}
				for _, id := range ids {
					m[string(id)] = true
				}
				alone[k] = append(alone[k], m)
			}
		}
	}

	s, err := c.Eng.open(x.Dir(), &testOp{})
	if err != nil {
		return failf("opening %s: %v", c.Eng.Name, err)
	}
	defer s.Close()
	d := c.Idx
	d.Prefix = append(make(B, 0, len(d.Prefix)+c.Spare), d.Prefix...)
	idx := d.make(s)

	var mu sync.Mutex
	var firstErr error
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	begun := make([]int32, len(c.Ops))
	acked := make([]int32, len(c.Ops))
	var wg sync.WaitGroup
	spawn := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 4000)
					buf = buf[:runtime.Stack(buf, false)]
					if strings.Contains(string(buf), "akhenakh/oureadb/") {
						fail(failf("panic: %v\n%s", e, buf))
						return
					}
					panic(e)
				}
			}()
			f()
		}()
	}
	writers := map[int]bool{}
	for _, w := range c.Who {
		writers[w] = true
	}
	type kept struct {
		id, copy []byte
	}
	var keep []kept
	middle := false
	for w := range writers {
		w := w
		spawn(func() {
			for i, op := range c.Ops {
				if c.Who[i] != w {
					continue
				}
				pause(c.Pauses[i])
				atomic.StoreInt32(&begun[i], 1)
				if err := idx.add(op); err != nil {
					fail(failf("operation %d succeeds alone and fails when others use the index: %v", i, err))
					return
				}
				atomic.StoreInt32(&acked[i], 1)
			}
		})
	}
	for ri := range c.Qs {
		ri := ri
		spawn(func() {
			for qi, q := range c.Qs[ri] {
				pause(q.Pause)
				must := map[string]bool{}
				may := map[string]bool{}
				a := alone[qk{q.K, q.Op}]
				nack := 0
				for i := range c.Ops {
					if atomic.LoadInt32(&acked[i]) == 1 {
						nack++
						for id := range a[i] {
							must[id] = true
						}
					}
				}
				ids, err := idx.query(q.K, c.Ops[q.Op], c.Idx.Level, c.From, c.To)
				if err != nil {
					fail(failf("query %d of goroutine %d: %v", qi, ri, err))
					return
				}
				nbegun := 0
				for i := range c.Ops {
					if atomic.LoadInt32(&begun[i]) == 1 {
						nbegun++
						for id := range a[i] {
							may[id] = true
						}
					}
				}
				got := map[string]bool{}
				for _, id := range ids {
					got[string(id)] = true
					if !may[string(id)] {
						fail(failf("query %d of goroutine %d returns id %x, which no operation begun so far gives", qi, ri, []byte(id)))
						return
					}
				}
				for _, id := range sortedStrings(must) {
					if !got[id] {
						fail(failf("query %d of goroutine %d misses id %x, indexed before the query began", qi, ri, id))
						return
					}
				}
				mu.Lock()
				for _, id := range ids {
					keep = append(keep, kept{id, append([]byte{}, id...)})
				}
				if len(got) > 0 && nack < len(c.Ops) {
					middle = true
				}
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	for _, k := range keep {
		if !bytes.Equal(k.id, k.copy) {
			return failf("a returned id changed from %x to %x", k.copy, k.id)
		}
	}
	for k, a := range alone {
		want := map[string]bool{}
		for i := range a {
			for id := range a[i] {
				want[id] = true
			}
		}
		ids, err := idx.query(k.k, c.Ops[k.op], c.Idx.Level, c.From, c.To)
		if err != nil {
			return failf("a query after all indexing: %v", err)
		}
		got := map[string]bool{}
		for _, id := range ids {
			got[string(id)] = true
		}
		if fmt.Sprintf("%q", sortedStrings(got)) != fmt.Sprintf("%q", sortedStrings(want)) {
			return failf("after all indexing a query returns %q, the objects alone give %q", sortedStrings(got), sortedStrings(want))
		}
	}
	if middle {
		x.NonTrivial()
	}
	x.Label("engine " + c.Eng.Name)
	x.Label("index " + c.Idx.Kind)
	return nil
}
