package main

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/store"
	"pgregory.net/rapid"
)

// K11: concurrent batches and readers on one store.
//
// Every batch n of writer w
//   - sets all "p:" keys to "w.n.<pad>"
//   - sets its own counter "c:w" to n
//   - deletes "x:w:<last successful n>" and sets "x:w:<n>"
//   - appends entries to the merged log: key "m" shared by all writers where concurrent
//     merges of one key are promised, "m:w" on LevelDB
//
// so a state of the store tells which batches it contains, and anything that is
// not a state between two batches is recognised.

type concBatch struct {
	Pre  int  `json:"pre,omitempty"`  // pause before the batch
	Mid  int  `json:"mid,omitempty"`  // pause between building and executing
	Ents int  `json:"ents,omitempty"` // merged log entries (1..3)
	Fail bool `json:"fail,omitempty"` // the merge operator refuses this batch
}

type concSession struct {
	Pre    int   `json:"pre,omitempty"`
	Styles []int `json:"styles"`
	Gap    int   `json:"gap,omitempty"` // pause between two looks
}

type concCase struct {
	Eng      Eng             `json:"eng"`
	Keys     int             `json:"keys"`
	Pad      int             `json:"pad,omitempty"`
	OneW     bool            `json:"onew,omitempty"` // one writer value for all batches of a goroutine
	Partial  int             `json:"partial,omitempty"`
	Writers  [][]concBatch   `json:"writers"`
	Readers  [][]concSession `json:"readers"`
	Compacts int             `json:"compacts,omitempty"`
	Second   bool            `json:"second,omitempty"` // two goroutines compact
	Dict     int             `json:"dict,omitempty"`
	CBatch   int             `json:"cbatch,omitempty"`
}

func pause(p int) {
	switch {
	case p <= 0:
	case p <= 10:
		for i := 0; i < p; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(p) * time.Microsecond)
	}
}

var genPause = rapid.Custom(func(t *rapid.T) int {
	switch rapid.IntRange(0, 3).Draw(t, "pk") {
	case 0:
		return rapid.IntRange(0, 10).Draw(t, "yield")
	case 1:
		return rapid.IntRange(11, 400).Draw(t, "us")
	}
	return 0
})

func init() {
	register(Prop{ID: "K11", Quick: 1600, Thorough: 200000, Race: true, HangSecs: 60,
		Rule: "2-4 writers executing 2-12 batches each (paired keys, own counter, moving key, a dictionary row whose count is zero every other time, merges into a shared log, some batches refused by the merge operator), 1-3 readers with 2-10 sessions each and 0-3 compactions, with generated pauses, on every engine under the race detector; every session is checked for a state between two batches of one serial order, for acknowledged batches, for monotonicity and for staying frozen; non-trivial: a session saw a state that is neither the first nor the last one while a writer was active"},
		func(t *rapid.T) *concCase {
			c := &concCase{Eng: genEng(t, "gtreap", "gtreap", "boltdb", "goleveldb", "badger")}
			c.Keys = rapid.IntRange(2, 24).Draw(t, "keys")
			c.Pad = rapid.SampledFrom([]int{0, 0, 10, 300}).Draw(t, "pad")
			c.OneW = rapid.Bool().Draw(t, "onew")
			c.Partial = rapid.IntRange(0, 2).Draw(t, "partial")
			for i, n := 0, rapid.IntRange(2, 4).Draw(t, "writers"); i < n; i++ {
				var bs []concBatch
				for j, m := 0, rapid.IntRange(2, 12).Draw(t, "batches"); j < m; j++ {
					bs = append(bs, concBatch{Pre: genPause.Draw(t, "pre"), Mid: genPause.Draw(t, "mid"),
						Ents: rapid.IntRange(1, 3).Draw(t, "ents"), Fail: rapid.IntRange(0, 7).Draw(t, "fail") == 0})
				}
				c.Writers = append(c.Writers, bs)
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "readers"); i < n; i++ {
				var ss []concSession
				for j, m := 0, rapid.IntRange(2, 10).Draw(t, "sessions"); j < m; j++ {
					ss = append(ss, concSession{Pre: genPause.Draw(t, "pre"), Gap: genPause.Draw(t, "gap"),
						Styles: rapid.SliceOfN(rapid.IntRange(0, 5), 2, 3).Draw(t, "styles")})
				}
				c.Readers = append(c.Readers, ss)
			}
			if (c.Eng.Name == "boltdb" || c.Eng.Name == "goleveldb") && rapid.Bool().Draw(t, "compact") {
				c.Compacts = rapid.IntRange(1, 6).Draw(t, "compacts")
				c.Second = rapid.IntRange(0, 2).Draw(t, "second") == 0
				c.Dict = rapid.IntRange(0, 12).Draw(t, "dict")
				c.CBatch = rapid.IntRange(1, 5).Draw(t, "cbatch")
			}
			return c
		}, runConc)
}

// concOp appends operands; an operand containing '!' is refused.
type concOp struct{ partial int }

func (o concOp) Name() string { return "verif-conc" }
func (o concOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if o.partial == 0 || (o.partial == 2 && (len(l)+len(r))%2 == 0) {
		return nil, false
	}
	return append(append([]byte{}, l...), r...), true
}
func (o concOp) FullMerge(key, ex []byte, ops [][]byte) ([]byte, bool) {
	v := append([]byte{}, ex...)
	for _, op := range ops {
		if strings.Contains(string(op), "!") {
			return nil, false
		}
		v = append(v, op...)
	}
	return v, true
}

type span struct{ from, to int64 }

type concView struct {
	m       Model
	last    string         // content of the paired keys without padding: "w.n", or "" before the first batch
	cnt     []int          // last batch per writer, 0: none
	log     []string       // entries of the shared log
	reader  int            // who saw it
	before  []int64        // acknowledged per writer before the reader was opened
	after   []int64        // started per writer after the reader was opened
	dict    map[string]int // dictionary rows
	rows    map[int]int    // dictionary row of each writer
	session int
}

func (c *concCase) shared() bool { return c.Eng.Name != "goleveldb" }

// parse recognises the state; anything that no sequence of batches produces is an error.
func (c *concCase) parse(m Model) (*concView, error) {
	v := &concView{m: m, cnt: make([]int, len(c.Writers)), dict: map[string]int{}, rows: map[int]int{}}
	pairs := map[string]string{}
	moving := map[int][]int{}
	logs := map[int]string{}
	for k, val := range m {
		switch {
		case strings.HasPrefix(k, "p:"):
			pairs[k] = val
		case strings.HasPrefix(k, "c:"):
			w, err := strconv.Atoi(k[2:])
			n, err2 := strconv.Atoi(val)
			if err != nil || err2 != nil || w >= len(c.Writers) {
				return nil, failf("unexpected entry %q=%q", k, val)
			}
			v.cnt[w] = n
		case strings.HasPrefix(k, "x:"):
			var w, n int
			if _, err := fmt.Sscanf(k, "x:%d:%d", &w, &n); err != nil {
				return nil, failf("unexpected key %q", k)
			}
			moving[w] = append(moving[w], n)
		case k == "m":
			v.log = strings.Split(strings.TrimSuffix(val, ";"), ";")
		case strings.HasPrefix(k, "m:"):
			w, _ := strconv.Atoi(k[2:])
			logs[w] = val
		case strings.HasPrefix(k, "d:w"):
			w, err := strconv.Atoi(k[3:])
			if err != nil || w >= len(c.Writers) || len(val) != 1 {
				return nil, failf("unexpected entry %q=%q", k, val)
			}
			v.rows[w] = int(val[0])
		case strings.HasPrefix(k, "d:"):
			v.dict[k] = int(val[0])
		default:
			return nil, failf("unexpected key %q (a refused batch left something?)", k)
		}
	}
	if len(pairs) != 0 && len(pairs) != c.Keys {
		return nil, failf("%d of the %d keys set by every batch are there", len(pairs), c.Keys)
	}
	for k, val := range pairs {
		s := strings.TrimRight(val, "~")
		if v.last == "" {
			v.last = s
		}
		if s != v.last || len(val) != len(s)+c.Pad {
			return nil, failf("keys set together differ: one holds %q, %s holds %q", v.last, k, s)
		}
	}
	for w := range c.Writers {
		switch {
		case v.cnt[w] == 0 && len(moving[w]) != 0, v.cnt[w] != 0 && (len(moving[w]) != 1 || moving[w][0] != v.cnt[w]):
			return nil, failf("writer %d: counter %d, but moving keys %v", w, v.cnt[w], moving[w])
		}
	}
	for w, n := range v.cnt {
		row, ok := v.rows[w]
		switch {
		case n == 0 && ok:
			return nil, failf("writer %d executed no batch, its dictionary row holds %d", w, row)
		case n%2 == 1 && !ok:
			return nil, failf("writer %d executed batch %d, its dictionary row of count %d is gone", w, n, n)
		case n%2 == 1 && row != n, n > 0 && n%2 == 0 && (ok && row != 0 || !ok && c.Compacts == 0):
			return nil, failf("writer %d executed batch %d, its dictionary row holds %d (there: %v)", w, n, row, ok)
		}
	}
	any := false
	for _, n := range v.cnt {
		any = any || n > 0
	}
	if any != (v.last != "") {
		return nil, failf("counters %v, but paired keys hold %q", v.cnt, v.last)
	}
	if v.last != "" {
		var w, n int
		if _, err := fmt.Sscanf(v.last, "%d.%d", &w, &n); err != nil || w >= len(c.Writers) || v.cnt[w] != n {
			return nil, failf("paired keys hold %q, counters are %v", v.last, v.cnt)
		}
	}
	if c.shared() {
		if any != (len(v.log) > 0) {
			return nil, failf("counters %v, log %v", v.cnt, v.log)
		}
		want := make([]int, len(c.Writers))
		for i := 0; i < len(v.log); {
			var w, n, e int
			if _, err := fmt.Sscanf(v.log[i], "%d.%d.%d", &w, &n, &e); err != nil || w >= len(c.Writers) || n < 1 || n > len(c.Writers[w]) {
				return nil, failf("log entry %q", v.log[i])
			}
			for k := 0; k < c.Writers[w][n-1].Ents; k++ {
				if i+k >= len(v.log) || v.log[i+k] != fmt.Sprintf("%d.%d.%d", w, n, k) {
					return nil, failf("merges of batch %d.%d are not complete and together in the log: %v", w, n, v.log)
				}
			}
			i += c.Writers[w][n-1].Ents
			if n <= want[w] {
				return nil, failf("batch %d.%d is in the log after batch %d.%d: %v", w, n, w, want[w], v.log)
			}
			want[w] = n
			if i == len(v.log) && v.last != fmt.Sprintf("%d.%d", w, n) {
				return nil, failf("the last batch of the log is %d.%d, but the paired keys hold %q", w, n, v.last)
			}
		}
		if fmt.Sprint(want) != fmt.Sprint(v.cnt) {
			return nil, failf("counters %v, but the log says %v: %v", v.cnt, want, v.log)
		}
	} else {
		for w := range c.Writers {
			var want strings.Builder
			for n := 1; n <= v.cnt[w]; n++ {
				if b := c.Writers[w][n-1]; !b.Fail {
					for k := 0; k < b.Ents; k++ {
						fmt.Fprintf(&want, "%d.%d.%d;", w, n, k)
					}
				}
			}
			if logs[w] != want.String() {
				return nil, failf("writer %d executed batches up to %d, its log is %q, not %q", w, v.cnt[w], logs[w], want.String())
			}
		}
	}
	return v, nil
}

func concKeys(c *concCase) []string {
	ks := []string{"m"}
	for i := 0; i < c.Keys; i++ {
		ks = append(ks, fmt.Sprintf("p:%02d", i))
	}
	for w := range c.Writers {
		ks = append(ks, fmt.Sprintf("c:%d", w), fmt.Sprintf("m:%d", w), fmt.Sprintf("d:w%d", w))
		for n := range c.Writers[w] {
			ks = append(ks, fmt.Sprintf("x:%d:%d", w, n+1))
		}
	}
	for i := 0; i < c.Dict; i++ {
		ks = append(ks, fmt.Sprintf("d:%02d", i))
	}
	sort.Strings(ks)
	return ks
}

// look reads everything through r in one of six ways.
func (c *concCase) look(r store.KVReader, style int) (Model, error) {
	m := Model{}
	collect := func(it store.KVIterator) {
		for n := 0; n < 100000; n++ {
			k, v, ok := it.Current()
			if !ok {
				break
			}
			m[string(k)] = string(v)
			it.Next()
		}
		it.Close()
	}
	ks := concKeys(c)
	switch style {
	case 0, 1:
		if style == 1 { // backwards
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		for _, k := range ks {
			v, err := r.Get([]byte(k))
			if err != nil {
				return nil, failf("reading %q: %v", k, err)
			}
			if v != nil {
				m[k] = string(v)
			}
		}
	case 2:
		bs := make([][]byte, len(ks))
		for i, k := range ks {
			bs[i] = []byte(k)
		}
		vs, err := r.MultiGet(bs)
		if err != nil || len(vs) != len(ks) {
			return nil, failf("multi-key read: %d values, %v", len(vs), err)
		}
		for i, v := range vs {
			if v != nil {
				m[ks[i]] = string(v)
			}
		}
	case 3:
		collect(r.RangeIterator(nil, nil))
	case 4:
		for _, p := range []string{"x", "p", "m", "d", "c"} {
			collect(r.PrefixIterator([]byte(p)))
		}
	case 5:
		collect(r.RangeIterator([]byte("n"), nil))
		collect(r.RangeIterator([]byte("a"), []byte("n")))
	}
	return m, nil
}

func runConc(c *concCase, x *Ctx) (err error) {
	if len(c.Writers) == 0 || len(c.Readers) == 0 || c.Keys < 1 {
		return nil
	}
	s, err := c.Eng.open(x.Dir(), concOp{c.Partial})
	if err != nil {
		return failf("opening %s: %v", c.Eng.Name, err)
	}
	open := true
	defer func() {
		if open {
			s.Close()
		}
	}()
	zero := map[string]bool{}
	if c.Dict > 0 {
		var ops []BOp
		for i := 0; i < c.Dict; i++ {
			k, v := fmt.Sprintf("d:%02d", i), byte(i%3)
			zero[k] = v == 0
			ops = append(ops, BOp{K: "set", Key: B(k), Val: Val{P: B{v}}})
		}
		if err := execOps(s, ops); err != nil {
			return failf("first batch: %v", err)
		}
	}

	nw := len(c.Writers)
	started := make([]int64, nw) // batches whose execution began
	acked := make([]int64, nw)   // last batch reported successful
	var clock int64
	var mu sync.Mutex
	var firstErr error
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	bad := func() bool { mu.Lock(); defer mu.Unlock(); return firstErr != nil }
	type tried struct {
		w, n int
		ok   bool
		sp   span
	}
	var attempts []tried
	views := []*concView{}
	var wg, ww sync.WaitGroup
	writing := int64(nw)
	// an error found by one goroutine must not panic the process from another one
	spawn := func(g *sync.WaitGroup, f func()) {
		wg.Add(1)
		if g != nil {
			g.Add(1)
		}
		go func() {
			defer wg.Done()
			if g != nil {
				defer g.Done()
			}
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 4000)
					buf = buf[:runtime.Stack(buf, false)]
					if strings.Contains(string(buf), "akhenakh/oureadb/") {
						fail(failf("panic: %v\n%s", e, buf))
						return
					}
					panic(e)
				}
			}()
			f()
		}()
	}

	for w := range c.Writers {
		w := w
		spawn(&ww, func() {
			defer atomic.AddInt64(&writing, -1)
			var wr store.KVWriter
			last := 0
			for i, b := range c.Writers[w] {
				n := i + 1
				if bad() {
					return
				}
				pause(b.Pre)
				if wr == nil || !c.OneW {
					var err error
					if wr, err = s.Writer(); err != nil {
						fail(failf("opening a writer: %v", err))
						return
					}
				}
				kb := wr.NewBatch()
				val := []byte(fmt.Sprintf("%d.%d%s", w, n, strings.Repeat("~", c.Pad)))
				logKey := "m"
				if !c.shared() {
					logKey = fmt.Sprintf("m:%d", w)
				}
				// a dictionary row, every other batch with a count of zero
				kb.Set([]byte(fmt.Sprintf("d:w%d", w)), []byte{byte(n * (n % 2))})
				for k := 0; k < c.Keys; k++ {
					kb.Set([]byte(fmt.Sprintf("p:%02d", k)), val)
					if k == c.Keys/2 {
						for e := 0; e < b.Ents; e++ {
							kb.Merge([]byte(logKey), []byte(fmt.Sprintf("%d.%d.%d;", w, n, e)))
						}
					}
				}
				if last > 0 {
					kb.Delete([]byte(fmt.Sprintf("x:%d:%d", w, last)))
				}
				kb.Set([]byte(fmt.Sprintf("x:%d:%d", w, n)), []byte{1})
				kb.Set([]byte(fmt.Sprintf("c:%d", w)), []byte(strconv.Itoa(n)))
				if b.Fail {
					kb.Merge([]byte("bad"), []byte("!"))
				}
				pause(b.Mid)
				sp := span{from: atomic.AddInt64(&clock, 1)}
				atomic.StoreInt64(&started[w], int64(n))
				err := wr.ExecuteBatch(kb)
				if err == nil {
					atomic.StoreInt64(&acked[w], int64(n))
					last = n
				}
				sp.to = atomic.AddInt64(&clock, 1)
				mu.Lock()
				attempts = append(attempts, tried{w, n, err == nil, sp})
				mu.Unlock()
				kb.Close()
				if b.Fail && err == nil {
					fail(failf("batch %d.%d, whose merge is refused, was reported successful", w, n))
					return
				}
				if !b.Fail && err != nil && c.Eng.Name != "badger" {
					fail(failf("batch %d.%d failed: %v", w, n, err))
					return
				}
				if !c.OneW {
					wr.Close()
				}
			}
		})
	}
	for ri := range c.Readers {
		ri := ri
		spawn(nil, func() {
			var prev *concView
			for si, ss := range c.Readers[ri] {
				if bad() {
					return
				}
				pause(ss.Pre)
				before := make([]int64, nw)
				for w := range before {
					before[w] = atomic.LoadInt64(&acked[w])
				}
				active := atomic.LoadInt64(&writing) > 0
				r, err := s.Reader()
				if err != nil {
					fail(failf("opening a reader: %v", err))
					return
				}
				after := make([]int64, nw)
				for w := range after {
					after[w] = atomic.LoadInt64(&started[w])
				}
				v, err := c.session(r, ss)
				if cerr := r.Close(); cerr != nil && err == nil {
					err = failf("closing a reader: %v", cerr)
				}
				if err != nil {
					fail(failf("reader %d session %d: %v", ri, si, err))
					return
				}
				v.reader, v.before, v.after, v.session = ri, before, after, si
				for w := range before {
					if int64(v.cnt[w]) < before[w] {
						fail(failf("reader %d session %d: batch %d.%d was reported successful before the reader was opened, the reader sees writer %d at %d", ri, si, w, before[w], w, v.cnt[w]))
						return
					}
					if int64(v.cnt[w]) > after[w] {
						fail(failf("reader %d session %d: batch %d.%d had not begun when the reader was opened and is visible", ri, si, w, v.cnt[w]))
						return
					}
					if prev != nil && v.cnt[w] < prev.cnt[w] {
						fail(failf("reader %d session %d went back in time: writer %d at %d, %d in the session before", ri, si, w, v.cnt[w], prev.cnt[w]))
						return
					}
				}
				for k := range zero {
					if _, ok := v.dict[k]; !ok && !zero[k] {
						fail(failf("compaction removed the dictionary entry %q whose count is not zero", k))
						return
					} else if ok && zero[k] && prev != nil {
						if _, was := prev.dict[k]; !was {
							fail(failf("dictionary entry %q is back after it had been removed", k))
							return
						}
					}
				}
				prev = v
				mu.Lock()
				views = append(views, v)
				mu.Unlock()
				if active && v.last != "" {
					x2 := atomic.LoadInt64(&writing) > 0
					if x2 {
						mu.Lock()
						x.Label("session in the middle")
						x.NonTrivial()
						mu.Unlock()
					}
				}
			}
		})
	}
	for n := 0; c.Compacts > 0 && (n == 0 || n == 1 && c.Second); n++ {
		spawn(nil, func() {
			for i := 0; i < c.Compacts; i++ {
				cp, ok := s.(interface{ CompactWithBatchSize(int) error })
				if !ok {
					return
				}
				if err := cp.CompactWithBatchSize(c.CBatch); err != nil {
					fail(failf("compacting: %v", err))
					return
				}
			}
			mu.Lock()
			x.Label("compacted")
			mu.Unlock()
		})
	}
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	// Final state: every acknowledged batch, once, and no other.
	r, err := s.Reader()
	if err != nil {
		return failf("opening the last reader: %v", err)
	}
	final, err := c.session(r, concSession{Styles: []int{0, 2, 3}})
	r.Close()
	if err != nil {
		return failf("after all writers ended: %v", err)
	}
	okBatches := map[string]bool{}
	conflicts := 0
	for _, a := range attempts {
		if a.ok {
			okBatches[fmt.Sprintf("%d.%d", a.w, a.n)] = true
			continue
		}
		if c.Writers[a.w][a.n-1].Fail {
			x.Label("refused batch")
			continue
		}
		// a conflict: only because of another batch committed meanwhile
		conflicts++
		found := false
		for _, o := range attempts {
			if o.ok && o.w != a.w && o.sp.from < a.sp.to && o.sp.to > a.sp.from {
				found = true
			}
		}
		if !found {
			return failf("batch %d.%d was refused as conflicting although no other batch was committed meanwhile", a.w, a.n)
		}
	}
	if conflicts > 0 {
		x.Label("badger conflict")
	}
	for w := range final.cnt {
		if int64(final.cnt[w]) != acked[w] {
			return failf("writer %d: last successful batch %d, the store holds %d", w, acked[w], final.cnt[w])
		}
	}
	if c.shared() {
		seen := map[string]bool{}
		for _, e := range final.log {
			seen[e[:strings.LastIndex(e, ".")]] = true
		}
		for b := range okBatches {
			if !seen[b] {
				return failf("the merges of batch %s, reported successful, are lost: %v", b, final.log)
			}
		}
		for b := range seen {
			if !okBatches[b] {
				return failf("the merges of batch %s, reported as failed, are there: %v", b, final.log)
			}
		}
		for _, v := range views {
			if len(v.log) > len(final.log) {
				return failf("reader %d session %d saw a longer log than the final one", v.reader, v.session)
			}
			for i := range v.log {
				if v.log[i] != final.log[i] {
					return failf("reader %d session %d saw batches in another order: %v, finally %v", v.reader, v.session, v.log, final.log)
				}
			}
		}
	}
	// All observed states lie on one chain.
	sort.SliceStable(views, func(i, j int) bool {
		a, b := 0, 0
		for w := range views[i].cnt {
			a += views[i].cnt[w]
			b += views[j].cnt[w]
		}
		return a < b
	})
	for i := 1; i < len(views); i++ {
		a, b := views[i-1], views[i]
		same := true
		for w := range a.cnt {
			if a.cnt[w] > b.cnt[w] {
				return failf("reader %d saw writers at %v, reader %d at %v: no serial order has both", a.reader, a.cnt, b.reader, b.cnt)
			}
			same = same && a.cnt[w] == b.cnt[w]
		}
		if same && a.last != b.last {
			return failf("writers at %v, but the last batch is %q for reader %d and %q for reader %d", a.cnt, a.last, a.reader, b.last, b.reader)
		}
	}
	for k, z := range zero {
		_, ok := final.dict[k]
		if ok && z && c.Compacts > 0 {
			return failf("dictionary entry %q with count zero survived a compaction", k)
		}
		if !ok && !z {
			return failf("dictionary entry %q is gone", k)
		}
	}
	x.Label("engine " + c.Eng.Name)
	// Nothing is lost by closing.
	if c.Eng.Name != "gtreap" {
		open = false
		if err := s.Close(); err != nil {
			return failf("closing: %v", err)
		}
	}
	return nil
}

// session looks at the store several times through one reader.
func (c *concCase) session(r store.KVReader, ss concSession) (*concView, error) {
	var first Model
	for i, st := range ss.Styles {
		var m Model
		err := touch("reading", func() (e error) { m, e = c.look(r, st); return })
		if err != nil {
			return nil, err
		}
		if i == 0 {
			first = m
		} else if err := diffModels(m, first); err != nil {
			return nil, failf("a later look through the same reader differs (way %d against way %d): %v", st, ss.Styles[0], err)
		}
		if i == 0 {
			pause(ss.Gap)
		}
	}
	return c.parse(first)
}
