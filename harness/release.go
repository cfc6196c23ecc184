package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/boltdb"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- K15

type relOp struct {
	K   string `json:"k"`
	N   int    `json:"n,omitempty"`
	Key B      `json:"key,omitempty"`
	End B      `json:"end,omitempty"`
	Ops []BOp  `json:"ops,omitempty"`
}

type relCase struct {
	Eng Eng     `json:"eng"`
	Ops []relOp `json:"ops"`
	Rev bool    `json:"rev,omitempty"`
	RO  bool    `json:"ro,omitempty"`
	// Space: before closing, a large value is written, read, deleted and compacted away
	Space bool `json:"space,omitempty"`
}

func init() {
	register(Prop{ID: "K15", Quick: 3000, Thorough: 40000, HangSecs: 60,
		Rule: "histories of opening and closing stores, readers, iterators, writers and batches, with reads, writes, refused batches, compactions and refused opens between; then everything is closed, in any order the contract allows, and no descriptor, mapping, goroutine of an engine or open Bolt transaction may be left, refused calls included, and the path opens again; non-trivial: at least two readers and an iterator were open or an open or batch was refused"},
		func(t *rapid.T) *relCase {
			c := &relCase{Eng: genEng(t, "boltdb", "boltdb", "goleveldb", "goleveldb", "badger", "gtreap"), Rev: rapid.Bool().Draw(t, "rev")}
			c.RO = c.Eng.Name != "gtreap" && c.Eng.Name != "badger" && rapid.IntRange(0, 5).Draw(t, "ro") == 0
			c.Space = c.Eng.Name == "goleveldb" && rapid.IntRange(0, 3).Draw(t, "space") == 0
			pool := genPool(t, 2, 6)
			for n := rapid.IntRange(2, 25).Draw(t, "n"); n > 0; n-- {
				op := relOp{K: rapid.SampledFrom([]string{"reader", "reader", "prefix", "range", "get", "multiget", "batch", "seek", "refused", "writer", "closereader", "closeiter", "closewriter", "compact", "badopen", "reopen", "stats"}).Draw(t, "op"), N: rapid.IntRange(0, 5).Draw(t, "k")}
				switch op.K {
				case "prefix", "get", "multiget", "seek":
					op.Key = genKeyFrom(t, pool)
				case "range":
					op.Key, op.End = genKeyFrom(t, pool), genKeyFrom(t, pool)
				case "batch":
					op.Ops = genOps(t, pool, bcfg{max: 5, bulk: c.Eng.Name == "gtreap"})
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runRelease)
}

// engineGoroutines lists the goroutines that run code of a storage engine or of oureadb.
func engineGoroutines() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // this one
		}
		// badger does not wait for the prefetching of the current item when an iterator closes
		// and goleveldb drains a buffer pool for a second after closing
		if strings.Contains(g, "badger.(*Iterator).fill.func1(") || strings.Contains(g, "leveldb.(*DB).mpoolDrain(") {
			continue
		}
		for _, p := range []string{"akhenakh/oureadb/", "boltdb/bolt.", "syndtr/goleveldb/", "dgraph-io/badger"} {
			if strings.Contains(g, p) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// heldFiles lists the descriptors and mappings of this process below dir.
func heldFiles(dir string) []string {
	var out []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, "descriptor of "+strings.TrimPrefix(l, dir))
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			out = append(out, "mapping of "+strings.TrimPrefix(l[i:], dir))
		}
	}
	sort.Strings(out)
	return out
}

// settles waits until f returns no more than base entries; goroutines end a little after Close.
func (x *Ctx) settles(base int, f func() []string) []string {
	var l []string
	limit := 10 * time.Second
	if x.shrinking {
		limit = time.Second
	}
	start := time.Now()
	for i := 0; i < 6 || time.Since(start) < limit; i++ {
		if l = f(); len(l) <= base {
			return nil
		}
		if i > 5 {
			runtime.GC()
		}
		time.Sleep(time.Duration(1+i/4) * time.Millisecond)
	}
	return l
}

func openTxN(s store.KVStore) (int, bool, error) {
	bs, ok := s.(*boltdb.Store)
	if !ok {
		return 0, false, nil
	}
	b, err := bs.Stats().MarshalJSON()
	if err != nil {
		return 0, false, failf("statistics of a Bolt store: %v", err)
	}
	var st struct{ OpenTxN int }
	if err := json.Unmarshal(b, &st); err != nil {
		return 0, false, failf("statistics of a Bolt store are no JSON: %v: %s", err, show(b))
	}
	return st.OpenTxN, true, nil
}

var relCases int

func dirSize(dir string) (n int64) {
	filepath.Walk(dir, func(_ string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			n += i.Size()
		}
		return nil
	})
	return n
}

// space checks that what was overwritten is not kept for a reader or iterator that was closed.
func (c *relCase) space(s store.KVStore, dir string, x *Ctx) error {
	blob := make([]byte, 600<<10)
	rand.New(rand.NewSource(1)).Read(blob)
	key := "\xfespace"
	if err := execOps(s, []BOp{{K: "set", Key: B(key), Val: Val{P: blob}}}); err != nil {
		return failf("writing a large value: %v", err)
	}
	for i := 0; i < 3; i++ {
		r, err := s.Reader()
		if err != nil {
			return failf("getting a reader: %v", err)
		}
		it := r.PrefixIterator([]byte(key))
		if i == 1 {
			it = r.RangeIterator([]byte(key), nil)
		}
		v, err := r.Get([]byte(key))
		if err != nil || len(v) != len(blob) || !it.Valid() {
			return failf("a large value is not read back: %v", err)
		}
		if err := it.Close(); err != nil {
			return failf("closing an iterator: %v", err)
		}
		if err := r.Close(); err != nil {
			return failf("closing a reader: %v", err)
		}
	}
	if err := execOps(s, []BOp{{K: "del", Key: B(key)}}); err != nil {
		return failf("deleting a large value: %v", err)
	}
	if _, err := compact(s, 0); err != nil {
		return failf("compacting: %v", err)
	}
	x.Label("space given back")
	var n int64
	if left := x.settles(0, func() []string {
		if n = dirSize(dir); n > 400<<10 {
			return []string{"x"}
		}
		return nil
	}); left != nil {
		return failf("%s: with everything closed, a deleted value of 600 kB is kept by compaction: %d bytes on disk", c.Eng.Name, n)
	}
	return nil
}

type relIter struct {
	it store.KVIterator
	r  int
}

func runRelease(c *relCase, x *Ctx) (err error) {
	// the name is new in this process: nothing left by an earlier case is mistaken for this one
	relCases++
	dir := filepath.Join(x.Dir(), fmt.Sprint("r", relCases))
	if err := os.Mkdir(dir, 0o755); err != nil {
		return harnessError{err}
	}
	x.Label("engine " + c.Eng.Name)
	if left := x.settles(0, engineGoroutines); left != nil {
		// left behind by an earlier case: that case was judged already
		x.Label("goroutines of an earlier case")
	}
	base := len(engineGoroutines())
	merges := &testOp{}
	s, err := c.Eng.presized(dir, merges)
	if err != nil {
		return openErr(err)
	}
	m := Model{}
	ro := false
	reopen := func() error {
		cfg := c.Eng.config(dir)
		if ro {
			cfg["read_only"] = true
		}
		var err error
		s, err = c.Eng.openCfg(cfg, merges)
		if err != nil {
			return failf("opening %s again after closing everything: %v", c.Eng.Name, err)
		}
		if c.Eng.Name == "gtreap" {
			m = Model{}
		}
		return nil
	}
	var readers []store.KVReader
	var iters []relIter
	var writers []store.KVWriter
	batches := map[int][]store.KVBatch{}
	closeIters := func(r int) error {
		var keep []relIter
		for _, i := range iters {
			if r >= 0 && i.r != r {
				keep = append(keep, i)
				continue
			}
			if err := i.it.Close(); err != nil {
				return failf("closing an iterator: %v", err)
			}
		}
		iters = keep
		return nil
	}
	closeReader := func(i int) error {
		if readers[i] == nil {
			return nil
		}
		if err := closeIters(i); err != nil {
			return err
		}
		r := readers[i]
		readers[i] = nil
		if err := r.Close(); err != nil {
			return failf("closing a reader: %v", err)
		}
		return nil
	}
	closeWriter := func(i int) error {
		if writers[i] == nil {
			return nil
		}
		for _, b := range batches[i] {
			if err := b.Close(); err != nil {
				return failf("closing a batch: %v", err)
			}
		}
		w := writers[i]
		writers[i], batches[i] = nil, nil
		if err := w.Close(); err != nil {
			return failf("closing a writer: %v", err)
		}
		return nil
	}
	closeAll := func() error {
		for i := range readers {
			if c.Rev {
				i = len(readers) - 1 - i
			}
			if err := closeReader(i); err != nil {
				return err
			}
		}
		if n, ok, err := openTxN(s); err != nil {
			return err
		} else if ok && n != 0 {
			return failf("%d transactions of the Bolt store are still open after every reader was closed", n)
		}
		for i := range writers {
			if err := closeWriter(i); err != nil {
				return err
			}
		}
		readers, writers, iters = nil, nil, nil
		if c.Space && !ro {
			if err := c.space(s, filepath.Join(dir, "db"), x); err != nil {
				return err
			}
			m = m.compacted()
		}
		if err := s.Close(); err != nil {
			return failf("closing the store: %v", err)
		}
		if left := x.settles(0, func() []string { return heldFiles(dir) }); left != nil {
			return failf("%s: after closing everything the process still holds %v", c.Eng.Name, left)
		}
		if left := x.settles(base, engineGoroutines); left != nil {
			return failf("%s: after closing everything %d goroutines are still running, the last one:\n%s", c.Eng.Name, len(left), left[len(left)-1])
		}
		return nil
	}
	open := func() []int {
		var l []int
		for i, r := range readers {
			if r != nil {
				l = append(l, i)
			}
		}
		return l
	}
	for n, op := range c.Ops {
		where := fmt.Sprintf("%s, step %d (%s)", c.Eng.Name, n, op.K)
		live := open()
		pick := -1
		if len(live) > 0 {
			pick = live[op.N%len(live)]
		}
		switch op.K {
		case "reader":
			r, err := s.Reader()
			if err != nil {
				return failf("%s: getting a reader: %v", where, err)
			}
			readers = append(readers, r)
			if len(live) >= 1 && len(iters) > 0 {
				x.NonTrivial()
			}
		case "prefix", "range":
			if pick < 0 {
				continue
			}
			var it store.KVIterator
			if op.K == "prefix" {
				it = readers[pick].PrefixIterator(op.Key)
			} else {
				it = readers[pick].RangeIterator(op.Key, op.End)
			}
			iters = append(iters, relIter{it, pick})
			for i := 0; i < op.N && it.Valid(); i++ {
				it.Next()
			}
		case "seek":
			if len(iters) > 0 {
				it := iters[op.N%len(iters)].it
				it.Seek(op.Key)
				for i := 0; i < op.N && it.Valid(); i++ {
					it.Next()
				}
			}
		case "get":
			if pick >= 0 {
				if _, err := readers[pick].Get(op.Key); err != nil {
					return failf("%s: %v", where, err)
				}
			}
		case "multiget":
			if pick >= 0 {
				if _, err := readers[pick].MultiGet([][]byte{op.Key, []byte("absent"), op.Key}); err != nil {
					return failf("%s: %v", where, err)
				}
			}
		case "batch":
			if ro {
				x.Label("refused batch")
				x.NonTrivial()
				if err := execOps(s, op.Ops); err == nil && len(op.Ops) > 0 {
					return failf("%s: a write to a read-only store reported success", where)
				}
				continue
			}
			if m, err = runBatch(s, m, op.Ops); err != nil {
				return failf("%s: %v", where, err)
			}
		case "refused":
			// the operator refuses it
			x.Label("refused batch")
			if err := execOps(s, []BOp{{K: "set", Key: B("zz"), Val: Val{P: B("1")}}, {K: "merge", Key: B("zm"), Val: Val{P: B{payloadFail}}}}); err == nil {
				return failf("%s: a refused merge reported success", where)
			}
			x.NonTrivial()
		case "writer":
			w, err := s.Writer()
			if err != nil {
				if ro {
					continue
				}
				return failf("%s: getting a writer: %v", where, err)
			}
			writers = append(writers, w)
			k := len(writers) - 1
			for i := 0; i < op.N%3; i++ {
				b := w.NewBatch()
				b.Set([]byte("k"), []byte("v"))
				batches[k] = append(batches[k], b)
			}
		case "closereader":
			if pick >= 0 {
				if err := closeReader(pick); err != nil {
					return failf("%s: %v", where, err)
				}
			}
		case "closeiter":
			if len(iters) > 0 {
				i := op.N % len(iters)
				it := iters[i]
				iters = append(iters[:i:i], iters[i+1:]...)
				if err := it.it.Close(); err != nil {
					return failf("%s: %v", where, err)
				}
			}
		case "closewriter":
			if len(writers) > 0 {
				if err := closeWriter(op.N % len(writers)); err != nil {
					return failf("%s: %v", where, err)
				}
			}
		case "compact":
			did, err := compact(s, op.N*10)
			if err != nil && !ro {
				return failf("%s: %v", where, err)
			}
			if did && err == nil {
				m = m.compacted()
			}
		case "stats":
			nt, ok, err := openTxN(s)
			if err != nil {
				return failf("%s: %v", where, err)
			}
			if ok && nt != len(open()) {
				return failf("%s: the Bolt store counts %d open transactions while %d readers are open", where, nt, len(open()))
			}
		case "badopen":
			if err := c.badOpen(dir, op.N, x); err != nil {
				return failf("%s: %v", where, err)
			}
		case "reopen":
			if err := closeAll(); err != nil {
				return failf("%s: %v", where, err)
			}
			ro = c.RO && op.N%2 == 1
			if err := reopen(); err != nil {
				return failf("%s: %v", where, err)
			}
			if err := checkStore(s, m, nil); err != nil {
				return failf("%s: %v", where, err)
			}
			x.Label("reopened")
		}
	}
	if err := closeAll(); err != nil {
		return err
	}
	ro = false
	if err := reopen(); err != nil {
		return err
	}
	if err := checkStore(s, m, nil); err != nil {
		return failf("%s opened again after closing everything: %v", c.Eng.Name, err)
	}
	return closeAll()
}

// badOpen tries an open that has to be refused and looks for what it leaves behind.
func (c *relCase) badOpen(dir string, n int, x *Ctx) error {
	other := filepath.Join(dir, "other")
	cfg := c.Eng.config(other)
	what := ""
	switch c.Eng.Name {
	case "gtreap":
		cfg["path"], what = "x", "a path for the in-memory engine"
	case "boltdb":
		switch n % 4 {
		case 3:
			os.MkdirAll(other, 0o755)
			cfg["path"], cfg["bucket"] = filepath.Join(other, "ro"), "there"
			s, err := c.Eng.openCfg(cfg, nil)
			if err != nil {
				return openErr(err)
			}
			if err := s.Close(); err != nil {
				return failf("closing: %v", err)
			}
			cfg["read_only"], cfg["bucket"] = true, "not there"
			what = "a missing bucket, read-only"
		case 0:
			if err := os.MkdirAll(filepath.Join(other, "db"), 0o755); err != nil {
				return harnessError{err}
			}
			what = "a directory as the file"
		case 1:
			os.MkdirAll(other, 0o755)
			cfg["path"] = filepath.Join(other, "short")
			if err := os.WriteFile(filepath.Join(other, "short"), []byte("no database, but long enough to be looked at"), 0o644); err != nil {
				return harnessError{err}
			}
			what = "a file that is no database"
		default:
			os.MkdirAll(other, 0o755)
			cfg["path"], cfg["bucket"] = filepath.Join(other, "fresh"), ""
			what = "an empty bucket name"
		}
	case "goleveldb":
		switch n % 3 {
		case 0:
			delete(cfg, "create_if_missing")
			cfg["create_if_missing"] = false
			cfg["path"] = filepath.Join(other, "missing")
			what = "a missing store that must not be created"
		case 1:
			cfg["path"] = filepath.Join(dir, "db")
			what = "a store that is open"
		default:
			os.MkdirAll(other, 0o755)
			f := filepath.Join(other, "file")
			if err := os.WriteFile(f, []byte("x"), 0o644); err != nil {
				return harnessError{err}
			}
			cfg["path"] = filepath.Join(f, "db")
			what = "a path below a file"
		}
	case "badger":
		cfg["path"] = filepath.Join(dir, "db")
		what = "a store that is open"
	}
	files, gos := heldFiles(dir), len(engineGoroutines())
	s, err := c.Eng.openCfg(cfg, nil)
	if err == nil {
		s.Close()
		if what == "a store that is open" {
			return failf("%s opened the same path twice at once", c.Eng.Name)
		}
		// which of these an engine refuses is K13's business
		x.Label("not refused: " + what)
		return nil
	}
	x.Label("refused open")
	x.NonTrivial()
	if left := x.settles(len(files), func() []string { return heldFiles(dir) }); left != nil {
		return failf("after the refused open (%s: %v) the process holds %v, before it held %v", what, err, left, files)
	}
	if left := x.settles(gos, engineGoroutines); left != nil {
		return failf("after the refused open (%s: %v) %d goroutines are running, before there were %d", what, err, len(left), gos)
	}
	return nil
}
