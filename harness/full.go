package main

import (
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"

	"github.com/akhenakh/oureadb/store"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- K16

// A fullStep is executed while files cannot grow past a size, if Lim is not negative.
type fullStep struct {
	K   string `json:"k"` // batch, compact, reopen
	N   int    `json:"n,omitempty"`
	Lim int    `json:"lim"` // thousandths of the largest file, 1000 is its very end
	Add int    `json:"add,omitempty"`
	Ops []BOp  `json:"ops,omitempty"`
}

type fullCase struct {
	Eng     Eng        `json:"eng"`
	Partial int        `json:"partial,omitempty"`
	Steps   []fullStep `json:"steps"`
}

func init() {
	register(Prop{ID: "K16", Quick: 8000, Thorough: 160000,
		Rule:   "histories of 2-10 batches, compactions and reopens on Bolt, LevelDB and Badger; some of them run while no file may be written past a generated size (the system refuses the write, as on a full disk), with growing, shrinking and in-place changes; after every step the whole store is compared with the map (unchanged on error, all applied on success), and again after reopening without the limit; non-trivial: a batch was refused by the limit and the content compared after a reopen",
		Assume: []string{"only writes past a file size fail, not syncs; on LevelDB later batches may be refused until the store is opened again, because it keeps the error; Badger is not read after a refused write until it was opened again"}},
		genFull, runFull)
}

func genFull(t *rapid.T) *fullCase {
	c := &fullCase{Eng: genEng(t, "boltdb", "boltdb", "boltdb", "goleveldb", "badger"), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
	pool := genPool(t, 2, 8)
	pool = append(pool, B{'d', 0})
	for i, n := 0, rapid.IntRange(2, 10).Draw(t, "steps"); i < n; i++ {
		st := fullStep{K: "batch", Lim: -1}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0:
			st.K, st.N = "compact", rapid.IntRange(1, 3).Draw(t, "cb")
		case 1:
			st.K = "reopen"
		default:
			st.Ops = genOps(t, pool, bcfg{merge: true, bulk: true, big: true, min: 1, max: 8, maxVal: 20000})
		}
		if rapid.IntRange(0, 1).Draw(t, "limited") == 0 {
			st.Lim = rapid.SampledFrom([]int{0, 250, 500, 750, 1000, 1000}).Draw(t, "lim")
			st.Add = rapid.IntRange(0, 20000).Draw(t, "add")
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

var xfszOnce sync.Once

// limited runs f while no file can be written past a size.
func limited(size int64, f func() error) error {
	// without this the process dies of the signal
	xfszOnce.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	return f()
}

func largestFile(dir string) int64 {
	var n int64
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() > n {
			n = fi.Size()
		}
		return nil
	})
	return n
}

func runFull(c *fullCase, x *Ctx) (err error) {
	dir := x.Dir()
	mo := &testOp{partial: c.Partial}
	s, err := c.Eng.open(dir, mo)
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	broken, refused := false, false
	limit := func(st fullStep) int64 {
		lim := largestFile(dir)*int64(st.Lim)/1000 + int64(st.Add)
		// Bolt commits by writing within its first two pages
		if c.Eng.Name == "boltdb" && lim < 2*int64(os.Getpagesize()) {
			lim = 2 * int64(os.Getpagesize())
		}
		return lim
	}
	reopen := func(where string, lim int64) error {
		s0 := s
		s = nil
		if err := s0.Close(); err != nil && !broken {
			return failf("%s: closing: %v", where, err)
		}
		if lim >= 0 {
			x.Label("opened with a limit")
			err := limited(lim, func() (err error) {
				s, err = c.Eng.open(dir, mo)
				return err
			})
			if err == nil {
				broken = c.Eng.Name != "boltdb"
				return nil
			}
			x.Label("opening refused")
			if s != nil {
				return failf("%s: an error (%v) came with a store", where, err)
			}
			refused = true
		}
		if s, err = c.Eng.open(dir, mo); err != nil {
			return failf("%s: reopening: %v", where, err)
		}
		if refused {
			x.NonTrivial()
		}
		broken = false
		return nil
	}
	for i := 0; i <= len(c.Steps); i++ {
		st := fullStep{K: "reopen", Lim: -1}
		if i < len(c.Steps) {
			st = c.Steps[i]
		}
		where := "step " + strconv.Itoa(i) + " (" + st.K + ") on " + c.Eng.Name
		want, ok := m, true
		run := func() error { return nil }
		switch st.K {
		case "batch":
			ops := expand(st.Ops)
			want, ok = m.apply(ops)
			run = func() error { return execOps(s, ops) }
		case "compact":
			if c.Eng.Name == "badger" {
				continue
			}
			want = m.compacted()
			run = func() error { _, err := compact(s, st.N); return err }
		case "reopen":
			lim := int64(-1)
			if st.Lim >= 0 {
				lim = limit(st)
			}
			if err := reopen(where, lim); err != nil {
				return err
			}
			st.Lim = -1
		}
		if !ok {
			continue
		}
		var err error
		if st.Lim < 0 {
			if err = run(); err != nil && !broken {
				return failf("%s: refused without any limit: %v", where, err)
			}
		} else {
			err = limited(limit(st), run)
			// a background task may have met the limit, even when the batch did not
			broken = broken || c.Eng.Name == "goleveldb"
			x.Label("step with a limit")
		}
		switch {
		case err == nil:
			m = want
		case st.K == "compact":
			// done in several transactions
			x.Label("compaction refused")
			got, gerr := content(s)
			if gerr != nil {
				return failf("%s: reading after a refused compaction: %v", where, gerr)
			}
			for k, v := range m {
				if _, there := got[k]; !there {
					if _, keep := want[k]; keep {
						return failf("%s: a refused compaction removed %x (%x)", where, k, v)
					}
				}
			}
			for k := range m {
				if _, there := got[k]; !there {
					m = m.clone()
					delete(m, k)
				}
			}
		default:
			x.Label("batch refused")
			refused = true
		}
		if err != nil && c.Eng.Name == "badger" {
			// Badger cannot be read after a write failed, until it is opened again
			broken = true
			if err := reopen(where, -1); err != nil {
				return err
			}
		}
		if cerr := checkScan(s, m); cerr != nil {
			return failf("%s: it returned error=%v, then: %v", where, err, cerr)
		}
	}
	return nil
}

func content(s store.KVStore) (Model, error) {
	r, err := s.Reader()
	if err != nil {
		return nil, err
	}
	defer r.Close()
	m, _, err := scanAll(r, 100000)
	return m, err
}
