package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync/atomic"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/null"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- generators

var keyAlphabet = []byte{0x00, 0x01, 'a', 'b', 'd', 'e', 0x7f, 0xfe, 0xff}

func genRawKey(t *rapid.T) B {
	var k []byte
	switch rapid.IntRange(0, 9).Draw(t, "keykind") {
	case 0, 1:
		k = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "key")
	case 2:
		k = append(rapid.SliceOfN(rapid.SampledFrom(keyAlphabet), 1, 2).Draw(t, "key"), bytes.Repeat([]byte{rapid.SampledFrom(keyAlphabet).Draw(t, "pad")}, rapid.IntRange(1, 300).Draw(t, "padn"))...)
	default:
		k = rapid.SliceOfN(rapid.SampledFrom(keyAlphabet), 1, 4).Draw(t, "key")
	}
	if bytes.HasPrefix(k, []byte("!badger!")) {
		k[0] = 'a'
	}
	return k
}

func genPool(t *rapid.T, min, max int) []B {
	return rapid.SliceOfN(rapid.Custom(genRawKey), min, max).Draw(t, "pool")
}

// genKeyFrom draws a key of the pool, a neighbour of one, or a fresh one.
func genKeyFrom(t *rapid.T, pool []B) B {
	i := rapid.IntRange(0, 11).Draw(t, "pick")
	if i == 0 {
		return genRawKey(t)
	}
	k := append(B{}, rapid.SampledFrom(pool).Draw(t, "k")...)
	switch i {
	case 1:
		k = append(k, rapid.SampledFrom(keyAlphabet).Draw(t, "ext"))
	case 2:
		if len(k) > 1 {
			k = k[:len(k)-1]
		} else {
			k[0]++
		}
	case 3:
		k[len(k)-1]++
	}
	return k
}

func genVal(t *rapid.T, max int) Val {
	p := rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "val")
	v := Val{P: p}
	switch rapid.IntRange(0, 11).Draw(t, "vsize") {
	case 0:
		v.P = B{}
	case 1, 2:
		v.Rep = rapid.IntRange(5, 60).Draw(t, "rep")
	case 3:
		v.Rep = rapid.IntRange(60, 700).Draw(t, "rep")
	}
	if len(v.P)*v.Rep > max {
		v.Rep = max / len(v.P)
	}
	return v
}

type bcfg struct {
	merge, fail, bulk bool
	big, long         bool // rarely, a value of up to a megabyte or hundreds of operations
	min, max          int
	maxVal            int
}

func genOps(t *rapid.T, pool []B, c bcfg) []BOp {
	if c.maxVal == 0 {
		c.maxVal = 6000
	}
	n := rapid.IntRange(c.min, c.max).Draw(t, "nops")
	ops := make([]BOp, 0, n)
	if c.big && rare(t, "huge", 300) {
		v := Val{P: B{byte(n), 'h'}, Rep: rapid.SampledFrom([]int{2100, 33000, 70000, 600000}).Draw(t, "hrep")}
		ops = append(ops, BOp{K: "set", Key: genKeyFrom(t, pool), Val: v})
	}
	if c.merge && rare(t, "many", 300) {
		ops = append(ops, manyMerges(t, pool)...)
	}
	if c.long && rare(t, "long", 200) {
		for i := rapid.SampledFrom([]int{130, 300, 1100}).Draw(t, "lops"); i > 0; i-- {
			ops = append(ops, BOp{K: "set", Key: pool[i%len(pool)], Val: Val{P: B{byte(i), byte(i >> 8)}}})
		}
	}
	for i := 0; i < n; i++ {
		o := BOp{Key: genKeyFrom(t, pool)}
		kind := rapid.IntRange(0, 9).Draw(t, "op")
		switch {
		case kind <= 4 || (kind >= 7 && !c.merge):
			o.K, o.Val = "set", genVal(t, c.maxVal)
		case kind <= 6:
			o.K = "del"
		default:
			o.K, o.Val = "merge", genPayload(t, c.fail, c.big)
		}
		ops = append(ops, o)
	}
	if c.bulk && rapid.IntRange(0, 11).Draw(t, "bulk") == 0 {
		n := rapid.IntRange(10, 400).Draw(t, "bn")
		if rapid.IntRange(0, 7).Draw(t, "large") == 0 {
			n = rapid.IntRange(900, 2500).Draw(t, "bn")
		}
		if rare(t, "vast", 16) {
			n += rapid.SampledFrom([]int{4096, 9000}).Draw(t, "vn")
		}
		b := BOp{K: "bulk", Key: genKeyFrom(t, pool), Val: genVal(t, 200), N: n, S: rapid.SampledFrom([]int{1, 7, 4999, 10006}).Draw(t, "bs")}
		if rapid.Bool().Draw(t, "bfirst") {
			ops = append([]BOp{b}, ops...)
		} else {
			ops = append(ops, b)
		}
	}
	return ops
}

// manyMerges are up to hundreds of merges of a key.
func manyMerges(t *rapid.T, pool []B) []BOp {
	var ops []BOp
	k := rapid.SampledFrom(pool).Draw(t, "mk")
	for i := rapid.SampledFrom([]int{17, 40, 150, 400}).Draw(t, "mops"); i > 0; i-- {
		ops = append(ops, BOp{K: "merge", Key: k, Val: Val{P: B{byte(i & 0x7f), byte(i >> 7)}}})
	}
	return ops
}

func genPayload(t *rapid.T, fail, big bool) Val {
	p := rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "payload")
	switch rapid.IntRange(0, 9).Draw(t, "pk") {
	case 0:
		p = append([]byte{payloadEmpty}, p...)
	case 1:
		if fail {
			p = append([]byte{payloadFail}, p...)
		}
	case 2:
		p = bytes.Repeat([]byte{'z'}, rapid.IntRange(30, 200).Draw(t, "plen"))
	}
	if big && rare(t, "plong", 1500) {
		p = bytes.Repeat([]byte{'y'}, rapid.SampledFrom([]int{300, 5000, 70000}).Draw(t, "pbig"))
	}
	if !fail && len(p) > 0 && p[0] == payloadFail {
		p[0] = 1
	}
	return Val{P: p}
}

// runBatch executes ops on the store and the model; without refused merges it must succeed.
func runBatch(s store.KVStore, m Model, ops []BOp) (Model, error) {
	ops = expand(ops)
	want, ok := m.apply(ops)
	err := execOps(s, ops)
	if ok && err != nil {
		return nil, failf("executing a valid batch of %d operations: %v", len(ops), err)
	}
	if !ok {
		return nil, harnessError{fmt.Errorf("unexpected refused merge in this property")}
	}
	return want, nil
}

func openErr(err error) error { return failf("opening the store: %v", err) }

func closeStore(s store.KVStore, perr *error) {
	if err := s.Close(); err != nil && *perr == nil {
		*perr = failf("closing the store: %v", err)
	}
}

// ---------------------------------------------------------------- K01

type mapCase struct {
	Eng     Eng     `json:"eng"`
	Partial int     `json:"partial"`
	Steps   []kstep `json:"steps"`

	Full *fullCase `json:"full,omitempty"` // a history with a full disk instead
}

type kstep struct {
	Op   string `json:"op"`
	Ops  []BOp  `json:"ops,omitempty"`
	Key  B      `json:"key,omitempty"`
	End  B      `json:"end,omitempty"`
	Nil  bool   `json:"nil,omitempty"`
	Keys []B    `json:"keys,omitempty"`
	R    int    `json:"r,omitempty"`
	N    int    `json:"n,omitempty"`
	Ex   bool   `json:"ex,omitempty"`
}

func totalBytes(ops []BOp) store.KVBatchOptions {
	o := store.KVBatchOptions{}
	for _, x := range ops {
		o.TotalBytes += len(x.Key)
		switch x.K {
		case "set":
			o.NumSets++
			o.TotalBytes += len(x.Val.Bytes())
		case "del":
			o.NumDeletes++
		case "merge":
			o.NumMerges++
			o.TotalBytes += len(x.Val.Bytes()) + 1
		}
	}
	return o
}

func init() {
	register(Prop{ID: "K01", Quick: 9000, Thorough: 150000,
		Rule: "histories of 1-14 batches (sets, deletes, merges, bulk loads) interleaved with single and multi-key reads on a random engine and option set, compared with an ordered map after every step; non-trivial: at least two batches that touch a common key"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 2, 10)
			n := rapid.IntRange(1, 14).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{Op: "batch"}
				if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
					s.Op = "mget"
					nk := rapid.IntRange(0, 8).Draw(t, "nk")
					for j := 0; j < nk; j++ {
						s.Keys = append(s.Keys, genKeyFrom(t, pool))
					}
				} else {
					s.Ops = genOps(t, pool, bcfg{merge: true, bulk: true, big: true, max: 8, maxVal: 20000})
					s.Ex = rapid.Bool().Draw(t, "ex")
					// 1: the batch of the step before, reset
					s.R = rapid.IntRange(0, 1).Draw(t, "reuse")
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runMap)
}

func runMap(c *mapCase, x *Ctx) (err error) {
	mo := &testOp{partial: c.Partial}
	s, err := c.Eng.open(x.Dir(), mo)
	if err != nil {
		return openErr(err)
	}
	defer closeStore(s, &err)
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		for _, k := range st.Keys {
			seen[string(k)] = true
		}
		noteKeys(seen, expand(st.Ops))
	}
	uni := universeOf(seen)
	touched := map[string]bool{}
	w, err := s.Writer()
	if err != nil {
		return failf("getting a writer: %v", err)
	}
	var b store.KVBatch
	for i, st := range c.Steps {
		switch st.Op {
		case "batch":
			ops := expand(st.Ops)
			want, _ := m.apply(ops)
			again := i+1 < len(c.Steps) && c.Steps[i+1].Op == "batch" && c.Steps[i+1].R == 1
			if b != nil {
				b.Reset()
			} else if st.Ex {
				_, b, err = w.NewBatchEx(totalBytes(ops))
				if err != nil {
					return failf("step %d: presized batch: %v", i, err)
				}
			} else {
				b = w.NewBatch()
			}
			fill(b, ops)
			if err := w.ExecuteBatch(b); err != nil {
				return failf("step %d: executing a valid batch of %d operations: %v", i, len(ops), err)
			}
			if !again {
				if err := b.Close(); err != nil {
					return failf("step %d: closing a batch: %v", i, err)
				}
				b = nil
			}
			m = want
			for _, o := range ops {
				if touched[string(o.Key)] {
					x.NonTrivial()
				}
			}
			noteKeys(touched, ops)
			if len(ops) > 100 {
				x.Label("bulk batch")
			}
		}
		r, err := s.Reader()
		if err != nil {
			return failf("step %d: getting a reader: %v", i, err)
		}
		if st.Op == "mget" {
			var ks []string
			for _, k := range st.Keys {
				ks = append(ks, string(k))
			}
			err = checkMultiGet(r, m, ks)
			x.Label("multi-key read")
		} else {
			err = checkGets(r, m, uni)
			if err == nil {
				err = checkMultiGet(r, m, uni)
			}
		}
		if cerr := r.Close(); err == nil && cerr != nil {
			err = failf("closing a reader: %v", cerr)
		}
		if err != nil {
			return failf("step %d on %s: %v", i, c.Eng.Name, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- K02

type iterCase struct {
	Eng    Eng     `json:"eng"`
	Data   []BOp   `json:"data"`
	Extra  []BOp   `json:"extra"`
	Prefix bool    `json:"prefix"`
	Key    B       `json:"key"`
	End    B       `json:"end"`
	NilKey bool    `json:"nilkey"`
	NilEnd bool    `json:"nilend"`
	Steps  []kstep `json:"steps"`
	Reopen bool    `json:"reopen"`
	Comp   int     `json:"comp,omitempty"` // compact after the first batch (1), the second (2), both (3)
}

func genWindow(t *rapid.T, pool []B) (prefix bool, key, end B, nilKey, nilEnd bool) {
	prefix = rapid.Bool().Draw(t, "prefix")
	key = genKeyFrom(t, pool)
	if prefix {
		// any prefix of a key, including the empty one
		key = key[:rapid.IntRange(0, len(key)).Draw(t, "plen")]
	} else {
		end = genKeyFrom(t, pool)
		nilKey = rapid.IntRange(0, 5).Draw(t, "nk") == 0
		nilEnd = rapid.IntRange(0, 4).Draw(t, "ne") == 0
		switch rapid.IntRange(0, 9).Draw(t, "far") { // beyond every key
		case 0:
			key = B("\xff\xff\xff\xff\xff\xff")
		case 1:
			end = B("\x00")
		case 2:
			end = B("\xff\xff\xff\xff\xff\xff")
		}
		if !nilKey && !nilEnd && bytes.Compare(key, end) > 0 && rapid.IntRange(0, 3).Draw(t, "inv") != 0 {
			key, end = end, key
		}
	}
	return
}

func init() {
	register(Prop{ID: "K02", Quick: 8000, Thorough: 200000,
		Rule: "a store with 0-40 (sometimes up to 440) keys on a random engine, one prefix or range window, then a random walk of steps and seeks (before, inside, at, after the window) compared with a cursor over a sorted list, then a full pass; non-trivial: the window holds at least two keys and excludes at least one"},
		func(t *rapid.T) *iterCase {
			c := &iterCase{Eng: genEng(t, allEngines...)}
			pool := genPool(t, 2, 14)
			c.Data = genOps(t, pool, bcfg{bulk: true, big: true, min: 1, max: 24, maxVal: 3000})
			for i := range c.Data {
				if c.Data[i].K == "del" && rapid.Bool().Draw(t, "d2s") {
					c.Data[i].K = "set"
				}
			}
			if rapid.Bool().Draw(t, "two") {
				c.Extra = genOps(t, pool, bcfg{max: 10, maxVal: 3000})
			}
			c.Reopen = rapid.IntRange(0, 4).Draw(t, "reopen") == 0
			c.Comp = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "comp")
			c.Prefix, c.Key, c.End, c.NilKey, c.NilEnd = genWindow(t, pool)
			n := rapid.IntRange(0, 14).Draw(t, "walk")
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 2).Draw(t, "w") > 0 {
					c.Steps = append(c.Steps, kstep{Op: "next", N: rapid.IntRange(1, 4).Draw(t, "nn")})
				} else {
					c.Steps = append(c.Steps, kstep{Op: "seek", Key: genKeyFrom(t, pool)})
				}
			}
			return c
		}, runIter)
}

func windowKeys(m Model, prefix bool, key, end []byte, nilEnd bool) []string {
	var out []string
	for _, k := range m.keys() {
		if prefix {
			if bytes.HasPrefix([]byte(k), key) {
				out = append(out, k)
			}
		} else if bytes.Compare([]byte(k), key) >= 0 && (nilEnd || bytes.Compare([]byte(k), end) < 0) {
			out = append(out, k)
		}
	}
	return out
}

func runIter(c *iterCase, x *Ctx) (err error) {
	dir := x.Dir()
	s, err := c.Eng.open(dir, nil)
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	for i, ops := range [][]BOp{c.Data, c.Extra} {
		if m, err = runBatch(s, m, ops); err != nil {
			return err
		}
		if c.Comp>>uint(i)&1 == 1 {
			did, err := compact(s, 0)
			if err != nil {
				return failf("compacting: %v", err)
			}
			if did {
				m = m.compacted()
				x.Label("compacted")
			}
		}
	}
	if c.Reopen && c.Eng.Name != "gtreap" {
		s0 := s
		s = nil
		if err := s0.Close(); err != nil {
			return failf("closing: %v", err)
		}
		if s, err = c.Eng.open(dir, nil); err != nil {
			return openErr(err)
		}
	}
	key, end := []byte(c.Key), []byte(c.End)
	if c.NilKey {
		key = nil
	}
	if c.NilEnd {
		end = nil
	}
	want := windowKeys(m, c.Prefix, key, end, c.NilEnd)
	if len(want) >= 2 && len(m) > len(want) {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("prefix=%v", c.Prefix))
	if len(want) == 0 {
		x.Label("empty window")
	}
	r, err := s.Reader()
	if err != nil {
		return failf("getting a reader: %v", err)
	}
	defer func() {
		if cerr := r.Close(); err == nil && cerr != nil {
			err = failf("closing a reader: %v", cerr)
		}
	}()
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	open := func() store.KVIterator {
		if c.Prefix {
			return r.PrefixIterator(cp(key))
		}
		return r.RangeIterator(cp(key), cp(end))
	}
	desc := fmt.Sprintf("%s range [%s,%s)", c.Eng.Name, show(key), show(end))
	if c.Prefix {
		desc = fmt.Sprintf("%s prefix %s", c.Eng.Name, show(key))
	}
	it := open()
	pos := 0
	walk := "open"
	at := func() error {
		if err := iterAt(it, want, pos, m); err != nil {
			return failf("%s after %s: %v", desc, walk, err)
		}
		return nil
	}
	err = func() error {
		if err := at(); err != nil {
			return err
		}
		for _, st := range c.Steps {
			switch st.Op {
			case "next":
				for i := 0; i < st.N && pos < len(want); i++ {
					it.Next()
					pos++
					walk += ",next"
					if err := at(); err != nil {
						return err
					}
				}
			case "seek":
				if pos >= len(want) {
					x.Label("seek when exhausted")
				}
				it.Seek(cp(st.Key))
				pos = sort.SearchStrings(want, string(st.Key))
				walk += fmt.Sprintf(",seek %x", []byte(st.Key))
				if err := at(); err != nil {
					return err
				}
			}
		}
		return nil
	}()
	if cerr := it.Close(); err == nil && cerr != nil {
		err = failf("closing an iterator: %v", cerr)
	}
	if err != nil {
		return err
	}
	it = open()
	defer it.Close()
	walk = "full pass"
	for pos = 0; pos <= len(want); pos++ {
		if err := at(); err != nil {
			return err
		}
		if pos < len(want) {
			it.Next()
		}
	}
	return nil
}

// iterAt checks that the iterator stands on want[pos], or is exhausted.
func iterAt(it store.KVIterator, want []string, pos int, m Model) error {
	k, v, ok := it.Current()
	if ok != it.Valid() {
		return failf("the one-call accessor says valid=%v, the validity accessor %v", ok, it.Valid())
	}
	if pos >= len(want) {
		if ok {
			return failf("the iterator stands on key %x, expected it to be exhausted", k)
		}
		return nil
	}
	if !ok {
		return failf("the iterator is exhausted, expected key %x", want[pos])
	}
	if string(k) != want[pos] {
		return failf("the iterator stands on key %x, expected %x", k, want[pos])
	}
	if string(v) != m[want[pos]] {
		return failf("the iterator shows value %s for key %x, expected %s", show(v), k, show([]byte(m[want[pos]])))
	}
	if !bytes.Equal(it.Key(), k) || !bytes.Equal(it.Value(), v) {
		return failf("key/value accessors (%s,%s) disagree with the one-call accessor (%s,%s)", show(it.Key()), show(it.Value()), show(k), show(v))
	}
	return nil
}

// ---------------------------------------------------------------- K03

func init() {
	register(Prop{ID: "K03", Quick: 3750, Thorough: 60000,
		Rule:   "histories of batches, compactions, opening up to 4 readers and iterators at arbitrary moments, and reading through any open one; every read is compared with the map as it was when its reader was opened; non-trivial: a read through a reader older than the last batch",
		Assume: []string{"bolt files are presized: bolt documents that a write that must grow its memory map waits for open readers, which a single-threaded history would wait for for ever"}},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 2, 8)
			n := rapid.IntRange(3, 24).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{R: rapid.IntRange(0, 3).Draw(t, "slot")}
				switch rapid.IntRange(0, 13).Draw(t, "kind") {
				case 0, 1, 2, 3:
					s.Op, s.Ops = "batch", genOps(t, pool, bcfg{merge: true, bulk: true, max: 6, maxVal: 2000})
					// one batch, reset every time, or a new one
					s.Ex = rapid.Bool().Draw(t, "reuse")
				case 4, 5:
					s.Op = "reader"
					// look through it at once or only later
					s.N = rapid.IntRange(0, 1).Draw(t, "look")
				case 6:
					s.Op = "rclose"
				case 7, 8:
					s.Op = "iter"
					var p bool
					p, s.Key, s.End, _, s.Nil = genWindow(t, pool)
					if p {
						s.N = 1
					}
				case 9, 10:
					s.Op, s.N = "next", rapid.IntRange(1, 5).Draw(t, "n")
				case 11:
					s.Op = "compact"
				default:
					s.Op = "get"
					s.Keys = []B{genKeyFrom(t, pool), genKeyFrom(t, pool)}
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runSnapshots)
}

type snap struct {
	r     store.KVReader
	m     Model
	gen   int
	it    store.KVIterator
	want  []string
	pos   int
	label string
}

func compact(s store.KVStore, batch int) (bool, error) {
	switch s := s.(type) {
	case *boltdb.Store:
		if batch == 0 {
			return true, s.Compact()
		}
		return true, s.CompactWithBatchSize(batch)
	case *goleveldb.Store:
		if batch == 0 {
			return true, s.Compact()
		}
		return true, s.CompactWithBatchSize(batch)
	}
	return false, nil
}

func (m Model) compacted() Model {
	n := Model{}
	for k, v := range m {
		if k != "" && k[0] == 'd' && v == "\x00" {
			continue
		}
		n[k] = v
	}
	return n
}

func runSnapshots(c *mapCase, x *Ctx) (err error) {
	s, err := c.Eng.presized(x.Dir(), &testOp{partial: c.Partial})
	if err != nil {
		return openErr(err)
	}
	defer closeStore(s, &err)
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		noteKeys(seen, expand(st.Ops))
		for _, k := range st.Keys {
			seen[string(k)] = true
		}
	}
	uni := universeOf(seen)
	snaps := make([]*snap, 4)
	gen := 0
	drop := func(i int) error {
		sn := snaps[i]
		snaps[i] = nil
		if sn == nil {
			return nil
		}
		if sn.it != nil {
			if err := sn.it.Close(); err != nil {
				return failf("closing an iterator: %v", err)
			}
		}
		if err := sn.r.Close(); err != nil {
			return failf("closing a reader: %v", err)
		}
		return nil
	}
	defer func() {
		for i := range snaps {
			if derr := drop(i); err == nil {
				err = derr
			}
		}
	}()
	w, err := s.Writer()
	if err != nil {
		return failf("getting a writer: %v", err)
	}
	defer w.Close()
	batch := w.NewBatch()
	budget := 300 << 10
	verify := func(sn *snap) error {
		if sn.gen < gen {
			x.NonTrivial()
			x.Label("read through an old reader")
		}
		if err := checkGets(sn.r, sn.m, uni); err != nil {
			return err
		}
		if err := checkMultiGet(sn.r, sn.m, uni); err != nil {
			return err
		}
		got, _, err := scanAll(sn.r, len(sn.m)+10)
		if err != nil {
			return err
		}
		return diffModels(got, sn.m)
	}
	for i, st := range c.Steps {
		err := func() error {
			sn := snaps[st.R]
			switch st.Op {
			case "batch":
				for _, o := range expand(st.Ops) {
					budget -= len(o.Key) + len(o.Val.Bytes()) + 64
				}
				if budget < 0 {
					return nil
				}
				if st.Ex {
					ops := expand(st.Ops)
					want, _ := m.apply(ops)
					batch.Reset()
					fill(batch, ops)
					if err := w.ExecuteBatch(batch); err != nil {
						return failf("executing a valid batch of %d operations: %v", len(ops), err)
					}
					m = want
					gen++
					return nil
				}
				nm, err := runBatch(s, m, st.Ops)
				if err != nil {
					return err
				}
				m = nm
				gen++
			case "compact":
				// room for the compaction's own transactions is part of the presized file
				did, err := compact(s, 1000)
				if err != nil {
					return failf("compacting: %v", err)
				}
				if did {
					m = m.compacted()
					gen++
				}
			case "reader":
				if err := drop(st.R); err != nil {
					return err
				}
				r, err := s.Reader()
				if err != nil {
					return failf("getting a reader: %v", err)
				}
				snaps[st.R] = &snap{r: r, m: m, gen: gen}
				if st.N == 0 {
					return nil
				}
				return verify(snaps[st.R])
			case "rclose":
				return drop(st.R)
			case "iter":
				if sn == nil {
					return nil
				}
				if sn.it != nil {
					sn.it.Close()
				}
				if st.N == 1 {
					sn.it = sn.r.PrefixIterator(append([]byte{}, st.Key...))
				} else {
					var end []byte
					if !st.Nil {
						end = append([]byte{}, st.End...)
					}
					sn.it = sn.r.RangeIterator(append([]byte{}, st.Key...), end)
				}
				sn.want, sn.pos = windowKeys(sn.m, st.N == 1, st.Key, st.End, st.Nil), 0
				if sn.gen < gen {
					x.NonTrivial()
					x.Label("iterator opened on an old reader")
				}
				return iterAt(sn.it, sn.want, 0, sn.m)
			case "next":
				if sn == nil || sn.it == nil {
					return nil
				}
				for j := 0; j < st.N && sn.pos < len(sn.want); j++ {
					sn.it.Next()
					sn.pos++
					if err := iterAt(sn.it, sn.want, sn.pos, sn.m); err != nil {
						return err
					}
				}
			case "get":
				if sn != nil {
					return verify(sn)
				}
			}
			return nil
		}()
		if err != nil {
			if _, ok := err.(harnessError); ok {
				return err
			}
			return failf("step %d (%s) on %s: %v", i, st.Op, c.Eng.Name, err)
		}
	}
	for _, sn := range snaps {
		if sn != nil {
			if err := verify(sn); err != nil {
				return failf("at the end on %s, reader opened %d batches ago: %v", c.Eng.Name, gen-sn.gen, err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- K04

func init() {
	register(Prop{ID: "K04", Quick: 3000, Thorough: 60000,
		Rule: "histories in which some batches hold a refused merge, a key the engine rejects (empty, over-long, reserved) or, rarely, too much data for one transaction, at a random position, and histories on a full disk (see K16); after every batch the whole store is compared with the map (unchanged on error, all applied on success), also after reopening; non-trivial: a batch failed and a later batch succeeded"},
		func(t *rapid.T) *mapCase {
			if rapid.IntRange(0, 7).Draw(t, "full") == 7 {
				return &mapCase{Full: genFull(t)}
			}
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 2, 8)
			n := rapid.IntRange(2, 10).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{Op: "batch"}
				fail := rapid.IntRange(0, 1).Draw(t, "mayfail") == 0
				s.Ops = genOps(t, pool, bcfg{merge: true, fail: fail, big: true, max: 8, maxVal: 4000})
				if fail && rapid.Bool().Draw(t, "badkey") {
					bad := BOp{K: rapid.SampledFrom([]string{"set", "set", "del", "merge"}).Draw(t, "bk"), Val: Val{P: B("v")}}
					switch rapid.IntRange(0, 2).Draw(t, "badkind") {
					case 0:
						bad.Key = B{}
					case 1:
						bad.Key = B("!badger!x")
					case 2:
						bad.Key = bytes.Repeat([]byte{'k'}, 70000)
					}
					at := rapid.IntRange(0, len(s.Ops)).Draw(t, "at")
					s.Ops = append(s.Ops[:at:at], append([]BOp{bad}, s.Ops[at:]...)...)
				}
				if rapid.IntRange(0, 4).Draw(t, "re") == 0 {
					s.N = 1
				}
				c.Steps = append(c.Steps, s)
			}
			if rapid.IntRange(0, 30).Draw(t, "huge") == 0 {
				// around what one badger transaction can hold
				h := kstep{Op: "huge", N: rapid.IntRange(400, 600).Draw(t, "keys")}
				switch rapid.IntRange(0, 3).Draw(t, "hugebad") {
				case 0:
					h.Ops = []BOp{{K: "set", Key: B{}, Val: Val{P: B("v")}}}
				case 1:
					h.Ops = []BOp{{K: "set", Key: bytes.Repeat([]byte{'k'}, 70000), Val: Val{P: B("v")}}}
				case 2:
					h.Ops = []BOp{{K: "del", Key: B{}}}
				}
				// 1: store the keys, then delete them all
				h.R = rapid.IntRange(0, 1).Draw(t, "hugedel")
				c.Steps = append(c.Steps, h, kstep{Op: "batch", Ops: genOps(t, pool, bcfg{min: 1, max: 3})})
			}
			return c
		}, runFailing)
}

// mayReject says whether an engine is allowed to refuse the batch.
func mayReject(e Eng, ops []BOp) bool {
	for _, o := range ops {
		if len(o.Key) == 0 || len(o.Key) > 30000 || bytes.HasPrefix(o.Key, []byte("!badger!")) {
			return true
		}
	}
	return false
}

// hugeKey is the rest of the keys of a step called huge.
var hugeKey = bytes.Repeat([]byte{'h'}, 20000)

func runFailing(c *mapCase, x *Ctx) (err error) {
	if c.Full != nil {
		return runFull(c.Full, x)
	}
	dir := x.Dir()
	mo := &testOp{partial: c.Partial}
	s, err := c.Eng.open(dir, mo)
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		for _, o := range st.Ops {
			if len(o.Key) > 0 {
				seen[string(o.Key)] = true
			}
		}
	}
	uni := universeOf(seen)
	failed := false
	for i, st := range c.Steps {
		ops := expand(st.Ops)
		if st.Op == "huge" {
			// long keys and short values, then the operations of the step
			var h []BOp
			for j := 0; j < st.N; j++ {
				h = append(h, BOp{K: "set", Key: append(B(fmt.Sprintf("huge%d-", j)), hugeKey...), Val: Val{P: B("v")}})
			}
			if st.R == 1 {
				for j := 0; j < len(h); j += 100 {
					k := minI(j+100, len(h))
					if err := execOps(s, h[j:k]); err != nil {
						return failf("step %d on %s: a batch of 100 long keys was refused: %v", i, c.Eng.Name, err)
					}
					m, _ = m.apply(h[j:k])
				}
				for j := range h {
					h[j].K = "del"
				}
			}
			ops = append(h, ops...)
		}
		want, ok := m.apply(ops)
		err := execOps(s, ops)
		if err == nil && !ok {
			return failf("step %d on %s: the merge operator refused a merge but the batch reported success", i, c.Eng.Name)
		}
		if err != nil && ok && st.Op != "huge" && !mayReject(c.Eng, ops) {
			return failf("step %d on %s: a valid batch was refused: %v", i, c.Eng.Name, err)
		}
		if err != nil {
			failed = true
			x.Label("batch failed")
			if ok {
				x.Label("batch failed, not by merge")
			}
		} else {
			m = want
			if failed {
				x.NonTrivial()
			}
		}
		if st.N == 1 && st.Op == "batch" && c.Eng.Name != "gtreap" {
			s0 := s
			s = nil
			if err := s0.Close(); err != nil {
				return failf("step %d on %s: closing: %v", i, c.Eng.Name, err)
			}
			if s, err = c.Eng.open(dir, mo); err != nil {
				return failf("step %d on %s: reopening: %v", i, c.Eng.Name, err)
			}
			x.Label("reopened")
		}
		if cerr := checkStore(s, m, uni); cerr != nil {
			return failf("step %d on %s: after a batch of %d operations that returned error=%v: %v", i, c.Eng.Name, len(ops), err, cerr)
		}
	}
	return nil
}

// ---------------------------------------------------------------- K05

func init() {
	register(Prop{ID: "K05", Quick: 12000, Thorough: 150000,
		Rule: "histories of merge-heavy batches over 1-4 keys with sets and deletes of the same keys mixed in, with an operator that is order sensitive, tells an absent key from an empty value, and combines operands never, always or sometimes; the value and every argument seen by the operator are compared with the reference; non-trivial: a key receives two or more merges in one batch, or a merge plus a set or delete"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 1, 4)
			n := rapid.IntRange(1, 10).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{Op: "batch", R: rapid.IntRange(0, 1).Draw(t, "w")}
				k := rapid.IntRange(0, 9).Draw(t, "nops")
				for j := 0; j < k; j++ {
					o := BOp{Key: rapid.SampledFrom(pool).Draw(t, "k")}
					switch rapid.IntRange(0, 7).Draw(t, "op") {
					case 0:
						o.K, o.Val = "set", genVal(t, 300)
					case 1:
						o.K = "del"
					default:
						o.K, o.Val = "merge", genPayload(t, false, true)
					}
					s.Ops = append(s.Ops, o)
				}
				if rare(t, "many", 200) {
					s.Ops = append(s.Ops, manyMerges(t, pool)...)
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runMerges)
}

func runMerges(c *mapCase, x *Ctx) (err error) {
	mo := &testOp{partial: c.Partial}
	s, err := c.Eng.open(x.Dir(), mo)
	if err != nil {
		return openErr(err)
	}
	defer closeStore(s, &err)
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		noteKeys(seen, st.Ops)
	}
	uni := universeOf(seen)
	var ws [2]store.KVWriter
	for i := range ws {
		if ws[i], err = s.Writer(); err != nil {
			return failf("getting a writer: %v", err)
		}
	}
	for i, st := range c.Steps {
		want, _ := m.apply(st.Ops)
		mo.log = nil
		w := ws[st.R]
		b := w.NewBatch()
		fill(b, st.Ops)
		err := w.ExecuteBatch(b)
		b.Close()
		where := fmt.Sprintf("step %d on %s", i, c.Eng.Name)
		if mo.bad != "" {
			return failf("%s: %s", where, mo.bad)
		}
		if err != nil {
			return failf("%s: executing a valid batch: %v", where, err)
		}
		// the arguments the operator saw
		operands := map[string][][]byte{}
		kinds := map[string]int{}
		for _, o := range st.Ops {
			if o.K == "merge" {
				operands[string(o.Key)] = append(operands[string(o.Key)], frame(o.Val.Bytes()))
			} else {
				kinds[string(o.Key)]++
			}
		}
		for k, v := range operands {
			if len(v) > 1 {
				x.NonTrivial()
				x.Label("several merges of a key in a batch")
			}
			if kinds[k] > 0 {
				x.NonTrivial()
				x.Label("merge and set or delete of a key in a batch")
			}
		}
		called := map[string]int{}
		for _, f := range mo.log {
			called[f.key]++
			ops, ok := operands[f.key]
			if !ok {
				return failf("%s: the operator was called for key %x, which has no merge in the batch", where, f.key)
			}
			ex, present := m[f.key]
			if f.absent == present {
				return failf("%s: key %x present=%v before the batch, but the operator was given nil=%v", where, f.key, present, f.absent)
			}
			if f.existing != ex {
				return failf("%s: key %x held %s before the batch, but the operator was given %s", where, f.key, show([]byte(ex)), show([]byte(f.existing)))
			}
			if got, exp := joined(f.operands...), joined(ops...); !bytes.Equal(got, exp) {
				return failf("%s: key %x: operator was given operands %x, expected %x in this order", where, f.key, got, exp)
			}
			if c.Partial == 0 && len(f.operands) != len(ops) {
				return failf("%s: key %x: %d operands given, the operator saw %d", where, f.key, len(ops), len(f.operands))
			}
		}
		m = want
		r, err := s.Reader()
		if err != nil {
			return failf("%s: getting a reader: %v", where, err)
		}
		err = checkGets(r, m, uni)
		if cerr := r.Close(); err == nil && cerr != nil {
			err = failf("closing a reader: %v", cerr)
		}
		if err != nil {
			return failf("%s: %v", where, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- K06

func init() {
	register(Prop{ID: "K06", Quick: 6000, Thorough: 80000,
		Rule: "batches built from one scratch buffer that is overwritten after every call (or from the presized buffer), then values returned by reads are overwritten or kept across further batches, iteration, reader close and store close; non-trivial: the batch has at least two operations, or a kept value outlives a batch"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 1, 6)
			n := rapid.IntRange(1, 8).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{Op: "batch", Ops: genOps(t, pool, bcfg{merge: true, min: 0, max: 8, maxVal: 4000}), Ex: rapid.Bool().Draw(t, "ex")}
				s.N = rapid.IntRange(0, 3).Draw(t, "reads")
				s.R = rapid.IntRange(0, 2).Draw(t, "how")
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runOwnership)
}

func runOwnership(c *mapCase, x *Ctx) (err error) {
	s, err := c.Eng.presized(x.Dir(), &testOp{partial: c.Partial})
	if err != nil {
		return openErr(err)
	}
	closed := false
	defer func() {
		if !closed {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		noteKeys(seen, st.Ops)
	}
	uni := universeOf(seen)
	type keptVal struct {
		b    []byte
		want string
		step int
	}
	var kept []keptVal
	checkKept := func(when string) error {
		return touch("a value kept by the caller", func() error {
			for _, k := range kept {
				if string(k.b) != k.want {
					return failf("a value returned at step %d (%s) changed to %s %s", k.step, show([]byte(k.want)), show(k.b), when)
				}
			}
			return nil
		})
	}
	for i, st := range c.Steps {
		where := fmt.Sprintf("step %d on %s", i, c.Eng.Name)
		want, _ := m.apply(st.Ops)
		w, err := s.Writer()
		if err != nil {
			return failf("%s: getting a writer: %v", where, err)
		}
		var b store.KVBatch
		scratch := make([]byte, 0, 1<<16)
		if st.Ex {
			o := totalBytes(st.Ops)
			var buf []byte
			if buf, b, err = w.NewBatchEx(o); err != nil {
				return failf("%s: presized batch: %v", where, err)
			}
			scratch = buf[:0]
		} else {
			b = w.NewBatch()
		}
		for _, o := range st.Ops {
			v := o.Val.Bytes()
			if o.K == "merge" {
				v = frame(v)
			}
			scratch = append(append(scratch[:0], o.Key...), v...)
			k, v := scratch[:len(o.Key):len(o.Key)], scratch[len(o.Key):]
			switch o.K {
			case "set":
				b.Set(k, v)
			case "del":
				b.Delete(k)
			case "merge":
				b.Merge(k, v)
			}
			all := scratch[:cap(scratch)]
			for j := range all {
				all[j] = 0xAA
			}
		}
		if len(st.Ops) >= 2 {
			x.NonTrivial()
		}
		if err := w.ExecuteBatch(b); err != nil {
			return failf("%s: executing a valid batch: %v", where, err)
		}
		b.Close()
		w.Close()
		m = want
		r, err := s.Reader()
		if err != nil {
			return failf("%s: getting a reader: %v", where, err)
		}
		err = func() error {
			if err := checkGets(r, m, uni); err != nil {
				return failf("after the caller reused its buffers: %v", err)
			}
			for n := 0; n < st.N; n++ {
				var vals [][]byte
				var ks []string
				if st.R == 0 {
					ks = uni
					for _, k := range ks {
						v, err := r.Get([]byte(k))
						if err != nil {
							return failf("reading: %v", err)
						}
						vals = append(vals, v)
					}
				} else {
					ks = uni
					kb := make([][]byte, len(ks))
					for j, k := range ks {
						kb[j] = []byte(k)
					}
					var err error
					if vals, err = r.MultiGet(kb); err != nil {
						return failf("multi-key read: %v", err)
					}
					for j, k := range ks {
						if string(kb[j]) != k {
							return failf("a multi-key read changed the keys it was given")
						}
					}
				}
				for j, v := range vals {
					if v == nil {
						continue
					}
					if n%2 == 0 {
						v := v
						if err := touch("a value returned by a read", func() error {
							for q := range v {
								v[q] ^= 0xff
							}
							_ = append(v[:0:len(v)], make([]byte, len(v))...)
							return nil
						}); err != nil {
							return err
						}
						x.Label("value overwritten by the caller")
					} else {
						kept = append(kept, keptVal{v, m[ks[j]], i})
					}
				}
				if err := checkGets(r, m, uni); err != nil {
					return failf("after the caller overwrote returned values: %v", err)
				}
			}
			_, _, err := scanAll(r, len(m)+10)
			return err
		}()
		if cerr := r.Close(); err == nil && cerr != nil {
			err = failf("closing a reader: %v", cerr)
		}
		if err == nil {
			err = checkStore(s, m, uni)
		}
		if err == nil {
			err = checkKept("after later activity")
		}
		if err != nil {
			return failf("%s: %v", where, err)
		}
		if len(kept) > 0 && i > kept[0].step {
			x.NonTrivial()
			x.Label("kept value outlived a batch")
		}
	}
	closed = true
	if err := s.Close(); err != nil {
		return failf("closing: %v", err)
	}
	if err := checkKept("after the store was closed"); err != nil {
		return failf("on %s: %v", c.Eng.Name, err)
	}
	return nil
}

// ---------------------------------------------------------------- K07

// foreignBatch is a batch no store created.
type foreignBatch struct{}

func (foreignBatch) Set(key, val []byte)   {}
func (foreignBatch) Delete(key []byte)     {}
func (foreignBatch) Merge(key, val []byte) {}
func (foreignBatch) Reset()                {}
func (foreignBatch) Close() error          { return nil }

func init() {
	register(Prop{ID: "K07", Quick: 8000, Thorough: 80000,
		Rule: "one or two long-lived batches that are filled, executed by either of two writers, reset (before or after execution, or after a refused merge) and filled again; presized buffers and foreign batches in between; compared with the map after every execution; non-trivial: an execution that follows a reset of a non-empty batch"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, allEngines...), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 1, 6)
			n := rapid.IntRange(2, 16).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{R: rapid.IntRange(0, 1).Draw(t, "batch"), N: rapid.IntRange(0, 1).Draw(t, "writer")}
				switch rapid.IntRange(0, 9).Draw(t, "kind") {
				case 0, 1, 2:
					s.Op, s.Ops = "fill", genOps(t, pool, bcfg{merge: true, fail: true, long: true, max: 6, maxVal: 500})
				case 3, 4, 5:
					s.Op = "exec"
				case 6, 7:
					s.Op = "reset"
				case 8:
					s.Op, s.N = "presize", rapid.SampledFrom([]int{0, 1, 7, 100, 4096, 65537, 1 << 20, 3<<20 + 1, 17 << 20}).Draw(t, "sz")
					s.R = rapid.IntRange(0, 5).Draw(t, "counts")
				default:
					s.Op = "foreign"
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runReset)
}

func runReset(c *mapCase, x *Ctx) (err error) {
	s, err := c.Eng.open(x.Dir(), &testOp{partial: c.Partial})
	if err != nil {
		return openErr(err)
	}
	defer closeStore(s, &err)
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		noteKeys(seen, st.Ops)
	}
	uni := universeOf(seen)
	var ws [2]store.KVWriter
	var bs [2]store.KVBatch
	var content [2][]BOp
	var dirty, wasReset [2]bool // executed since the last reset
	for i := range ws {
		if ws[i], err = s.Writer(); err != nil {
			return failf("getting a writer: %v", err)
		}
		bs[i] = ws[i].NewBatch()
	}
	// a batch of a different implementation: goleveldb's for the others, an emulated one for goleveldb
	other := Eng{Name: "goleveldb"}
	if c.Eng.Name == "goleveldb" {
		other = Eng{Name: "gtreap"}
	}
	for i, st := range c.Steps {
		where := fmt.Sprintf("step %d (%s) on %s", i, st.Op, c.Eng.Name)
		j := st.R & 1
		switch st.Op {
		case "fill":
			if dirty[j] {
				// adding to an executed batch without a reset is not specified
				bs[j].Reset()
				content[j], dirty[j], wasReset[j] = nil, false, true
			}
			fill(bs[j], st.Ops)
			content[j] = append(content[j], st.Ops...)
		case "reset":
			if len(content[j]) > 0 {
				wasReset[j] = true
			}
			bs[j].Reset()
			content[j], dirty[j] = nil, false
		case "exec":
			if dirty[j] {
				continue
			}
			want, ok := m.apply(content[j])
			err := ws[st.N&1].ExecuteBatch(bs[j])
			if ok && err != nil {
				return failf("%s: executing a valid batch: %v", where, err)
			}
			if !ok && err == nil {
				return failf("%s: a refused merge was reported as success", where)
			}
			if ok {
				m = want
			}
			dirty[j] = true
			if wasReset[j] {
				x.NonTrivial()
				x.Label("executed after reset")
			}
			if err := checkStore(s, m, uni); err != nil {
				return failf("%s: %v", where, err)
			}
		case "presize":
			buf, b, err := ws[j].NewBatchEx(store.KVBatchOptions{TotalBytes: st.N, NumSets: st.R, NumDeletes: st.R / 2, NumMerges: st.R / 3})
			if err != nil {
				return failf("%s: presized batch of %d bytes: %v", where, st.N, err)
			}
			if len(buf) != st.N {
				return failf("%s: asked for a buffer of %d bytes, got %d", where, st.N, len(buf))
			}
			if b == nil {
				return failf("%s: no batch", where)
			}
			if err := ws[j].ExecuteBatch(b); err != nil {
				return failf("%s: executing an empty presized batch: %v", where, err)
			}
			b.Close()
		case "foreign":
			os2, err := other.open(x.Dir(), &testOp{})
			if err != nil {
				return openErr(err)
			}
			ow, err := os2.Writer()
			if err != nil {
				return failf("getting a writer: %v", err)
			}
			ob := ow.NewBatch()
			if len(uni) > 0 {
				ob.Set([]byte(uni[0]), []byte("foreign"))
			}
			for n, fb := range []store.KVBatch{ob, foreignBatch{}} {
				if err := ws[j].ExecuteBatch(fb); err == nil {
					return failf("%s: a foreign batch (%d) was accepted", where, n)
				}
			}
			ob.Close()
			if err := os2.Close(); err != nil {
				return failf("closing: %v", err)
			}
			x.Label("foreign batch")
			if err := checkStore(s, m, uni); err != nil {
				return failf("%s: after a foreign batch was refused: %v", where, err)
			}
		}
	}
	for _, b := range bs {
		b.Close()
	}
	return checkStore(s, m, uni)
}

// ---------------------------------------------------------------- K08

func init() {
	register(Prop{ID: "K08", Quick: 2500, Thorough: 40000,
		Rule: "histories of batches, compactions and close/reopen (with other compatible tuning options) on Bolt, LevelDB and Badger; full scan and reads compared with the map after every reopen; non-trivial: a reopen after at least two batches, followed by another batch and reopen"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, "boltdb", "goleveldb", "badger"), Partial: rapid.IntRange(0, 2).Draw(t, "partial")}
			pool := genPool(t, 2, 10)
			n := rapid.IntRange(2, 14).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{}
				switch rapid.IntRange(0, 8).Draw(t, "kind") {
				case 0, 1, 2, 3, 4:
					s.Op, s.Ops = "batch", genOps(t, pool, bcfg{merge: true, bulk: true, big: true, max: 8, maxVal: 20000})
				case 5:
					s.Op = "compact"
				default:
					s.Op, s.N = "reopen", rapid.IntRange(0, 3).Draw(t, "variant")
				}
				c.Steps = append(c.Steps, s)
			}
			c.Steps = append(c.Steps, kstep{Op: "reopen"})
			return c
		}, runReopen)
}

func (e Eng) variant(n int) Eng {
	v := e
	switch n {
	case 1:
		v.NoSync, v.Fill, v.WB, v.LRU = !e.NoSync, 0.2, 2048, 1
	case 2:
		v.Fill, v.BS, v.BRI = 0.95, 128, 2
	case 3:
		v.WB, v.Bloom = 0, 7
	}
	return v
}

func runReopen(c *mapCase, x *Ctx) (err error) {
	dir := x.Dir()
	mo := &testOp{partial: c.Partial}
	s, err := c.Eng.open(dir, mo)
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	seen := map[string]bool{}
	for _, st := range c.Steps {
		noteKeys(seen, expand(st.Ops))
	}
	uni := universeOf(seen)
	batches, stage := 0, 0
	for i, st := range c.Steps {
		where := fmt.Sprintf("step %d (%s) on %s", i, st.Op, c.Eng.Name)
		switch st.Op {
		case "batch":
			if m, err = runBatch(s, m, st.Ops); err != nil {
				if _, ok := err.(harnessError); ok {
					return err
				}
				return failf("%s: %v", where, err)
			}
			batches++
		case "compact":
			did, err := compact(s, 0)
			if err != nil {
				return failf("%s: %v", where, err)
			}
			if did {
				m = m.compacted()
			}
		case "reopen":
			s0 := s
			s = nil
			if err := s0.Close(); err != nil {
				return failf("%s: closing: %v", where, err)
			}
			if s, err = c.Eng.variant(st.N).open(dir, mo); err != nil {
				return failf("%s: reopening: %v", where, err)
			}
			if stage == 1 && batches > 0 {
				x.NonTrivial()
			}
			if batches >= 2 {
				stage = 1
				batches = 0
			}
			if err := checkStore(s, m, uni); err != nil {
				return failf("%s: after reopening: %v", where, err)
			}
			x.Label("reopened")
		}
	}
	return nil
}

// ---------------------------------------------------------------- K10

type compactCase struct {
	Eng    Eng   `json:"eng"`
	Data   []BOp `json:"data"`
	Extra  []BOp `json:"extra"`
	Batch  []int `json:"batch"`
	Reader bool  `json:"reader"`
	Reopen bool  `json:"reopen"`
	Busy   int   `json:"busy,omitempty"` // rounds of a writer that works while compactions run
}

func init() {
	register(Prop{ID: "K10", Quick: 2500, Thorough: 40000,
		Rule: "key sets dense around the dictionary prefix (c, d, d\\x00, dx, d\\xff, e, D) with values empty, 00, 00 00, 01, 30, then one or two compactions with batch sizes from 1 up; the whole store is compared with the map minus exactly the zero-count dictionary entries, as is an open reader with the map before; non-trivial: at least one entry is removed and one entry with prefix d stays"},
		func(t *rapid.T) *compactCase {
			c := &compactCase{Eng: genEng(t, "boltdb", "goleveldb")}
			gen := func(max int) []BOp {
				var ops []BOp
				for n := rapid.IntRange(0, max).Draw(t, "n"); n > 0; n-- {
					k := B(rapid.SampledFrom([]string{"d", "d", "d", "d", "dd", "c", "e", "D", "\x00d", "d\x00", "d\xff", "c\xff"}).Draw(t, "p"))
					k = append(k, rapid.SliceOfN(rapid.SampledFrom(keyAlphabet), 0, 3).Draw(t, "s")...)
					v := rapid.SampledFrom([]string{"\x00", "\x00", "\x00", "", "\x00\x00", "\x01", "0", "\x00x", "x\x00"}).Draw(t, "v")
					ops = append(ops, BOp{K: "set", Key: k, Val: Val{P: B(v)}})
				}
				return ops
			}
			c.Data, c.Extra = gen(40), gen(15)
			if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
				// more entries than a default batch
				n := rapid.IntRange(100, 700).Draw(t, "many-n")
				for i := 0; i < n; i++ {
					c.Data = append(c.Data, BOp{K: "set", Key: B(fmt.Sprintf("dm%03d", i)), Val: Val{P: B("\x00")}})
				}
				c.Batch = []int{rapid.SampledFrom([]int{0, 50, 99, 100, 101, 250, 1000}).Draw(t, "batch")}
			} else {
				c.Batch = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 40, 1000}), 1, 2).Draw(t, "batch")
				if len(c.Data)+len(c.Extra) > 25 {
					for i := range c.Batch {
						if c.Batch[i] == 1 {
							c.Batch[i] = 4
						}
					}
				}
			}
			c.Reader = rapid.Bool().Draw(t, "reader")
			c.Reopen = rapid.IntRange(0, 4).Draw(t, "reopen") == 0
			if rapid.IntRange(0, 5).Draw(t, "busy") == 0 {
				c.Reader = false
				c.Busy = rapid.IntRange(5, 60).Draw(t, "rounds")
			}
			return c
		}, runCompact)
}

func runCompact(c *compactCase, x *Ctx) (err error) {
	dir := x.Dir()
	var s store.KVStore
	if c.Reader {
		s, err = c.Eng.presized(dir, nil)
	} else {
		s, err = c.Eng.open(dir, nil)
	}
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			closeStore(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	if m, err = runBatch(s, m, c.Data); err != nil {
		return err
	}
	for i, bs := range c.Batch {
		if i == 1 {
			if m, err = runBatch(s, m, c.Extra); err != nil {
				return err
			}
		}
		where := fmt.Sprintf("%s, compaction %d with batch size %d", c.Eng.Name, i, bs)
		before := m
		var r store.KVReader
		if c.Reader {
			if r, err = s.Reader(); err != nil {
				return failf("%s: getting a reader: %v", where, err)
			}
			x.Label("open reader")
		}
		if _, err = compact(s, bs); err == nil {
			m = m.compacted()
		} else {
			err = failf("%s: %v", where, err)
		}
		if r != nil {
			if err == nil {
				var got Model
				if got, _, err = scanAll(r, len(before)+10); err == nil {
					err = diffModels(got, before)
				}
				if err != nil {
					err = failf("%s: a reader opened before it: %v", where, err)
				}
			}
			if cerr := r.Close(); err == nil && cerr != nil {
				err = failf("%s: closing a reader: %v", where, cerr)
			}
		}
		if err != nil {
			return err
		}
		kept := 0
		for k := range m {
			if k[0] == 'd' {
				kept++
			}
		}
		if len(before) > len(m) && kept > 0 {
			x.NonTrivial()
		}
		x.Label(fmt.Sprintf("batch size %d", bs))
		if c.Reopen {
			s0 := s
			s = nil
			if err := s0.Close(); err != nil {
				return failf("%s: closing: %v", where, err)
			}
			if s, err = c.Eng.open(dir, nil); err != nil {
				return failf("%s: reopening: %v", where, err)
			}
		}
		if err := checkStore(s, m, m.keys()); err != nil {
			return failf("%s: %v", where, err)
		}
	}
	if c.Busy > 0 {
		x.Label("writer during compaction")
		return compactBusy(s, m, c, x)
	}
	return nil
}

// compactBusy turns rows to zero and back while compactions run one after another: a row
// whose batch left it different from zero has to be there.
func compactBusy(s store.KVStore, m Model, c *compactCase, x *Ctx) (err error) {
	stop := make(chan struct{})
	done := make(chan error, 1)
	var runs atomic.Int64
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- failf("compaction with a writer at work: panic: %v", e)
			}
		}()
		for {
			select {
			case <-stop:
				done <- nil
				return
			default:
			}
			if _, err := compact(s, c.Batch[0]); err != nil {
				done <- failf("compaction with a writer at work: %v", err)
				return
			}
			runs.Add(1)
		}
	}()
	// the compactor is waited for whatever happens
	defer func() {
		close(stop)
		if e := <-done; err == nil {
			err = e
		}
		if err != nil {
			return
		}
		if _, e := compact(s, c.Batch[0]); e != nil {
			err = failf("compaction after the writer: %v", e)
			return
		}
		if e := checkStore(s, m.compacted(), m.keys()); e != nil {
			err = failf("%s: compactions with a writer at work: %v", c.Eng.Name, e)
		}
	}()
	for i := 0; i < c.Busy; i++ {
		row := string([]byte{'d', '!', byte('a' + i%3)})
		other := fmt.Sprintf("c%03d", i)
		for _, v := range []string{"\x00", "\x00\x05", "\x05"}[i%2:] {
			ops := []BOp{{K: "set", Key: B(row), Val: Val{P: B(v)}}, {K: "set", Key: B(other), Val: Val{P: B(v)}}}
			if m, err = runBatch(s, m, ops); err != nil {
				return failf("batch during a compaction: %v", err)
			}
			if v == "\x00" {
				continue
			}
			r, e := s.Reader()
			if e != nil {
				return failf("getting a reader during a compaction: %v", e)
			}
			got, e := r.Get([]byte(row))
			same := string(got) == v
			if cerr := r.Close(); e == nil && cerr != nil {
				e = cerr
			}
			if e != nil {
				return failf("reading during a compaction: %v", e)
			}
			if !same {
				return failf("%s, round %d: the row %q was set to %x, a compaction running meanwhile leaves it %s", c.Eng.Name, i, row, v, show(got))
			}
		}
	}
	if runs.Load() > 1 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- K12

func init() {
	register(Prop{ID: "K12", Quick: 200000, Thorough: 1600000,
		Rule: "histories of batches (sets, deletes, merges, presized, foreign, reset), reads and iterator moves on the null store; every call must succeed and find nothing; non-trivial: a read of a key that was set before"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{}
			pool := genPool(t, 1, 4)
			n := rapid.IntRange(1, 12).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := kstep{}
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0, 1:
					s.Op, s.Ops = "batch", genOps(t, pool, bcfg{merge: true, fail: true, max: 5, maxVal: 300})
					s.N = rapid.IntRange(0, 5000).Draw(t, "ex")
				case 2:
					s.Op = "mget"
					s.Keys = append(s.Keys, rapid.SliceOfN(rapid.SampledFrom(pool), 0, 5).Draw(t, "keys")...)
				default:
					s.Op = "iter"
					var p bool
					p, s.Key, s.End, s.Ex, s.Nil = genWindow(t, pool)
					if p {
						s.N = 1
					}
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runNull)
}

func runNull(c *mapCase, x *Ctx) error {
	s, err := null.New(&testOp{}, map[string]interface{}{"path": "/nonexistent/x"})
	if err != nil {
		return openErr(err)
	}
	w, err := s.Writer()
	if err != nil {
		return failf("getting a writer: %v", err)
	}
	seen := map[string]bool{}
	for i, st := range c.Steps {
		r, err := s.Reader()
		if err != nil {
			return failf("step %d: getting a reader: %v", i, err)
		}
		switch st.Op {
		case "batch":
			buf, b, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: st.N})
			if err != nil || len(buf) != st.N || b == nil {
				return failf("step %d: presized batch of %d bytes: %d bytes, %v", i, st.N, len(buf), err)
			}
			b2 := w.NewBatch()
			for _, b := range []store.KVBatch{b, b2} {
				fill(b, st.Ops)
				if err := w.ExecuteBatch(b); err != nil {
					return failf("step %d: executing a batch: %v", i, err)
				}
				b.Reset()
				if err := b.Close(); err != nil {
					return failf("step %d: closing a batch: %v", i, err)
				}
			}
			noteKeys(seen, st.Ops)
			for k := range seen {
				v, err := r.Get([]byte(k))
				if v != nil || err != nil {
					return failf("step %d: reading %x: %s, %v", i, k, show(v), err)
				}
			}
			if len(seen) > 0 {
				x.NonTrivial()
			}
		case "mget":
			ks := make([][]byte, len(st.Keys))
			for j := range ks {
				ks[j] = st.Keys[j]
			}
			vs, err := r.MultiGet(ks)
			if err != nil || len(vs) != len(ks) {
				return failf("step %d: multi-key read of %d keys: %d values, %v", i, len(ks), len(vs), err)
			}
			for _, v := range vs {
				if v != nil {
					return failf("step %d: multi-key read found %s", i, show(v))
				}
			}
		case "iter":
			var it store.KVIterator
			if st.N == 1 {
				it = r.PrefixIterator(st.Key)
			} else {
				it = r.RangeIterator(st.Key, st.End)
			}
			for n := 0; n < 3; n++ {
				k, v, ok := it.Current()
				if k != nil || v != nil || ok || it.Valid() || it.Key() != nil || it.Value() != nil {
					return failf("step %d: an iterator of the null store shows %s %s %v", i, show(k), show(v), ok)
				}
				if n == 0 {
					it.Next()
				} else {
					it.Seek(st.Key)
				}
			}
			if err := it.Close(); err != nil {
				return failf("step %d: closing an iterator: %v", i, err)
			}
		}
		if err := r.Close(); err != nil {
			return failf("step %d: closing a reader: %v", i, err)
		}
	}
	w.Close()
	if err := s.Close(); err != nil {
		return failf("closing: %v", err)
	}
	return nil
}

// ---------------------------------------------------------------- K13

type optCase struct {
	Eng   Eng     `json:"eng"`
	Kind  string  `json:"kind"`
	Names []B     `json:"names,omitempty"` // bucket names
	Sets  []int   `json:"sets,omitempty"`  // which bucket each batch goes to
	Ops   []kstep `json:"ops,omitempty"`
	Flags []int   `json:"flags,omitempty"` // tri-state options
	Again int     `json:"again,omitempty"`
}

func init() {
	register(Prop{ID: "K13", Quick: 6000, Thorough: 60000,
		Rule: "open-option scenarios: several Bolt buckets in one file, read-only opens of Bolt and LevelDB, create_if_missing/error_if_exists over missing and existing LevelDB stores, missing, empty and mistyped paths, refused opens followed by correct ones; each against a model of what the option means; non-trivial: an open was refused or a second bucket/read-only store was read"},
		func(t *rapid.T) *optCase {
			c := &optCase{Kind: rapid.SampledFrom([]string{"buckets", "readonly", "createflags", "path"}).Draw(t, "kind")}
			pool := genPool(t, 1, 5)
			switch c.Kind {
			case "buckets":
				c.Eng = genEng(t, "boltdb")
				c.Names = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) B {
					return B(rapid.SliceOfN(rapid.SampledFrom(keyAlphabet), 1, 3).Draw(t, "bucket"))
				}), 2, 4, func(b B) string { return string(b) }).Draw(t, "buckets")
			case "readonly":
				c.Eng = genEng(t, "boltdb", "goleveldb")
			case "createflags":
				c.Eng = genEng(t, "goleveldb")
				c.Flags = rapid.SliceOfN(rapid.IntRange(0, 2), 3, 3).Draw(t, "flags")
			case "path":
				c.Eng = genEng(t, allEngines...)
			}
			c.Again = rapid.IntRange(0, 3).Draw(t, "again")
			n := rapid.IntRange(1, 6).Draw(t, "steps")
			for i := 0; i < n; i++ {
				c.Sets = append(c.Sets, rapid.IntRange(0, 3).Draw(t, "which"))
				c.Ops = append(c.Ops, kstep{Ops: genOps(t, pool, bcfg{min: 1, max: 5, maxVal: 500})})
			}
			return c
		}, runOptions)
}

func runOptions(c *optCase, x *Ctx) error {
	dir := x.Dir()
	x.Label(c.Kind + " " + c.Eng.Name)
	// withStore opens, runs f and closes.
	withStore := func(cfg map[string]interface{}, f func(store.KVStore) error) (err error) {
		s, err := c.Eng.openCfg(cfg, nil)
		if err != nil {
			return openErr(err)
		}
		defer closeStore(s, &err)
		return f(s)
	}
	clone := func(over map[string]interface{}) map[string]interface{} {
		cfg := c.Eng.config(dir)
		for k, v := range over {
			cfg[k] = v
		}
		return cfg
	}
	load := func() (Model, error) {
		m := Model{}
		err := withStore(clone(nil), func(s store.KVStore) error {
			var err error
			for _, st := range c.Ops {
				if m, err = runBatch(s, m, st.Ops); err != nil {
					return err
				}
			}
			return nil
		})
		return m, err
	}
	refused := func(cfg map[string]interface{}, what string) error {
		s, err := c.Eng.openCfg(cfg, nil)
		if err == nil {
			s.Close()
			return failf("%s: %s was accepted", c.Eng.Name, what)
		}
		if s != nil {
			return failf("%s: %s was refused but a store was returned", c.Eng.Name, what)
		}
		x.NonTrivial()
		x.Label("refused open")
		return nil
	}
	switch c.Kind {
	case "buckets":
		models := make([]Model, len(c.Names))
		for i := range models {
			models[i] = Model{}
		}
		for i, st := range c.Ops {
			b := c.Sets[i] % len(c.Names)
			err := withStore(clone(map[string]interface{}{"bucket": string(c.Names[b])}), func(s store.KVStore) error {
				if err := checkScan(s, models[b]); err != nil {
					return failf("bucket %x before step %d: %v", []byte(c.Names[b]), i, err)
				}
				var err error
				models[b], err = runBatch(s, models[b], st.Ops)
				return err
			})
			if err != nil {
				return err
			}
		}
		for b := range c.Names {
			if err := withStore(clone(map[string]interface{}{"bucket": string(c.Names[b])}), func(s store.KVStore) error {
				return checkScan(s, models[b])
			}); err != nil {
				return failf("bucket %x at the end: %v", []byte(c.Names[b]), err)
			}
			if len(models[b]) > 0 {
				x.NonTrivial()
			}
		}
		// a bucket name Bolt cannot create is refused and leaves the file usable
		if c.Again > 0 {
			if err := refused(clone(map[string]interface{}{"bucket": ""}), "an empty bucket name"); err != nil {
				return err
			}
			if err := withStore(clone(map[string]interface{}{"bucket": string(c.Names[0])}), func(s store.KVStore) error { return checkScan(s, models[0]) }); err != nil {
				return failf("after a refused open: %v", err)
			}
		}
	case "readonly":
		m, err := load()
		if err != nil {
			return err
		}
		before := readTree(filepath.Join(dir, "db"))
		if c.Eng.Name == "boltdb" {
			before = readTree(dir)
		}
		for n := 0; n <= c.Again%2; n++ {
			err = withStore(clone(map[string]interface{}{"read_only": true}), func(s store.KVStore) error {
				if err := checkStore(s, m, m.keys()); err != nil {
					return failf("read-only: %v", err)
				}
				if err := execOps(s, []BOp{{K: "set", Key: B("ro"), Val: Val{P: B("x")}}, {K: "del", Key: B("a")}}); err == nil {
					return failf("%s: a write to a read-only store reported success", c.Eng.Name)
				}
				if did, err := compact(s, 0); did && err == nil && c.Eng.Name == "goleveldb" {
					return failf("%s: compacting a read-only store reported success", c.Eng.Name)
				}
				x.NonTrivial()
				if err := checkStore(s, m, m.keys()); err != nil {
					return failf("read-only, after a refused write: %v", err)
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		if c.Eng.Name == "boltdb" {
			after := readTree(dir)
			for f, b := range before {
				if after[f] != b {
					return failf("a read-only session changed file %s", f)
				}
			}
		}
		if c.Again == 3 && c.Eng.Name == "boltdb" {
			// a bucket that is not there cannot be served read-only
			if err := refused(clone(map[string]interface{}{"read_only": true, "bucket": "missing-bucket"}), "a read-only open of a missing bucket"); err != nil {
				return err
			}
		}
		return withStore(clone(map[string]interface{}{"read_only": false}), func(s store.KVStore) error {
			if err := checkStore(s, m, m.keys()); err != nil {
				return failf("after a read-only session: %v", err)
			}
			m2, err := runBatch(s, m, c.Ops[0].Ops)
			if err != nil {
				return err
			}
			return checkStore(s, m2, m2.keys())
		})
	case "createflags":
		exists := c.Flags[0] > 0
		m := Model{}
		if exists {
			var err error
			if m, err = load(); err != nil {
				return err
			}
		}
		cfg := clone(nil)
		delete(cfg, "create_if_missing")
		wantOpen := true
		if c.Flags[1] > 0 {
			cfg["create_if_missing"] = c.Flags[1] == 1
			if c.Flags[1] == 2 && !exists {
				wantOpen = false
			}
		}
		if c.Flags[2] > 0 {
			cfg["error_if_exists"] = c.Flags[2] == 1
			if c.Flags[2] == 1 && exists {
				wantOpen = false
			}
		}
		what := fmt.Sprintf("opening with exists=%v create_if_missing=%v error_if_exists=%v", exists, cfg["create_if_missing"], cfg["error_if_exists"])
		if wantOpen {
			if err := withStore(cfg, func(s store.KVStore) error { return checkStore(s, m, m.keys()) }); err != nil {
				return failf("%s: %v", what, err)
			}
		} else {
			for n := 0; n <= c.Again%2; n++ {
				if err := refused(cfg, what); err != nil {
					return err
				}
			}
		}
		return withStore(clone(nil), func(s store.KVStore) error {
			if err := checkStore(s, m, m.keys()); err != nil {
				return failf("after %s: %v", what, err)
			}
			return nil
		})
	case "path":
		file := c.Eng.Name != "gtreap"
		m := Model{}
		if file {
			var err error
			if m, err = load(); err != nil {
				return err
			}
		}
		bad := []interface{}{nil, 7, []byte("x")}
		if file {
			bad = append(bad, "")
		} else {
			bad = append(bad, filepath.Join(dir, "x"), " ")
		}
		for _, p := range bad {
			cfg := c.Eng.config(dir)
			cfg["path"] = p
			if err := refused(cfg, fmt.Sprintf("path %#v", p)); err != nil {
				return err
			}
		}
		cfg := c.Eng.config(dir)
		delete(cfg, "path")
		if err := refused(cfg, "a configuration without path"); err != nil {
			return err
		}
		if err := refused(map[string]interface{}{}, "an empty configuration"); err != nil {
			return err
		}
		if file && c.Again > 0 {
			// a path that cannot be opened: its parent is a regular file
			f := filepath.Join(dir, "plain")
			must(os.WriteFile(f, []byte("plain file"), 0o600))
			if c.Eng.Name != "boltdb" || c.Again > 1 {
				cfg := clone(map[string]interface{}{"path": filepath.Join(f, "db")})
				if err := refused(cfg, "a path below a regular file"); err != nil {
					return err
				}
			}
			if b, err := os.ReadFile(f); err != nil || string(b) != "plain file" {
				return failf("a refused open changed an unrelated file")
			}
		}
		if c.Eng.Name == "badger" {
			// directories are created as needed
			cfg := clone(map[string]interface{}{"path": filepath.Join(dir, "n1", "n2")})
			if err := withStore(cfg, func(s store.KVStore) error { return checkScan(s, Model{}) }); err != nil {
				return failf("nested new directory: %v", err)
			}
		}
		return withStore(clone(nil), func(s store.KVStore) error {
			if err := checkStore(s, m, m.keys()); err != nil {
				return failf("after refused opens: %v", err)
			}
			return nil
		})
	}
	return nil
}

// ---------------------------------------------------------------- K14

func init() {
	register(Prop{ID: "K14", Quick: 12000, Thorough: 96000,
		Rule: "a history of batches on Bolt or LevelDB, then close, then a sequence of reader requests and batch executions through new and old writers; each must report an error, and reopening must show the content unchanged; non-trivial: a batch with operations is refused after close"},
		func(t *rapid.T) *mapCase {
			c := &mapCase{Eng: genEng(t, "boltdb", "goleveldb"), Partial: 1}
			pool := genPool(t, 1, 4)
			n := rapid.IntRange(0, 3).Draw(t, "before")
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, kstep{Op: "batch", Ops: genOps(t, pool, bcfg{merge: true, min: 1, max: 5, maxVal: 300})})
			}
			c.Steps = append(c.Steps, kstep{Op: "close"})
			n = rapid.IntRange(1, 5).Draw(t, "after")
			for i := 0; i < n; i++ {
				k := kstep{Op: rapid.SampledFrom([]string{"reader", "exec", "execnew", "execold", "compact"}).Draw(t, "op"), Ops: genOps(t, pool, bcfg{merge: true, max: 5, maxVal: 300})}
				c.Steps = append(c.Steps, k)
			}
			return c
		}, runClosed)
}

func runClosed(c *mapCase, x *Ctx) (err error) {
	dir := x.Dir()
	s, err := c.Eng.open(dir, &testOp{partial: c.Partial})
	if err != nil {
		return openErr(err)
	}
	x.Label("engine " + c.Eng.Name)
	m := Model{}
	w, err := s.Writer()
	if err != nil {
		return failf("getting a writer: %v", err)
	}
	old := w.NewBatch()
	old.Set([]byte("old"), []byte("batch"))
	for i, st := range c.Steps {
		where := fmt.Sprintf("step %d (%s) on %s", i, st.Op, c.Eng.Name)
		switch st.Op {
		case "batch":
			if m, err = runBatch(s, m, st.Ops); err != nil {
				return err
			}
		case "close":
			if err := s.Close(); err != nil {
				return failf("closing: %v", err)
			}
		case "reader":
			r, err := s.Reader()
			if err == nil {
				return failf("%s: a closed store handed out a reader", where)
			}
			if r != nil {
				return failf("%s: an error came with a reader", where)
			}
		case "exec", "execnew", "execold":
			ww := w
			if st.Op == "execnew" {
				if ww, err = s.Writer(); err != nil {
					continue // refusing even the writer is an error reported
				}
			}
			b := old
			if st.Op != "execold" {
				b = ww.NewBatch()
				fill(b, st.Ops)
			}
			if err := ww.ExecuteBatch(b); err == nil {
				return failf("%s: a closed store executed a batch of %d operations without error", where, len(st.Ops))
			}
			if len(st.Ops) > 0 {
				x.NonTrivial()
			}
		case "compact":
			if _, err := compact(s, 0); err == nil {
				return failf("%s: compacting a closed store reported success", where)
			}
		}
	}
	s, err = c.Eng.open(dir, nil)
	if err != nil {
		return openErr(err)
	}
	defer closeStore(s, &err)
	if err := checkScan(s, m); err != nil {
		return failf("%s: reopened after use of the closed store: %v", c.Eng.Name, err)
	}
	return nil
}
