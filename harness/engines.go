package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
	"pgregory.net/rapid"
)

func init() { log.SetOutput(io.Discard) }

// B is a byte string written as hex in replay files.
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(b)) }
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*b = v
	return err
}

// Val is a value: a byte pattern, repeated.
type Val struct {
	P   B   `json:"p"`
	Rep int `json:"r,omitempty"`
}

func (v Val) Bytes() []byte {
	if v.Rep > 1 {
		return bytes.Repeat(v.P, v.Rep)
	}
	return append([]byte{}, v.P...)
}

// Eng is a storage engine with its options.
type Eng struct {
	Name   string  `json:"name"`
	NoSync bool    `json:"nosync,omitempty"`
	Fill   float64 `json:"fill,omitempty"`
	Bucket string  `json:"bucket,omitempty"`
	WB     int     `json:"wb,omitempty"`
	BS     int     `json:"bs,omitempty"`
	BRI    int     `json:"bri,omitempty"`
	LRU    int     `json:"lru,omitempty"`
	Bloom  int     `json:"bloom,omitempty"`
}

func genEng(t *rapid.T, names ...string) Eng {
	e := Eng{Name: rapid.SampledFrom(names).Draw(t, "engine")}
	switch e.Name {
	case "boltdb":
		e.NoSync = rapid.Bool().Draw(t, "nosync")
		e.Fill = rapid.SampledFrom([]float64{0, 0.1, 0.3, 0.9, 1.0}).Draw(t, "fill")
		e.Bucket = rapid.SampledFrom([]string{"", "b", "d", "\x00\xff"}).Draw(t, "bucket")
	case "goleveldb":
		e.WB = rapid.SampledFrom([]int{0, 1024, 4096, 65536}).Draw(t, "wb")
		e.BS = rapid.SampledFrom([]int{0, 64, 512}).Draw(t, "bs")
		e.BRI = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "bri")
		e.LRU = rapid.SampledFrom([]int{0, 1, 4096}).Draw(t, "lru")
		e.Bloom = rapid.SampledFrom([]int{0, 4, 10}).Draw(t, "bloom")
	}
	return e
}

var allEngines = []string{"gtreap", "boltdb", "goleveldb", "badger"}

func (e Eng) config(dir string) map[string]interface{} {
	c := map[string]interface{}{"path": filepath.Join(dir, "db")}
	switch e.Name {
	case "gtreap":
		c["path"] = ""
	case "boltdb":
		if e.NoSync {
			c["nosync"] = true
		}
		if e.Fill != 0 {
			c["fillPercent"] = e.Fill
		}
		if e.Bucket != "" {
			c["bucket"] = e.Bucket
		}
	case "goleveldb":
		c["create_if_missing"] = true
		set := func(k string, v int) {
			if v != 0 {
				c[k] = float64(v)
			}
		}
		set("write_buffer_size", e.WB)
		set("block_size", e.BS)
		set("block_restart_interval", e.BRI)
		set("lru_cache_capacity", e.LRU)
		set("bloom_filter_bits_per_key", e.Bloom)
	}
	return c
}

func (e Eng) openCfg(cfg map[string]interface{}, mo store.MergeOperator) (store.KVStore, error) {
	switch e.Name {
	case "gtreap":
		return gtreap.New(mo, cfg)
	case "boltdb":
		return boltdb.New(mo, cfg)
	case "goleveldb":
		return goleveldb.New(mo, cfg)
	case "badger":
		return badger.New(mo, cfg)
	}
	panic(harnessError{fmt.Errorf("engine %q", e.Name)})
}

func (e Eng) open(dir string, mo store.MergeOperator) (store.KVStore, error) {
	return e.openCfg(e.config(dir), mo)
}

// presized opens a Bolt store whose file already has room, so that a write never has
// to grow the memory map: Bolt documents that such a write waits for open readers,
// which a single-threaded history would wait for for ever.
func (e Eng) presized(dir string, mo store.MergeOperator) (store.KVStore, error) {
	if e.Name != "boltdb" {
		return e.open(dir, mo)
	}
	s, err := e.open(dir, mo)
	if err != nil {
		return nil, err
	}
	w, err := s.Writer()
	if err != nil {
		return nil, err
	}
	b := w.NewBatch()
	fill := bytes.Repeat([]byte("x"), 1<<20)
	for i := 0; i < 6; i++ {
		b.Set([]byte{'f', byte(i)}, fill)
	}
	if err := w.ExecuteBatch(b); err != nil {
		return nil, err
	}
	b = w.NewBatch()
	for i := 0; i < 6; i++ {
		b.Delete([]byte{'f', byte(i)})
	}
	if err := w.ExecuteBatch(b); err != nil {
		return nil, err
	}
	return s, w.Close()
}

// ---------------------------------------------------------------- reference map

// Model is the reference: an ordered map.
type Model map[string]string

func (m Model) clone() Model {
	c := make(Model, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m Model) keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// BOp is one operation of a batch.
type BOp struct {
	K   string `json:"k"` // set, del, merge, bulk
	Key B      `json:"key"`
	Val Val    `json:"val,omitempty"`
	N   int    `json:"n,omitempty"` // bulk: number of keys
	S   int    `json:"s,omitempty"` // bulk: stride
}

// expand turns bulk operations into sets.
func expand(ops []BOp) []BOp {
	var out []BOp
	for _, o := range ops {
		if o.K != "bulk" {
			out = append(out, o)
			continue
		}
		for i := 0; i < o.N; i++ {
			k := append(append(B{}, o.Key...), []byte(fmt.Sprintf("%04d", i*o.S%10007))...)
			out = append(out, BOp{K: "set", Key: k, Val: Val{P: append(append(B{}, o.Val.P...), byte(i), byte(i>>8)), Rep: o.Val.Rep}})
		}
	}
	return out
}

// Merge operands are framed payloads so that combining two of them early is
// transparent: an operand is a concatenation of (length, payload).
// frame makes an operand of a payload; that of an empty payload is empty.
func frame(p []byte) []byte {
	if len(p) == 0 {
		return []byte{}
	}
	return append(binary.AppendUvarint(nil, uint64(len(p))), p...)
}

// joined are operands put one after the other so that empty ones are not lost.
func joined(ops ...[]byte) []byte {
	out := []byte{}
	for _, o := range ops {
		if len(o) == 0 {
			o = []byte{0}
		}
		out = append(out, o...)
	}
	return out
}

func frames(op []byte) ([][]byte, bool) {
	var out [][]byte
	if len(op) == 0 {
		return [][]byte{{}}, true
	}
	for len(op) > 0 {
		n, w := binary.Uvarint(op)
		if w <= 0 || uint64(len(op)-w) < n {
			return nil, false
		}
		out = append(out, op[w:w+int(n)])
		op = op[w+int(n):]
	}
	return out, true
}

const (
	payloadFail  = 0xFA // the operator refuses the merge
	payloadEmpty = 0xEE // the merged value becomes empty
)

// refMerge is the specification of the operator used by the checks: deliberately
// not commutative and distinguishing an absent key from an empty value.
func refMerge(existing []byte, payloads [][]byte) ([]byte, bool) {
	var v []byte
	if existing == nil {
		v = []byte("n")
	} else {
		v = append([]byte("e"), existing...)
	}
	for _, p := range payloads {
		if len(p) > 0 && p[0] == payloadFail {
			return nil, false
		}
		if len(p) > 0 && p[0] == payloadEmpty {
			v = []byte{}
			continue
		}
		v = append(v, '[')
		v = append(v, p...)
		v = append(v, ']')
	}
	return v, true
}

type fullCall struct {
	key, existing string
	absent        bool
	operands      [][]byte
}

type testOp struct {
	partial int // 0 never, 1 always, 2 depending on the operands
	mu      sync.Mutex
	log     []fullCall
	bad     string
}

func (o *testOp) Name() string { return "verif" }

func (o *testOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if o.partial == 0 || (o.partial == 2 && (len(l)+len(r))%3 == 0) {
		return nil, false
	}
	return joined(l, r), true
}

func (o *testOp) FullMerge(key, existing []byte, operands [][]byte) ([]byte, bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	c := fullCall{key: string(key), existing: string(existing), absent: existing == nil}
	var payloads [][]byte
	for _, op := range operands {
		c.operands = append(c.operands, append([]byte{}, op...))
		f, ok := frames(op)
		if !ok {
			o.bad = fmt.Sprintf("operand for key %x is not one that was given: %x", key, op)
			return nil, false
		}
		payloads = append(payloads, f...)
	}
	o.log = append(o.log, c)
	return refMerge(existing, payloads)
}

// apply executes a batch on the model: merges first, then sets and deletes in order.
func (m Model) apply(ops []BOp) (Model, bool) {
	n := m.clone()
	merges := map[string][][]byte{}
	var order []string
	for _, o := range ops {
		if o.K == "merge" {
			if _, ok := merges[string(o.Key)]; !ok {
				order = append(order, string(o.Key))
			}
			merges[string(o.Key)] = append(merges[string(o.Key)], o.Val.Bytes())
		}
	}
	for _, k := range order {
		var ex []byte
		if v, ok := m[k]; ok {
			ex = append([]byte{}, v...)
		}
		v, ok := refMerge(ex, merges[k])
		if !ok {
			return nil, false
		}
		n[k] = string(v)
	}
	for _, o := range ops {
		switch o.K {
		case "set":
			n[string(o.Key)] = string(o.Val.Bytes())
		case "del":
			delete(n, string(o.Key))
		}
	}
	return n, true
}

// fill puts the operations in a batch, giving it slices nobody else holds.
func fill(b store.KVBatch, ops []BOp) {
	for _, o := range ops {
		k := append([]byte{}, o.Key...)
		switch o.K {
		case "set":
			b.Set(k, o.Val.Bytes())
		case "del":
			b.Delete(k)
		case "merge":
			b.Merge(k, frame(o.Val.Bytes()))
		}
	}
}

// exec runs ops as one batch.
func execOps(s store.KVStore, ops []BOp) error {
	w, err := s.Writer()
	if err != nil {
		return err
	}
	b := w.NewBatch()
	fill(b, ops)
	err = w.ExecuteBatch(b)
	b.Close()
	w.Close()
	return err
}

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// ---------------------------------------------------------------- observations

func show(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 40 {
		return fmt.Sprintf("%x...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// wantGet compares one read with the model.
func wantGet(m Model, k string, v []byte) error {
	want, ok := m[k]
	switch {
	case !ok && v != nil:
		return failf("key %x is absent, read %s", k, show(v))
	case ok && v == nil:
		return failf("key %x holds %s, read nil (absent)", k, show([]byte(want)))
	case ok && string(v) != want:
		return failf("key %x holds %s, read %s", k, show([]byte(want)), show(v))
	}
	return nil
}

// checkGets reads every key of the universe one by one and all at once.
func checkGets(r store.KVReader, m Model, universe []string) error {
	for _, k := range universe {
		v, err := r.Get([]byte(k))
		if err != nil {
			return failf("reading key %x: %v", k, err)
		}
		if err := wantGet(m, k, v); err != nil {
			return err
		}
	}
	return nil
}

func checkMultiGet(r store.KVReader, m Model, keys []string) error {
	ks := make([][]byte, len(keys))
	for i, k := range keys {
		ks[i] = []byte(k)
	}
	vs, err := r.MultiGet(ks)
	if err != nil {
		return failf("multi-key read of %d keys: %v", len(keys), err)
	}
	if len(vs) != len(keys) {
		return failf("multi-key read of %d keys returned %d values", len(keys), len(vs))
	}
	for i, k := range keys {
		if err := wantGet(m, k, vs[i]); err != nil {
			return failf("multi-key read, position %d: %v", i, err)
		}
	}
	return nil
}

// scanAll reads everything with an unbounded iterator.
func scanAll(r store.KVReader, limit int) (Model, []string, error) {
	it := r.RangeIterator(nil, nil)
	defer it.Close()
	m := Model{}
	var order []string
	for n := 0; ; n++ {
		k, v, ok := it.Current()
		if !ok {
			return m, order, nil
		}
		if n > limit {
			return nil, nil, failf("an unbounded scan returned more than the %d entries that can exist", limit)
		}
		m[string(k)] = string(v)
		order = append(order, string(k))
		it.Next()
	}
}

func diffModels(got, want Model) error {
	for _, k := range want.keys() {
		g, ok := got[k]
		if !ok {
			return failf("key %x (value %s) is missing", k, show([]byte(want[k])))
		}
		if g != want[k] {
			return failf("key %x holds %s, expected %s", k, show([]byte(g)), show([]byte(want[k])))
		}
	}
	for _, k := range got.keys() {
		if _, ok := want[k]; !ok {
			return failf("unexpected key %x (value %s)", k, show([]byte(got[k])))
		}
	}
	return nil
}

// checkStore compares the whole store with the model, by scan and by reads.
func checkStore(s store.KVStore, m Model, universe []string) error {
	r, err := s.Reader()
	if err != nil {
		return failf("opening a reader: %v", err)
	}
	err = func() error {
		got, order, err := scanAll(r, len(m)+10)
		if err != nil {
			return err
		}
		if err := diffModels(got, m); err != nil {
			return err
		}
		if len(order) != len(got) {
			return failf("a scan returned %d entries for %d keys", len(order), len(got))
		}
		return checkGets(r, m, universe)
	}()
	if cerr := r.Close(); cerr != nil && err == nil {
		return failf("closing a reader: %v", cerr)
	}
	return err
}

// checkScan compares the whole store with the model by scan only.
func checkScan(s store.KVStore, m Model) error { return checkStore(s, m, nil) }

func universeOf(keys map[string]bool) []string {
	var u []string
	for k := range keys {
		u = append(u, k)
	}
	sort.Strings(u)
	return u
}

func noteKeys(u map[string]bool, ops []BOp) {
	for _, o := range ops {
		u[string(o.Key)] = true
	}
}

// touch runs f over memory handed out by the store; an access fault is a violation.
func touch(what string, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if strings.Contains(fmt.Sprint(e), "fault") || strings.Contains(fmt.Sprint(e), "invalid memory address") {
				err = failf("%s: memory given to the caller is not accessible: %v", what, e)
				return
			}
			panic(e)
		}
	}()
	return f()
}

// hashDir returns the content of every file under dir.
func readTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, rerr := os.ReadFile(p)
			must(rerr)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}
