package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/store"
)

// strictStore is a reference store that holds its callers to the contract: it counts
// what is open, refuses what was closed, and makes the memory of an iterator
// meaningless as soon as the iterator moves or closes, as the interface allows.
type strictStore struct {
	mu      sync.Mutex
	m       Model
	open    map[string]int
	misuse  []string
	calls   map[string]int
	failAt  map[string]int // fail the n-th call of an operation (from 1)
	failErr error
	faults  int
}

var errInjected = errors.New("injected storage fault")

func newStrict() *strictStore {
	return &strictStore{m: Model{}, open: map[string]int{}, calls: map[string]int{}, failAt: map[string]int{}, failErr: errInjected}
}

func (s *strictStore) bad(f string, a ...any) {
	if len(s.misuse) < 20 {
		s.misuse = append(s.misuse, fmt.Sprintf(f, a...))
	}
}

// fault counts a call and tells whether it has to fail.
func (s *strictStore) fault(op string) bool {
	s.calls[op]++
	if n := s.failAt[op]; n != 0 && n == s.calls[op] {
		s.faults++
		return true
	}
	return false
}

// leaks describes what is still open and what was misused.
func (s *strictStore) leaks() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for _, k := range []string{"reader", "iterator", "writer", "batch"} {
		if s.open[k] != 0 {
			out = append(out, fmt.Sprintf("%d %s(s) left open", s.open[k], k))
		}
	}
	out = append(out, s.misuse...)
	if len(out) > 0 {
		return errors.New(strings.Join(out, "; "))
	}
	return nil
}

func (s *strictStore) Close() error { return nil }

func (s *strictStore) Reader() (store.KVReader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fault("reader") {
		return nil, s.failErr
	}
	s.open["reader"]++
	return &strictReader{s: s, m: s.m, keys: s.m.keys()}, nil
}

func (s *strictStore) Writer() (store.KVWriter, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fault("writer") {
		return nil, s.failErr
	}
	s.open["writer"]++
	return &strictWriter{s: s}, nil
}

type strictReader struct {
	s      *strictStore
	m      Model // never changed in place: apply clones
	keys   []string
	closed bool
	iters  int
}

func (r *strictReader) Get(key []byte) ([]byte, error) {
	if r.closed {
		r.s.bad("Get on a closed reader")
		return nil, errors.New("closed")
	}
	if v, ok := r.m[string(key)]; ok {
		return []byte(v), nil
	}
	return nil, nil
}

func (r *strictReader) MultiGet(keys [][]byte) ([][]byte, error) {
	out := make([][]byte, len(keys))
	for i, k := range keys {
		v, err := r.Get(k)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func (r *strictReader) iter(start, end []byte, prefix bool) store.KVIterator {
	if r.closed {
		r.s.bad("iterator from a closed reader")
	}
	r.s.mu.Lock()
	r.s.open["iterator"]++
	r.s.calls["iterator"]++
	r.s.mu.Unlock()
	r.iters++
	it := &strictIter{r: r}
	for _, k := range r.keys {
		if prefix && strings.HasPrefix(k, string(start)) || !prefix && k >= string(start) && (end == nil || k < string(end)) {
			it.keys = append(it.keys, k)
		}
	}
	it.load()
	return it
}

func (r *strictReader) PrefixIterator(p []byte) store.KVIterator { return r.iter(p, nil, true) }
func (r *strictReader) RangeIterator(start, end []byte) store.KVIterator {
	return r.iter(start, end, false)
}

func (r *strictReader) Close() error {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	if r.closed {
		return nil
	}
	r.closed = true
	r.s.open["reader"]--
	if r.iters > 0 {
		r.s.bad("reader closed before its iterator")
	}
	return nil
}

type strictIter struct {
	r      *strictReader
	keys   []string
	pos    int
	k, v   []byte
	closed bool
}

func (i *strictIter) load() {
	for _, b := range [][]byte{i.k, i.v} {
		for j := range b {
			b[j] = 0xDD
		}
	}
	i.k, i.v = nil, nil
	if i.pos < len(i.keys) {
		i.k = []byte(i.keys[i.pos])
		i.v = []byte(i.r.m[i.keys[i.pos]])
	}
}

func (i *strictIter) check(op string) bool {
	if i.closed {
		i.r.s.bad("%s on a closed iterator", op)
		return false
	}
	if i.r.closed {
		i.r.s.bad("%s after the reader was closed", op)
		return false
	}
	return true
}

func (i *strictIter) Seek(key []byte) {
	if !i.check("Seek") {
		return
	}
	i.pos = sort.Search(len(i.keys), func(n int) bool { return bytes.Compare([]byte(i.keys[n]), key) >= 0 })
	i.load()
}

func (i *strictIter) Next() {
	if !i.check("Next") {
		return
	}
	if i.pos < len(i.keys) {
		i.pos++
	}
	i.load()
}

func (i *strictIter) Valid() bool {
	if !i.check("Valid") {
		return false
	}
	return i.pos < len(i.keys)
}

func (i *strictIter) Key() []byte {
	if !i.check("Key") {
		return nil
	}
	return i.k
}

func (i *strictIter) Value() []byte {
	if !i.check("Value") {
		return nil
	}
	return i.v
}

func (i *strictIter) Current() ([]byte, []byte, bool) {
	if !i.check("Current") || i.pos >= len(i.keys) {
		return nil, nil, false
	}
	return i.k, i.v, true
}

func (i *strictIter) Close() error {
	i.r.s.mu.Lock()
	defer i.r.s.mu.Unlock()
	if i.closed {
		return nil
	}
	i.closed = true
	i.pos = len(i.keys)
	i.load()
	i.r.iters--
	i.r.s.open["iterator"]--
	return nil
}

type strictWriter struct {
	s      *strictStore
	closed bool
}

func (w *strictWriter) NewBatch() store.KVBatch {
	if w.closed {
		w.s.bad("NewBatch on a closed writer")
	}
	w.s.mu.Lock()
	w.s.open["batch"]++
	w.s.mu.Unlock()
	return &strictBatch{s: w.s}
}

func (w *strictWriter) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	return make([]byte, o.TotalBytes), w.NewBatch(), nil
}

func (w *strictWriter) ExecuteBatch(b store.KVBatch) error {
	sb, ok := b.(*strictBatch)
	if !ok {
		return errors.New("wrong type of batch")
	}
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.closed {
		w.s.bad("ExecuteBatch on a closed writer")
		return errors.New("closed")
	}
	if sb.closed {
		w.s.bad("ExecuteBatch of a closed batch")
		return errors.New("closed")
	}
	if w.s.fault("execute") {
		return w.s.failErr
	}
	n, ok := w.s.m.apply(sb.ops)
	if !ok {
		return errors.New("merge refused")
	}
	w.s.m = n
	return nil
}

func (w *strictWriter) Close() error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if !w.closed {
		w.closed = true
		w.s.open["writer"]--
	}
	return nil
}

type strictBatch struct {
	s      *strictStore
	ops    []BOp
	closed bool
}

func (b *strictBatch) add(k string, key, val []byte) {
	if b.closed {
		b.s.bad("%s on a closed batch", k)
		return
	}
	// a batch copies what it is given, as every engine's batch does
	b.ops = append(b.ops, BOp{K: k, Key: append(B{}, key...), Val: Val{P: append(B{}, val...)}})
}

func (b *strictBatch) Set(key, val []byte)   { b.add("set", key, val) }
func (b *strictBatch) Delete(key []byte)     { b.add("del", key, nil) }
func (b *strictBatch) Merge(key, val []byte) { b.add("merge", key, val) }
func (b *strictBatch) Reset()                { b.ops = nil }
func (b *strictBatch) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	if !b.closed {
		b.closed = true
		b.s.open["batch"]--
	}
	return nil
}
