package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- X13

// Entries are written and deleted by hand in the documented layout, next to the index.

type layoutObj struct {
	Pt ptSpec `json:"pt"`
	S  *Shape `json:"s,omitempty"`
	T  int64  `json:"t"`
}

type layoutOp struct {
	K   string `json:"k"` // index, write, delete, deletekey, reopen
	Obj int    `json:"obj"`
	T   int64  `json:"t,omitempty"` // added to the time of the object
}

type layoutCase struct {
	Eng    Eng         `json:"eng"`
	Kind   string      `json:"kind"` // flat, point, time
	Prefix B           `json:"prefix"`
	Level  int         `json:"level"`
	Objs   []layoutObj `json:"objs"`
	Ops    []layoutOp  `json:"ops"`
	Seed   int64       `json:"seed"`
}

func init() {
	register(Prop{ID: "X13", Quick: 9000, Thorough: 72000,
		Rule: "histories of indexing calls, entries written by hand in the documented layout, entries deleted by their documented, computed or returned key, and reopening, on one index of any kind; after every step the keys of the store and the answers for every cell involved are compared with a set of documented entries; non-trivial: an entry written by hand is answered and an indexed one vanishes after its deletion"},
		func(t *rapid.T) *layoutCase {
			c := &layoutCase{Eng: genIdxEng(t), Kind: rapid.SampledFrom([]string{"flat", "point", "time"}).Draw(t, "kind"), Prefix: genPrefix(t)}
			c.Seed = rapid.Int64Range(1, 1<<30).Draw(t, "seed")
			objs, level := genObjs(t, rapid.IntRange(1, 4).Draw(t, "n"), 5, rapid.IntRange(1, 3).Draw(t, "ids"))
			c.Level = level
			var pool []int64
			pts := genPoints(t, len(objs), len(objs))
			for i, o := range objs {
				tm := genTime(t, pool)
				pool = append(pool, tm)
				s := o.S
				lo := layoutObj{T: tm, S: &s}
				if i < len(pts) {
					lo.Pt = pts[i]
				}
				lo.Pt.ID = o.ID
				if c.Kind == "point" {
					lo.S = nil
				}
				c.Objs = append(c.Objs, lo)
			}
			for n := rapid.IntRange(2, 12).Draw(t, "ops"); n > 0; n-- {
				op := layoutOp{K: rapid.SampledFrom([]string{"index", "index", "write", "write", "delete", "deletekey", "reopen"}).Draw(t, "op"), Obj: rapid.IntRange(0, len(c.Objs)-1).Draw(t, "obj")}
				if c.Kind == "time" {
					op.T = rapid.SampledFrom([]int64{0, 0, 0, 1, 256, 1000000000}).Draw(t, "dt")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runLayout)
}

// entry is one documented index entry.
type entry struct {
	cell s2.CellID
	t    int64
	id   string
}

func (c *layoutCase) key(e entry) string {
	k := append([]byte{}, c.Prefix...)
	k = binary.BigEndian.AppendUint64(k, uint64(e.cell))
	if c.Kind == "time" {
		k = binary.BigEndian.AppendUint64(k, uint64(math.MaxInt64)-uint64(e.t))
	}
	return string(append(k, e.id...))
}

func (o layoutObj) time(d int64) int64 {
	if o.T > math.MaxInt64-d {
		return o.T
	}
	return o.T + d
}

type layoutIdx struct {
	flat  *index.S2FlatIdx
	point *index.S2PointIdx
	time  *index.S2FlatTimeIdx
}

func (c *layoutCase) make(s store.KVStore) layoutIdx {
	switch c.Kind {
	case "flat":
		return layoutIdx{flat: index.NewS2FlatIdx(s, c.Prefix, c.Level)}
	case "point":
		return layoutIdx{point: index.NewS2PointIdx(s, c.Prefix)}
	}
	return layoutIdx{time: index.NewS2FlatTimeIdx(s, c.Prefix, c.Level)}
}

// entries are what indexing an object has to store.
func (c *layoutCase) entries(o layoutObj, d int64) ([]entry, error) {
	if c.Kind == "point" {
		return []entry{{cell: o.Pt.leaf(), id: string(o.Pt.ID)}}, nil
	}
	cu, err := o.S.geo().Cover(&s2.RegionCoverer{MinLevel: c.Level, MaxLevel: c.Level})
	if err != nil {
		return nil, failf("cover of a well-formed %s: %v", o.S.Kind, err)
	}
	var es []entry
	for _, cl := range cu {
		e := entry{cell: cl, id: string(o.Pt.ID)}
		if c.Kind == "time" {
			e.t = o.time(d)
		}
		es = append(es, e)
	}
	return es, nil
}

func runLayout(c *layoutCase, x *Ctx) (err error) {
	dir := x.Dir()
	open := func() (store.KVStore, error) {
		if c.Eng.Name == "strict" {
			return newStrict(), nil
		}
		return c.Eng.open(dir, &testOp{})
	}
	s, err := open()
	if err != nil {
		return openErr(err)
	}
	defer func() {
		if s != nil {
			stableClose(s, &err)
		}
	}()
	x.Label("engine " + c.Eng.Name)
	x.Label("index " + c.Kind)
	ix := c.make(s)
	live := map[string]entry{}
	by := map[string]string{} // how an entry got there
	seen := map[entry]bool{}
	var gone, hand bool
	for n, op := range c.Ops {
		o := c.Objs[op.Obj]
		es, err := c.entries(o, op.T)
		if err != nil {
			return err
		}
		for _, e := range es {
			seen[e] = true
		}
		where := fmt.Sprintf("%s index on %s, step %d (%s)", c.Kind, c.Eng.Name, n, op.K)
		switch op.K {
		case "index":
			switch c.Kind {
			case "flat":
				err = ix.flat.GeoIndex(o.S.geo(), index.GeoID(o.Pt.ID))
			case "time":
				err = ix.time.GeoTimeIndex(o.S.geo(), time.Unix(0, es[0].t), index.GeoID(o.Pt.ID))
			default:
				var k []byte
				k, err = o.Pt.index(ix.point)
				if err == nil && string(k) != c.key(es[0]) {
					return failf("%s: the returned key is %x, the entry is documented as %x", where, k, c.key(es[0]))
				}
			}
			if err != nil {
				return failf("%s: well-formed object refused: %v", where, err)
			}
			for _, e := range es {
				live[c.key(e)] = e
				by[c.key(e)] = "index"
			}
		case "write":
			var ops []BOp
			for _, e := range es {
				ops = append(ops, BOp{K: "set", Key: B(c.key(e))})
				live[c.key(e)] = e
				by[c.key(e)] = "hand"
			}
			if err := execOps(s, ops); err != nil {
				return failf("%s: writing entries: %v", where, err)
			}
			hand = true
		case "delete", "deletekey":
			var ops []BOp
			for _, e := range es {
				k := c.key(e)
				if op.K == "deletekey" && c.Kind == "point" {
					lat, lng := o.Pt.ll()
					var pk []byte
					if o.Pt.Geo {
						pk, err = ix.point.GeoPointKey(&geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}, index.GeoID(o.Pt.ID))
						if err != nil {
							return failf("%s: key of a well-formed point: %v", where, err)
						}
					} else {
						pk = ix.point.PointKey(lat, lng, index.GeoID(o.Pt.ID))
					}
					if string(pk) != k {
						return failf("%s: the computed key is %x, the entry is documented as %x", where, pk, k)
					}
					k = string(pk)
				}
				gone = gone || by[k] == "index"
				delete(live, k)
				delete(by, k)
				ops = append(ops, BOp{K: "del", Key: B(k)})
			}
			if err := execOps(s, ops); err != nil {
				return failf("%s: deleting entries: %v", where, err)
			}
		case "reopen":
			if c.Eng.Name == "strict" || c.Eng.Name == "gtreap" {
				continue
			}
			s0 := s
			s = nil
			if err := s0.Close(); err != nil {
				return failf("%s: closing: %v", where, err)
			}
			if s, err = open(); err != nil {
				return failf("%s: reopening: %v", where, err)
			}
			ix = c.make(s)
			x.Label("reopened")
		}
		if err := c.compare(s, ix, live, seen); err != nil {
			return failf("%s: %v", where, err)
		}
	}
	if gone && hand {
		x.NonTrivial()
	}
	return nil
}

// compare checks the keys of the store and the answers about all cells met so far.
func (c *layoutCase) compare(s store.KVStore, ix layoutIdx, live map[string]entry, seen map[entry]bool) error {
	r, err := s.Reader()
	if err != nil {
		return failf("getting a reader: %v", err)
	}
	got, keys, err := scanAll(r, len(live)+1000)
	if cerr := r.Close(); err == nil && cerr != nil {
		err = cerr
	}
	if err != nil {
		return failf("reading the store: %v", err)
	}
	for _, k := range keys {
		if _, ok := live[k]; !ok {
			return failf("the store holds the key %x, no documented entry", k)
		}
	}
	wantKeys := make([]string, 0, len(live))
	for k := range live {
		wantKeys = append(wantKeys, k)
	}
	sort.Strings(wantKeys)
	for _, k := range wantKeys {
		if _, ok := got[k]; !ok {
			return failf("the store misses the documented entry %x", k)
		}
	}
	// by cell
	cells := map[s2.CellID]bool{}
	var order []s2.CellID
	all := map[string]bool{}
	for e := range seen {
		cl := e.cell
		if c.Kind == "point" {
			for _, l := range []int{30, 30 - int(c.Seed%7), int(c.Seed % 31), 0} {
				if p := cl.Parent(l); !cells[p] {
					cells[p] = true
					order = append(order, p)
				}
			}
		} else if !cells[cl] {
			cells[cl] = true
			order = append(order, cl)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	if len(order) > 40 {
		n := int(c.Seed) % (len(order) - 39)
		order = order[n : n+40]
	}
	for _, e := range live {
		all[e.id] = true
	}
	expect := func(in func(entry) bool) map[string]bool {
		m := map[string]bool{}
		for _, e := range live {
			if in(e) {
				m[e.id] = true
			}
		}
		return m
	}
	var cu []s2.CellID
	for _, cl := range order {
		cu = append(cu, cl)
		inCell := func(e entry) bool { return cl.Contains(e.cell) }
		what := "querying cell " + cl.ToToken()
		var ids []index.GeoID
		switch c.Kind {
		case "flat":
			ids, err = ix.flat.GeoIdsAtCell(cl)
			if err == nil {
				err = sameIDs(what, ids, expect(inCell))
			}
		case "point":
			ids, err = ix.point.GeoIdsAtCell(cl)
			if err == nil {
				err = sameIDs(what, uniqueIDs(ids), expect(inCell))
			}
		case "time":
			for e := range seen {
				if e.cell != cl || e.t == math.MinInt64 {
					continue
				}
				// from a time down to just before it
				ids, err = ix.time.GeoTimeIdsAtCell(cl, time.Unix(0, e.t), time.Unix(0, e.t-1))
				if err == nil {
					err = sameIDs(fmt.Sprintf("%s at %d", what, e.t), ids, expect(func(f entry) bool { return f.cell == cl && f.t == e.t }))
				}
				if err != nil {
					break
				}
			}
		}
		if err != nil {
			return err
		}
	}
	switch c.Kind {
	case "flat":
		ids, err := ix.flat.GeoIdsAtCells(cu)
		if err != nil {
			return failf("querying %d cells: %v", len(cu), err)
		}
		return sameIDs("querying several cells", ids, expect(func(e entry) bool { return containsCell(cu, e.cell) }))
	case "point":
		ids, err := ix.point.GeoIdsRadiusQuery(0, 0, 21000000)
		if err != nil {
			return failf("querying the whole Earth: %v", err)
		}
		return sameIDs("querying the whole Earth", uniqueIDs(ids), all)
	}
	return nil
}

func containsCell(cu []s2.CellID, c s2.CellID) bool {
	for _, o := range cu {
		if o == c {
			return true
		}
	}
	return false
}

// uniqueIDs drops repetitions: one id at several places of a cell is several entries.
func uniqueIDs(ids []index.GeoID) []index.GeoID {
	seen := map[string]bool{}
	var out []index.GeoID
	for _, id := range ids {
		if !seen[string(id)] {
			seen[string(id)] = true
			out = append(out, id)
		}
	}
	return out
}
