package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/r1"
	"github.com/golang/geo/r3"
	"github.com/golang/geo/s1"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- shared

func openIdx(e Eng, x *Ctx) (store.KVStore, error) {
	x.Label("engine " + e.Name)
	if e.Name == "strict" {
		return newStrict(), nil
	}
	return e.open(x.Dir(), &testOp{})
}

func genIdxEng(t *rapid.T) Eng {
	if rapid.IntRange(0, 2).Draw(t, "real") == 0 {
		return genEng(t, allEngines...)
	}
	return Eng{Name: rapid.SampledFrom([]string{"strict", "gtreap"}).Draw(t, "engine")}
}

func genPrefix(t *rapid.T) B {
	switch rapid.IntRange(0, 5).Draw(t, "pk") {
	case 0:
		return B{}
	case 5:
		// lengths between the size classes of the allocator leave spare capacity
		n := rapid.OneOf(rapid.IntRange(10, 40), rapid.IntRange(33, 40), rapid.IntRange(65, 72), rapid.IntRange(41, 300)).Draw(t, "plen")
		return bytes.Repeat([]byte{rapid.SampledFrom([]byte{'p', 0, 0xff}).Draw(t, "pbyte")}, n)
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "prefix")
	case 2:
		return B{0xff}
	}
	return B(rapid.SampledFrom([]string{"g", "geo:", "a\xff\xff", "\x00", "pfx"}).Draw(t, "prefix"))
}

func stableClose(s store.KVStore, perr *error) {
	if st, ok := s.(*strictStore); ok {
		if err := st.leaks(); err != nil && *perr == nil {
			// X10 decides resource handling; elsewhere only misuse that corrupts results matters
			_ = err
		}
	}
	closeStore(s, perr)
}

func idStrings(ids []index.GeoID) []string {
	out := make([]string, len(ids))
	for i, id := range ids {
		out[i] = string(id)
	}
	return out
}

// sameIDs compares an answer with the expected ids, each exactly once.
func sameIDs(what string, got []index.GeoID, want map[string]bool) error {
	seen := map[string]bool{}
	for _, id := range got {
		if seen[string(id)] {
			return failf("%s returns id %x more than once", what, []byte(id))
		}
		seen[string(id)] = true
		if !want[string(id)] {
			return failf("%s returns id %x which does not belong there", what, []byte(id))
		}
	}
	for _, id := range sortedStrings(want) {
		if !seen[id] {
			return failf("%s misses id %x (%d ids returned)", what, id, len(got))
		}
	}
	return nil
}

func hasID(ids []index.GeoID, id []byte) bool {
	for _, i := range ids {
		if bytes.Equal(i, id) {
			return true
		}
	}
	return false
}

func neighbours(c s2.CellID) []s2.CellID {
	e := c.EdgeNeighbors()
	out := []s2.CellID{e[0], e[1], e[2], e[3], c.NextWrap(), c.PrevWrap()}
	return out
}

// offset moves p by an angle in a direction.
func offsetVec(lat, lng, bearing, d float64) (float64, float64) {
	f := newFrame(lat, lng, bearing)
	v := f.c.Mul(math.Cos(d)).Add(f.e1.Mul(math.Sin(d))).Normalize()
	return llVec(v)
}

// ---------------------------------------------------------------- X01

type idxObj struct {
	S  Shape `json:"s"`
	ID B     `json:"id"`
	T  int64 `json:"t,omitempty"`
}

type findCase struct {
	Eng    Eng      `json:"eng"`
	Prefix B        `json:"prefix"`
	Level  int      `json:"level"`
	Objs   []idxObj `json:"objs"`
	Seed   int64    `json:"seed"`
	Off    float64  `json:"off"` // centre distance in cell sizes
	Brg    float64  `json:"brg"`
	Crowd  int      `json:"crowd,omitempty"`
	Vast   bool     `json:"vast,omitempty"`
}

func pointShape(lat, lng float64) Shape {
	return Shape{Kind: "point", Lat: lat, Lng: lng, R: 1e-7, Rings: [][]P2{{{0, 0}}}}
}

var shapeKinds = []string{"point", "line", "polygon", "polygon", "polygon", "multi"}

// genObjs draws objects of comparable size close to each other, and a level.
func genObjs(t *rapid.T, n int, cells float64, ids int) ([]idxObj, int) {
	var objs []idxObj
	first := genShape(t, shapeKinds, 1.2)
	big := 0.0
	var pool []B
	for i := 0; i < ids; i++ {
		pool = append(pool, genID(t))
	}
	for i := 0; i < n; i++ {
		s := first
		if i > 0 {
			s = genShape(t, shapeKinds, 1.2)
			r := math.Min(1.2, first.R*rapid.Float64Range(0.3, 1.5).Draw(t, "rr"))
			if !s.Band {
				s.R = r
			}
			s.Lat, s.Lng = offsetVec(first.Lat, first.Lng, rapid.Float64Range(0, 6.28).Draw(t, "b"), first.R*rapid.Float64Range(0, 3).Draw(t, "d"))
		}
		if s.Kind != "point" {
			big = math.Max(big, s.R)
		}
		objs = append(objs, idxObj{S: s, ID: rapid.SampledFrom(pool).Draw(t, "id")})
	}
	ml := 30
	if big > 0 {
		ml = maxLevelFor(big, cells)
	}
	l := rapid.IntRange(ml-4, ml).Draw(t, "level")
	if ml == 30 && big == 0 {
		l = rapid.IntRange(0, 30).Draw(t, "level")
	}
	if l < 0 {
		l = 0
	}
	return objs, l
}

// rare draws true about once in n: small values come up more often than others,
// so a plain range would hit its ends far too often.
func rare(t *rapid.T, label string, n uint64) bool {
	v := rapid.Uint64().Draw(t, label)
	z := (v ^ v>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return v > 1<<12 && (z^z>>31)%n == 0
}

// genCrowd draws, rarely, how many more entries join a case.
func genCrowd(t *rapid.T) int {
	if !rare(t, "crowd", 150) {
		return 0
	}
	return rapid.SampledFrom([]int{100, 300, 600, 1100, 2100, 4200}).Draw(t, "n")
}

// manyCells are up to a thousand cells of a level from all over the world.
func manyCells(rng *rand.Rand, level int) []s2.CellID {
	var out []s2.CellID
	for i := []int{20, 130, 600, 1100}[rng.Intn(4)]; i > 0; i-- {
		out = append(out, s2.CellIDFromFace(i%6).ChildBegin().RangeMin().Parent(level))
		if i%2 == 0 {
			out[len(out)-1] = s2.CellID(rng.Uint64()%6<<61 | rng.Uint64()>>3 | 1).Parent(level)
		}
	}
	return out
}

func crowdID(i int) B { return B(fmt.Sprintf("!%04d", i)) }

// crowdPoints are n points around a location, within d.
func crowdPoints(n int, lat, lng, d float64) []ptSpec {
	rng := rand.New(rand.NewSource(int64(n)))
	var out []ptSpec
	for i := 0; i < n; i++ {
		p := ptSpec{ID: crowdID(i), Geo: i%2 == 0}
		p.Lat, p.Lng = offsetVec(lat, lng, rng.Float64()*2*math.Pi, math.Min(math.Pi, d*math.Sqrt(rng.Float64())))
		out = append(out, p)
	}
	return out
}

// genWide draws, rarely, one object with a cover of a thousand cells and more.
func genWide(t *rapid.T, objs []idxObj, level int) ([]idxObj, int) {
	if !rare(t, "wide", 300) {
		return objs, level
	}
	o := objs[0]
	o.S = genShape(t, []string{"polygon"}, 0.5)
	if o.S.R < 1e-6 {
		o.S.R = 1e-6
	}
	return []idxObj{o}, maxLevelFor(o.S.R, rapid.SampledFrom([]float64{25, 50, 80}).Draw(t, "across"))
}

func init() {
	register(Prop{ID: "X01", Quick: 16000, Thorough: 128000,
		Rule: "1-3 points, lines, simple polygons or multi-polygons (stars, combs, spirals, thin, tiny to continent size, any place incl. poles and antimeridian) indexed at a level giving up to a few hundred cells; per object 25 locations (vertices, edge points, points just inside an edge, interior) are looked up by cell and by radius; inside is decided by planar geometry in the gnomonic plane; non-trivial: a polygon with an interior location in a cell without any vertex"},
		func(t *rapid.T) *findCase {
			c := &findCase{Eng: Eng{Name: rapid.SampledFrom([]string{"strict", "gtreap", "gtreap", "boltdb", "goleveldb"}).Draw(t, "engine")}, Prefix: genPrefix(t)}
			c.Objs, c.Level = genObjs(t, rapid.IntRange(1, 3).Draw(t, "n"), 11, 3)
			c.Seed = rapid.Int64Range(1, 1<<30).Draw(t, "seed")
			c.Off = rapid.Float64Range(0, 6).Draw(t, "off")
			c.Brg = rapid.Float64Range(0, 6.28).Draw(t, "brg")
			c.Crowd = genCrowd(t)
			if c.Crowd == 0 && c.Level > 5 && rare(t, "vast", 250) {
				// circles of a thousand cells and more
				c.Off, c.Vast = rapid.Float64Range(10, 25).Draw(t, "voff"), true
			}
			return c
		}, runFind)
}

func runFind(c *findCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2FlatIdx(s, c.Prefix, c.Level)
	for _, o := range c.Objs {
		x.Label("object " + o.S.Kind)
		if err := idx.GeoIndex(o.S.geo(), index.GeoID(o.ID)); err != nil {
			return failf("a well-formed %s is refused: %v", o.S.Kind, err)
		}
	}
	if c.Crowd > 0 {
		x.Label("crowd")
		// many more objects in the cells of the first one
		ps := c.Objs[0].S.probes(c.Seed, 3)
		for i := 0; i < c.Crowd; i++ {
			lat, lng := llVec(ps[i%len(ps)].v)
			g := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
			if err := idx.GeoIndex(g, index.GeoID(crowdID(i))); err != nil {
				return failf("a point is refused: %v", err)
			}
		}
	}
	for n, o := range c.Objs {
		vcells := map[s2.CellID]bool{}
		for i := range o.S.Rings {
			for _, v := range o.S.verts(i) {
				for _, cl := range cellsNear(v, c.Level, 0) {
					vcells[cl] = true
				}
			}
		}
		for i, p := range o.S.probes(c.Seed+int64(n), 25) {
			eps := 1e-13
			if p.deep {
				eps = 0
			}
			cells := cellsNear(p.v, c.Level, eps)
			if p.deep && !vcells[cells[0]] {
				x.NonTrivial()
			}
			found := false
			for _, cl := range cells {
				ids, err := idx.GeoIdsAtCell(cl)
				if err != nil {
					return failf("querying cell %s: %v", cl.ToToken(), err)
				}
				found = found || hasID(ids, o.ID)
			}
			lat, lng := llVec(p.v)
			if !found {
				return failf("object %d (%s) contains %.9f,%.9f but querying its cell %s at level %d does not return it", n, o.S.Kind, lat, lng, cells[0].ToToken(), c.Level)
			}
			if i%6 != 0 {
				continue
			}
			d := c.Off * cellSize(c.Level) * float64(i%5+1) / 5
			if d > 3 {
				d = 3
			}
			clat, clng := offsetVec(lat, lng, c.Brg+float64(i), d)
			radius := radToMeters(chordAngle(vecLL(clat, clng), p.v))*(1+1e-9) + 0.02
			if metersToRad(radius) > 12*cellSize(c.Level) && c.Level > 6 && !c.Vast {
				continue
			}
			ids, err := idx.GeoIdsRadiusQuery(clat, clng, radius)
			if err != nil {
				return failf("radius query: %v", err)
			}
			if !hasID(ids, o.ID) {
				return failf("object %d (%s) has the location %.9f,%.9f within %.3f m of %.9f,%.9f but the radius query at level %d does not return it", n, o.S.Kind, lat, lng, radius, clat, clng, c.Level)
			}
			x.Label("radius query")
		}
	}
	return nil
}

// ---------------------------------------------------------------- X02

type flatCase struct {
	Eng     Eng      `json:"eng"`
	Prefix  B        `json:"prefix"`
	Prefix2 B        `json:"prefix2"`
	Level   int      `json:"level"`
	Objs    []idxObj `json:"objs"`
	Objs2   []idxObj `json:"objs2"`
	Seed    int64    `json:"seed"`
	Rad     float64  `json:"rad"`
	Twin    int      `json:"twin,omitempty"` // bits: objects indexed through a second index object
	Crowd   int      `json:"crowd,omitempty"`
}

// genTwin draws which of the writes go through another index object over the
// same store and prefix, 0 for none.
func genTwin(t *rapid.T) int {
	if rapid.IntRange(0, 2).Draw(t, "twin") != 0 {
		return 0
	}
	return rapid.IntRange(1, 255).Draw(t, "twinbits")
}

// prefixFree makes b such that neither prefix is a prefix of the other.
func prefixFree(a, b B) (B, B) {
	if bytes.HasPrefix(a, b) || bytes.HasPrefix(b, a) {
		return append(append(B{}, a...), 0x01), append(append(B{}, a...), 0x02)
	}
	return a, b
}

func init() {
	register(Prop{ID: "X02", Quick: 15000, Thorough: 120000,
		Rule: "two indexes with different prefixes in one store, 1-6 objects under 1-4 ids (ids that extend each other, zero and 0xff bytes), then queries of every covered cell, its neighbours, ancestors, random lists with repeats and circles, compared with a map from cell to ids built from the covers; non-trivial: some cell holds two ids and some id several cells"},
		func(t *rapid.T) *flatCase {
			c := &flatCase{Eng: genIdxEng(t)}
			c.Prefix, c.Prefix2 = prefixFree(genPrefix(t), genPrefix(t))
			c.Objs, c.Level = genObjs(t, rapid.IntRange(1, 6).Draw(t, "n"), 6, rapid.IntRange(1, 4).Draw(t, "ids"))
			if rapid.Bool().Draw(t, "second") {
				k := rapid.IntRange(1, len(c.Objs)).Draw(t, "k")
				for _, o := range c.Objs[:k] {
					o.ID = genID(t)
					c.Objs2 = append(c.Objs2, o)
				}
			}
			c.Seed = rapid.Int64Range(1, 1<<30).Draw(t, "seed")
			c.Rad = rapid.Float64Range(0, 8).Draw(t, "rad")
			c.Twin = genTwin(t)
			c.Crowd = genCrowd(t)
			if c.Crowd == 0 {
				if objs, level := genWide(t, c.Objs, c.Level); len(objs[0].S.Rings) > 0 && level != c.Level {
					c.Objs, c.Objs2, c.Level = objs, nil, level
				}
			}
			return c
		}, runFlat)
}

func runFlat(c *flatCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2FlatIdx(s, c.Prefix, c.Level)
	idx2 := index.NewS2FlatIdx(s, c.Prefix2, c.Level)
	twin := index.NewS2FlatIdx(s, c.Prefix, c.Level)
	want := map[s2.CellID]map[string]bool{}
	centers := map[string][]s2.CellID{}
	add := func(ix *index.S2FlatIdx, o idxObj, note bool) error {
		g := o.S.geo()
		cu, err := ix.Covering(g)
		if err != nil {
			return failf("cover of a well-formed %s: %v", o.S.Kind, err)
		}
		if c.Twin != 0 {
			// what is there before is remembered wrongly by nobody
			for i, cl := range cu {
				if i == 20 {
					break
				}
				ids, err := idx.GeoIdsAtCell(cl)
				if err != nil {
					return failf("querying cell %s: %v", cl.ToToken(), err)
				}
				if err := sameIDs("querying cell "+cl.ToToken()+" between writes", ids, want[cl]); err != nil {
					return err
				}
			}
		}
		if err := ix.GeoIndex(g, index.GeoID(o.ID)); err != nil {
			return failf("indexing a well-formed %s: %v", o.S.Kind, err)
		}
		if note {
			for _, cl := range cu {
				if want[cl] == nil {
					want[cl] = map[string]bool{}
				}
				want[cl][string(o.ID)] = true
				centers[string(o.ID)] = append(centers[string(o.ID)], cl)
			}
		}
		return nil
	}
	for i, o := range c.Objs {
		w := idx
		if c.Twin>>(i%8)&1 == 1 {
			w = twin
		}
		if err := add(w, o, true); err != nil {
			return err
		}
		if i < len(c.Objs2) {
			if err := add(idx2, c.Objs2[i], false); err != nil {
				return err
			}
		}
	}
	if c.Crowd > 0 {
		x.Label("crowd")
		lat, lng := c.Objs[0].S.Lat, c.Objs[0].S.Lng
		g := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		cl := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)).Parent(c.Level)
		if want[cl] == nil {
			want[cl] = map[string]bool{}
		}
		for i := 0; i < c.Crowd; i++ {
			if err := idx.GeoIndex(g, index.GeoID(crowdID(i))); err != nil {
				return failf("indexing a point: %v", err)
			}
			id := string(crowdID(i))
			want[cl][id] = true
			centers[id] = append(centers[id], cl)
		}
	}
	rng := rand.New(rand.NewSource(c.Seed))
	qs := map[s2.CellID]bool{}
	var order []s2.CellID
	q := func(cl s2.CellID) {
		if !qs[cl] {
			qs[cl] = true
			order = append(order, cl)
		}
	}
	var covered []s2.CellID
	for cl := range want {
		covered = append(covered, cl)
	}
	sort.Slice(covered, func(i, j int) bool { return covered[i] < covered[j] })
	for _, i := range rng.Perm(len(covered)) {
		if len(order) > 200 {
			break
		}
		q(covered[i])
		for _, n := range neighbours(covered[i]) {
			q(n)
		}
	}
	for _, cl := range order {
		ids, err := idx.GeoIdsAtCell(cl)
		if err != nil {
			return failf("querying cell %s: %v", cl.ToToken(), err)
		}
		if err := sameIDs("querying cell "+cl.ToToken(), ids, want[cl]); err != nil {
			return err
		}
		if len(want[cl]) > 1 {
			x.NonTrivial()
		}
		if c.Level > 0 && rng.Intn(20) == 0 {
			if ids, err := idx.GeoIdsAtCell(cl.Parent(c.Level - 1)); err == nil {
				return failf("a cell of level %d is accepted by an index of level %d (%d ids)", c.Level-1, c.Level, len(ids))
			}
		}
		if c.Level < 30 && rng.Intn(20) == 0 {
			if ids, err := idx.GeoIdsAtCell(cl.ChildBeginAtLevel(c.Level + 1)); err == nil {
				return failf("a cell of level %d is accepted by an index of level %d (%d ids)", c.Level+1, c.Level, len(ids))
			}
		}
	}
	for k := 0; k < 4; k++ {
		var list []s2.CellID
		w := map[string]bool{}
		n := rng.Intn(7)
		if rng.Intn(150) == 0 {
			list = manyCells(rng, c.Level)
		}
		for i := 0; i < n; i++ {
			cl := order[rng.Intn(len(order))]
			list = append(list, cl)
			if rng.Intn(4) == 0 {
				list = append(list, cl)
			}
		}
		for _, cl := range list {
			for id := range want[cl] {
				w[id] = true
			}
		}
		ids, err := idx.GeoIdsAtCells(list)
		if err != nil {
			return failf("querying %d cells: %v", len(list), err)
		}
		if err := sameIDs(fmt.Sprintf("querying %d cells", len(list)), ids, w); err != nil {
			return err
		}
		if c.Level > 0 && n > 0 {
			bad := append(append([]s2.CellID{}, list...), list[0].Parent(c.Level-1))
			if ids, err := idx.GeoIdsAtCells(bad); err == nil {
				return failf("a list with a cell of another level is accepted (%d ids)", len(ids))
			}
		}
	}
	// a circle returns only objects covered by a cell that touches it
	for k := 0; k < 2; k++ {
		cl := order[rng.Intn(len(order))]
		lat, lng := llVec(cellCenter(cl))
		r := math.Min(3.1, c.Rad*cellSize(c.Level)*rng.Float64())
		if c.Level > 6 && c.Rad > 1 && rng.Intn(500) == 0 {
			r = cellSize(c.Level) * (10 + 15*rng.Float64())
		}
		radius := radToMeters(r)
		ids, err := idx.GeoIdsRadiusQuery(lat, lng, radius)
		if err != nil {
			return failf("radius query: %v", err)
		}
		seen := map[string]bool{}
		for _, id := range ids {
			if seen[string(id)] {
				return failf("a radius query returns id %x twice", []byte(id))
			}
			seen[string(id)] = true
			near := false
			for _, oc := range centers[string(id)] {
				if distCell(oc, vecLL(lat, lng)) <= r+1e-7 {
					near = true
					break
				}
			}
			if !near {
				return failf("a radius query of %.3f m around %.9f,%.9f returns id %x which no cell near the circle holds", radius, lat, lng, []byte(id))
			}
		}
		// every cell strictly inside reach belongs to the answer
		for _, oc := range covered {
			if distCell(oc, vecLL(lat, lng)) < r-1e-9 && chordAngle(vecLL(lat, lng), cellCenter(oc)) < r-1e-9 {
				for id := range want[oc] {
					if !seen[id] {
						return failf("a radius query of %.3f m around %.9f,%.9f misses id %x of cell %s inside the circle", radius, lat, lng, id, oc.ToToken())
					}
				}
			}
		}
		x.Label("radius query")
	}
	return nil
}

// ---------------------------------------------------------------- X03

type ptSpec struct {
	Leaf uint64  `json:"leaf,omitempty"`
	Lat  float64 `json:"lat,omitempty"`
	Lng  float64 `json:"lng,omitempty"`
	ID   B       `json:"id"`
	Geo  bool    `json:"geo,omitempty"` // index it through a GeoData
}

func (p ptSpec) ll() (float64, float64) {
	if p.Leaf != 0 {
		ll := s2.CellID(p.Leaf).LatLng()
		return ll.Lat.Degrees(), ll.Lng.Degrees()
	}
	return p.Lat, p.Lng
}

func (p ptSpec) leaf() s2.CellID {
	lat, lng := p.ll()
	return s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
}

func (p ptSpec) index(idx *index.S2PointIdx) ([]byte, error) {
	lat, lng := p.ll()
	if p.Geo {
		return idx.GeoPointIndex(&geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}, index.GeoID(p.ID))
	}
	return idx.PointIndex(lat, lng, index.GeoID(p.ID))
}

// extremes are the first and last leaves of a cell and their outer neighbours.
func extremes(c s2.CellID) []s2.CellID {
	return []s2.CellID{c.RangeMin(), c.RangeMax(), c.RangeMin().PrevWrap(), c.RangeMax().NextWrap()}
}

func genPoints(t *rapid.T, min, max int) []ptSpec {
	lat, lng := genLatLng(t)
	anchor := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
	n := rapid.IntRange(min, max).Draw(t, "npts")
	var out []ptSpec
	for i := 0; i < n; i++ {
		p := ptSpec{ID: genID(t), Geo: rapid.Bool().Draw(t, "geo")}
		switch rapid.IntRange(0, 5).Draw(t, "pt") {
		case 0:
			p.Lat, p.Lng = genLatLng(t)
		case 1:
			d := math.Pow(10, rapid.Float64Range(-9, 0).Draw(t, "logd"))
			p.Lat, p.Lng = offsetVec(lat, lng, rapid.Float64Range(0, 6.28).Draw(t, "b"), d)
		default:
			a := anchor
			if len(out) > 0 && rapid.IntRange(0, 2).Draw(t, "re") == 0 {
				a = out[len(out)-1].leaf()
			}
			e := extremes(a.Parent(rapid.IntRange(0, 30).Draw(t, "l")))
			p.Leaf = uint64(e[rapid.IntRange(0, 3).Draw(t, "e")])
		}
		out = append(out, p)
	}
	return out
}

type pointCase struct {
	Eng    Eng      `json:"eng"`
	Prefix B        `json:"prefix"`
	Other  B        `json:"other"`
	Pts    []ptSpec `json:"pts"`
	Seed   int64    `json:"seed"`
	Twin   int      `json:"twin,omitempty"`
	Crowd  int      `json:"crowd,omitempty"`
}

func init() {
	register(Prop{ID: "X03", Quick: 15000, Thorough: 120000,
		Rule: "1-14 points, many on the first or last leaf of cells of every level or just beyond, indexed in a store next to another prefix; every ancestor level of every point, neighbours, faces and random lists are queried and compared with containment of leaf ids; non-trivial: a queried cell holds its own last or first leaf"},
		func(t *rapid.T) *pointCase {
			c := &pointCase{Eng: genIdxEng(t), Pts: genPoints(t, 1, 14), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
			c.Prefix, c.Other = prefixFree(genPrefix(t), genPrefix(t))
			c.Twin = genTwin(t)
			c.Crowd = genCrowd(t)
			return c
		}, runPoints)
}

// indexPoints indexes points, one leaf per id.
func indexPoints(idx, twin *index.S2PointIdx, bits int, pts []ptSpec) (map[string]s2.CellID, error) {
	at := map[string]s2.CellID{}
	for i, p := range pts {
		l := p.leaf()
		if o, ok := at[string(p.ID)]; ok && o != l {
			continue
		}
		if bits != 0 && i < 32 {
			w := map[string]bool{}
			for id, o := range at {
				if o == l {
					w[id] = true
				}
			}
			ids, err := idx.GeoIdsAtCell(l)
			if err != nil {
				return nil, failf("querying cell %s: %v", l.ToToken(), err)
			}
			if err := sameIDs("querying leaf "+l.ToToken()+" between writes", ids, w); err != nil {
				return nil, err
			}
		}
		at[string(p.ID)] = l
		w := idx
		if bits>>(i%8)&1 == 1 {
			w = twin
		}
		if _, err := p.index(w); err != nil {
			lat, lng := p.ll()
			return nil, failf("indexing point %.9f,%.9f: %v", lat, lng, err)
		}
	}
	return at, nil
}

func runPoints(c *pointCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2PointIdx(s, c.Prefix)
	other := index.NewS2PointIdx(s, c.Other)
	pts := c.Pts
	if c.Crowd > 0 {
		x.Label("crowd")
		lat, lng := pts[0].ll()
		pts = append(pts[:len(pts):len(pts)], crowdPoints(c.Crowd, lat, lng, cellSize(20))...)
	}
	at, err := indexPoints(idx, index.NewS2PointIdx(s, c.Prefix), c.Twin, pts)
	if err != nil {
		return err
	}
	for i, p := range c.Pts {
		if i%2 == 0 {
			p.ID = append(append(B{}, p.ID...), 'o')
			if _, err := p.index(other); err != nil {
				return failf("indexing in the other index: %v", err)
			}
		}
	}
	ids := make([]string, 0, len(at))
	for id := range at {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	expect := func(cl s2.CellID) map[string]bool {
		w := map[string]bool{}
		lv := cl.Level()
		for _, id := range ids {
			if at[id].Parent(lv) == cl {
				w[id] = true
			}
		}
		return w
	}
	rng := rand.New(rand.NewSource(c.Seed))
	var cells []s2.CellID
	for f := 0; f < 6; f++ {
		cells = append(cells, s2.CellIDFromFace(f))
	}
	for i, id := range ids {
		if i > 20 && i%200 != 0 {
			continue
		}
		for l := 0; l <= 30; l++ {
			if len(ids) > 6 && rng.Intn(3) != 0 {
				continue
			}
			cl := at[id].Parent(l)
			cells = append(cells, cl)
			if rng.Intn(3) == 0 {
				cells = append(cells, neighbours(cl)[rng.Intn(6)])
			}
			if cl.RangeMax() == at[id] && l < 30 {
				x.NonTrivial()
			}
		}
	}
	for _, cl := range cells {
		got, err := idx.GeoIdsAtCell(cl)
		if err != nil {
			return failf("querying cell %s: %v", cl.ToToken(), err)
		}
		if err := sameIDs(fmt.Sprintf("querying cell %s (level %d)", cl.ToToken(), cl.Level()), got, expect(cl)); err != nil {
			return err
		}
	}
	for k := 0; k < 4; k++ {
		var list []s2.CellID
		w := map[string]bool{}
		if len(ids) < 30 && rng.Intn(150) == 0 {
			list = manyCells(rng, rng.Intn(31))
		}
		for i := rng.Intn(7); i > 0; i-- {
			list = append(list, cells[rng.Intn(len(cells))])
		}
		for _, cl := range list {
			for id := range expect(cl) {
				w[id] = true
			}
		}
		got, err := idx.GeoIdsAtCells(list)
		if err != nil {
			return failf("querying %d cells: %v", len(list), err)
		}
		if err := sameIDs(fmt.Sprintf("querying %d cells", len(list)), got, w); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- X04

type radiusCase struct {
	Eng    Eng      `json:"eng"`
	Prefix B        `json:"prefix"`
	Lat    float64  `json:"lat"`
	Lng    float64  `json:"lng"`
	Radius float64  `json:"radius"`
	Pts    []ptSpec `json:"pts"`
	Twin   int      `json:"twin,omitempty"`
	Crowd  int      `json:"crowd,omitempty"`
}

func genAround(t *rapid.T, lat, lng, d float64) ptSpec {
	p := ptSpec{ID: genID(t)}
	a, b := offsetVec(lat, lng, rapid.Float64Range(0, 6.28).Draw(t, "b"), math.Min(math.Pi, d))
	p.Lat, p.Lng = a, b
	if rapid.IntRange(0, 2).Draw(t, "snap") == 0 {
		// snap to the end of a cell nearby
		leaf := p.leaf()
		e := extremes(leaf.Parent(rapid.IntRange(0, 29).Draw(t, "l")))
		p.Leaf = uint64(e[rapid.IntRange(0, 3).Draw(t, "e")])
		p.Lat, p.Lng = 0, 0
	}
	return p
}

func init() {
	register(Prop{ID: "X04", Quick: 32000, Thorough: 256000,
		Rule: "a circle of 0.5 m to more than the whole Earth anywhere, 1-14 points at chosen fractions of the radius (well inside, 1e-6 inside or outside, beyond, antipode), centimetres from the edge or on the first and last leaf of surrounding cells, compared with great-circle distances computed with atan2; non-trivial: a point within and a point beyond the radius"},
		func(t *rapid.T) *radiusCase {
			c := &radiusCase{Eng: genIdxEng(t), Prefix: genPrefix(t), Twin: genTwin(t)}
			c.Lat, c.Lng = genLatLng(t)
			c.Radius = math.Exp(rapid.Float64Range(math.Log(0.5), math.Log(2.2e7)).Draw(t, "logr"))
			if rapid.IntRange(0, 9).Draw(t, "special") == 0 {
				c.Radius = rapid.SampledFrom([]float64{earthCircum / 4, earthCircum / 2, earthCircum/2 - 1000, earthCircum * 0.45, earthCircum, 1e9}).Draw(t, "r")
			}
			r := metersToRad(c.Radius)
			n := rapid.IntRange(1, 14).Draw(t, "n")
			for i := 0; i < n; i++ {
				f := rapid.SampledFrom([]float64{0, 0.3, 0.7, 0.9, 0.99, 0.9999, 0.999999, 1.000001, 1.0001, 1.01, 1.1, 1.5, 3}).Draw(t, "f")
				d := r * f
				if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
					// centimetres from the edge
					d = math.Max(0, r+rapid.SampledFrom([]float64{-1, -0.1, -0.03, -0.02, -0.015, -0.01, 0.01, 0.015, 0.02, 0.03, 0.1, 1}).Draw(t, "m")/earthCircum*2*math.Pi)
				}
				p := genAround(t, c.Lat, c.Lng, d)
				if rapid.IntRange(0, 9).Draw(t, "far") == 0 {
					p = genAround(t, c.Lat, c.Lng, math.Pi*(1-1e-5*float64(rapid.IntRange(0, 9).Draw(t, "anti"))))
				}
				c.Pts = append(c.Pts, p)
			}
			c.Crowd = genCrowd(t)
			return c
		}, runRadius)
}

func runRadius(c *radiusCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2PointIdx(s, c.Prefix)
	got := map[string]int{}
	at, pos := map[string]s2.CellID{}, map[string]ptSpec{}
	twin := index.NewS2PointIdx(s, c.Prefix)
	pts := c.Pts
	if c.Crowd > 0 {
		x.Label("crowd")
		pts = append(pts[:len(pts):len(pts)], crowdPoints(c.Crowd, c.Lat, c.Lng, 1.2*metersToRad(c.Radius))...)
	}
	for i, p := range pts {
		if _, ok := at[string(p.ID)]; ok {
			continue
		}
		at[string(p.ID)], pos[string(p.ID)] = p.leaf(), p
		w := idx
		if c.Twin>>(i%8)&1 == 1 && i < 32 {
			w = twin
			if _, err := idx.GeoIdsRadiusQuery(c.Lat, c.Lng, c.Radius); err != nil {
				return failf("radius query: %v", err)
			}
		}
		if _, err := p.index(w); err != nil {
			return failf("indexing a point: %v", err)
		}
	}
	ids, err := idx.GeoIdsRadiusQuery(c.Lat, c.Lng, c.Radius)
	if err != nil {
		return failf("radius query: %v", err)
	}
	for _, id := range ids {
		got[string(id)]++
		if _, ok := at[string(id)]; !ok {
			return failf("radius query returns the unknown id %x", []byte(id))
		}
		if got[string(id)] > 1 {
			return failf("radius query returns id %x twice", []byte(id))
		}
	}
	r := c.Radius
	in, out := false, false
	cv := vecLL(c.Lat, c.Lng)
	for id, p := range pos {
		lat, lng := p.ll()
		ang := angle(cv, vecLL(lat, lng))
		d := radToMeters(ang)
		// half the diagonal of a leaf cell
		tol := 0.0078 + 1e-11*r
		if ang > math.Pi-1e-3 {
			tol += 5
		}
		switch {
		case d <= r-tol:
			in = true
			if got[id] == 0 {
				return failf("the point %.9f,%.9f is %.4f m from %.9f,%.9f and the query of radius %.4f m misses it", lat, lng, d, c.Lat, c.Lng, r)
			}
		case d > r+tol:
			out = true
			if got[id] != 0 {
				return failf("the point %.9f,%.9f is %.4f m from %.9f,%.9f and the query of radius %.4f m returns it", lat, lng, d, c.Lat, c.Lng, r)
			}
		default:
			x.Label("point within quantisation of the circle")
		}
	}
	if in && out {
		x.NonTrivial()
	}
	if r > earthCircum/4 {
		x.Label("radius beyond a hemisphere")
	}
	return nil
}

// ---------------------------------------------------------------- X05

type rectCase struct {
	Eng    Eng      `json:"eng"`
	Prefix B        `json:"prefix"`
	UrLat  float64  `json:"urlat"`
	UrLng  float64  `json:"urlng"`
	BlLat  float64  `json:"bllat"`
	BlLng  float64  `json:"bllng"`
	Pts    []ptSpec `json:"pts"`
	Twin   int      `json:"twin,omitempty"`
	Crowd  int      `json:"crowd,omitempty"`
}

func wrapLng(l float64) float64 {
	for l > 180 {
		l -= 360
	}
	for l < -180 {
		l += 360
	}
	return l
}

func clampLat(l float64) float64 { return math.Max(-90, math.Min(90, l)) }

// genRect draws a rectangle; extent is in degrees.
func genRect(t *rapid.T, maxDeg float64) (urlat, urlng, bllat, bllng float64) {
	bllat, bllng = genLatLng(t)
	ext := func(l string) float64 {
		return math.Min(maxDeg, math.Exp(rapid.Float64Range(math.Log(1e-5), math.Log(359)).Draw(t, l)))
	}
	h := ext("h")
	w := ext("w")
	if bllat+h > 90 {
		bllat = clampLat(bllat - h)
	}
	urlat = clampLat(bllat + h)
	urlng = wrapLng(bllng + w)
	if maxDeg >= 360 {
		switch rapid.IntRange(0, 15).Draw(t, "special") {
		case 0:
			bllat, bllng, urlat, urlng = -90, -180, 90, 180
		case 1:
			bllng, urlng = -180, 180
		case 2:
			bllat, urlat = -90, 90
		case 3:
			urlat = 90
		case 4:
			bllat = -90
		case 5:
			urlng = 180
		case 6:
			bllng = rapid.SampledFrom([]float64{180, -180}).Draw(t, "anti")
		case 7:
			// all the way around, or a longitude written another way
			switch rapid.IntRange(0, 2).Draw(t, "turns") {
			case 0:
				urlng = bllng + 360
			case 1:
				bllng, urlng = bllng-w/2-180, bllng+w/2+180
			default:
				bllng += 360 * float64(rapid.IntRange(-1, 1).Draw(t, "lap"))
				urlng = bllng + w
			}
		}
	}
	return
}

func lngWidth(bl, ur float64) float64 {
	if ur-bl >= 360 {
		return 360
	}
	w := math.Mod(ur-bl, 360)
	if w < 0 {
		w += 360
	}
	return w
}

// inRect: 1 inside, -1 outside, 0 within rounding of the border.
func inRect(urlat, urlng, bllat, bllng, lat, lng, tolDeg float64) int {
	lo, hi := math.Min(urlat, bllat), math.Max(urlat, bllat)
	if lat > hi+tolDeg || lat < lo-tolDeg {
		return -1
	}
	res := 1
	if lat > hi-tolDeg && hi < 90 || lat < lo+tolDeg && lo > -90 {
		res = 0
	}
	w := lngWidth(bllng, urlng)
	if w >= 360 {
		return res
	}
	cos := math.Cos(lat * math.Pi / 180)
	if cos < 1e-6 {
		return 0
	}
	tl := tolDeg / cos
	rel := math.Mod(lng-bllng, 360)
	if rel < 0 {
		rel += 360
	}
	if rel < tl || rel > 360-tl || math.Abs(rel-w) < tl {
		return 0
	}
	if rel > w {
		return -1
	}
	return res
}

// genEdgeRect draws a location just inside an edge of a cell, and a rectangle that
// reaches across that edge only around the location: edges of cells are great
// circles, sides of rectangles are parallels.
func genEdgeRect(t *rapid.T, level int) (lat, lng float64, r [4]float64) {
	la, ln := genLatLng(t)
	cl := s2.CellFromCellID(s2.CellIDFromLatLng(s2.LatLngFromDegrees(la, ln)).Parent(level))
	k := rapid.IntRange(0, 3).Draw(t, "edge")
	a, b := cl.Vertex(k).Vector, cl.Vertex((k+1)&3).Vector
	f := rapid.Float64Range(0.02, 0.98).Draw(t, "along")
	side := a.Distance(b)
	q := a.Mul(1 - f).Add(b.Mul(f)).Normalize()
	if rapid.IntRange(0, 1).Draw(t, "apex") == 0 {
		// the northernmost or southernmost location of the edge, where only its middle
		// may be inside the rectangle
		n := a.Cross(b).Normalize()
		top := r3.Vector{Z: 1}.Sub(n.Mul(n.Z)).Normalize()
		for _, v := range []r3.Vector{top, top.Mul(-1)} {
			if a.Cross(v).Dot(n) > 0 && v.Cross(b).Dot(n) > 0 {
				q = v
			}
		}
	}
	in := cl.Center().Vector.Sub(q).Normalize()
	pw := func(l string, lo, hi float64) float64 {
		return math.Pow(10, rapid.Float64Range(lo, hi).Draw(t, l))
	}
	p := q.Add(in.Mul(side * side * pw("eps", -4, -0.5) / 8)).Normalize()
	lat, lng = llVec(p)
	clat, _ := llVec(cl.Center().Vector)
	deg := 180 / math.Pi
	near := math.Max(2e-7, side*side*pw("near", -5, -1)/8*deg)
	far := side * deg * pw("far", -3, 0)
	up, down := far, near
	if qla, _ := llVec(q); qla < clat {
		up, down = near, far
	}
	cos := math.Max(1e-2, math.Cos(lat*math.Pi/180))
	w1, w2 := math.Min(170, side*deg*pw("west", -3, 0)/cos), math.Min(170, side*deg*pw("east", -3, 0)/cos)
	return lat, lng, [4]float64{clampLat(lat + up), wrapLng(lng + w2), clampLat(lat - down), wrapLng(lng - w1)}
}

func init() {
	register(Prop{ID: "X05", Quick: 32000, Thorough: 256000,
		Rule: "a rectangle from a metre to the whole globe (antimeridian, poles, more than half of the globe, corners at +-180), 1-14 points inside, 1e-7 to 1e-4 degrees around its edges, outside on first and last leaves of surrounding cells and in the sliver between the edge of a cell and a parallel, compared with interval arithmetic in degrees; non-trivial: a point inside and a point outside"},
		func(t *rapid.T) *rectCase {
			c := &rectCase{Eng: genIdxEng(t), Prefix: genPrefix(t), Twin: genTwin(t)}
			c.UrLat, c.UrLng, c.BlLat, c.BlLng = genRect(t, 360)
			if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
				p := ptSpec{ID: genID(t)}
				var r [4]float64
				p.Lat, p.Lng, r = genEdgeRect(t, rapid.IntRange(0, 9).Draw(t, "el"))
				c.UrLat, c.UrLng, c.BlLat, c.BlLng = r[0], r[1], r[2], r[3]
				c.Pts = append(c.Pts, p)
			}
			w, h := lngWidth(c.BlLng, c.UrLng), c.UrLat-c.BlLat
			n := rapid.IntRange(1, 14).Draw(t, "n")
			fr := func(l string) float64 {
				f := rapid.SampledFrom([]float64{0, 0, 1, 1, 0.5, 0.25, 0.9, -0.5, 1.5, -2}).Draw(t, l)
				return f
			}
			for i := 0; i < n; i++ {
				p := ptSpec{ID: genID(t)}
				eps := rapid.SampledFrom([]float64{1e-7, -1e-7, 1e-6, -1e-6, 1e-4, -1e-4, 0}).Draw(t, "eps")
				eps2 := rapid.SampledFrom([]float64{1e-7, -1e-7, 1e-6, -1e-6, 1e-4, -1e-4, 0}).Draw(t, "eps2")
				p.Lat = clampLat(c.BlLat + h*fr("fy") + eps)
				cos := math.Max(1e-3, math.Cos(p.Lat*math.Pi/180))
				p.Lng = wrapLng(math.Mod(c.BlLng+w*fr("fx")+eps2/cos, 360))
				if rapid.IntRange(0, 3).Draw(t, "snap") == 0 {
					e := extremes(p.leaf().Parent(rapid.IntRange(0, 29).Draw(t, "l")))
					p.Leaf = uint64(e[rapid.IntRange(0, 3).Draw(t, "e")])
					p.Lat, p.Lng = 0, 0
				}
				if rapid.IntRange(0, 7).Draw(t, "any") == 0 {
					p.Leaf = 0
					p.Lat, p.Lng = genLatLng(t)
				}
				c.Pts = append(c.Pts, p)
			}
			if rapid.IntRange(0, 15).Draw(t, "swap") == 0 {
				c.UrLat, c.BlLat = c.BlLat, c.UrLat
			}
			c.Crowd = genCrowd(t)
			return c
		}, runRect)
}

func runRect(c *rectCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2PointIdx(s, c.Prefix)
	got := map[string]int{}
	pos := map[string]ptSpec{}
	twin := index.NewS2PointIdx(s, c.Prefix)
	pts := c.Pts
	if c.Crowd > 0 {
		x.Label("crowd")
		h := math.Abs(c.UrLat - c.BlLat)
		pts = append(pts[:len(pts):len(pts)], crowdPoints(c.Crowd, (c.UrLat+c.BlLat)/2, wrapLng(c.BlLng+lngWidth(c.BlLng, c.UrLng)/2), h*math.Pi/180)...)
	}
	for i, p := range pts {
		if _, ok := pos[string(p.ID)]; ok {
			continue
		}
		pos[string(p.ID)] = p
		w := idx
		if c.Twin>>(i%8)&1 == 1 && i < 32 {
			w = twin
			if _, err := idx.GeoIdsRectQuery(c.UrLat, c.UrLng, c.BlLat, c.BlLng); err != nil {
				return failf("rectangle query: %v", err)
			}
		}
		if _, err := p.index(w); err != nil {
			return failf("indexing a point: %v", err)
		}
	}
	ids, err := idx.GeoIdsRectQuery(c.UrLat, c.UrLng, c.BlLat, c.BlLng)
	if err != nil {
		return failf("rectangle query: %v", err)
	}
	for _, id := range ids {
		got[string(id)]++
		if _, ok := pos[string(id)]; !ok {
			return failf("rectangle query returns the unknown id %x", []byte(id))
		}
		if got[string(id)] > 1 {
			return failf("rectangle query returns id %x twice", []byte(id))
		}
	}
	in, out := false, false
	for id, p := range pos {
		lat, lng := p.ll()
		switch inRect(c.UrLat, c.UrLng, c.BlLat, c.BlLng, lat, lng, 7.5e-8) {
		case 1:
			in = true
			if got[id] == 0 {
				return failf("the rectangle from %.9f,%.9f to %.9f,%.9f contains %.9f,%.9f but the query misses it", c.BlLat, c.BlLng, c.UrLat, c.UrLng, lat, lng)
			}
		case -1:
			out = true
			if got[id] != 0 {
				return failf("the rectangle from %.9f,%.9f to %.9f,%.9f does not contain %.9f,%.9f but the query returns it", c.BlLat, c.BlLng, c.UrLat, c.UrLng, lat, lng)
			}
		default:
			x.Label("point within quantisation of the border")
		}
	}
	if in && out {
		x.NonTrivial()
	}
	if lngWidth(c.BlLng, c.UrLng) > 180 {
		x.Label("wider than half of the globe")
	}
	if c.BlLng > c.UrLng {
		x.Label("crosses the antimeridian")
	}
	return nil
}

// ---------------------------------------------------------------- X06

type timeEntry struct {
	Cell int   `json:"cell"` // which of the neighbouring cells
	T    int64 `json:"t"`
	ID   B     `json:"id"`
	Zone int   `json:"zone,omitempty"`
}

type timeCase struct {
	Eng    Eng         `json:"eng"`
	Prefix B           `json:"prefix"`
	Level  int         `json:"level"`
	Base   uint64      `json:"base"`
	Ents   []timeEntry `json:"ents"`
	Wins   [][2]int64  `json:"wins"`
	Twin   int         `json:"twin,omitempty"`
	Crowd  int         `json:"crowd,omitempty"`
}

func genTime(t *rapid.T, pool []int64) int64 {
	switch rapid.IntRange(0, 6).Draw(t, "tk") {
	case 0:
		return rapid.Int64().Draw(t, "t")
	case 6: // around a date, at the precision clocks have
		d := rapid.SampledFrom([]int64{0, math.MaxInt32, math.MaxUint32, -math.MaxInt32, 946684800, 1709164800, 4102444800, 1 << 33, -1 << 33}).Draw(t, "date")
		u := rapid.SampledFrom([]int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 86400e9}).Draw(t, "unit")
		return d*1e9 + u*rapid.Int64Range(-100, 100).Draw(t, "k")
	case 1:
		return rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1500000000000000000, -1000000000, 1 << 32, 255, 256}).Draw(t, "t")
	}
	if len(pool) == 0 {
		return 1500000000000000000
	}
	v := rapid.SampledFrom(pool).Draw(t, "t")
	d := rapid.SampledFrom([]int64{0, 0, 1, -1, 256, -256, 1000000000}).Draw(t, "dt")
	if d > 0 && v > math.MaxInt64-d || d < 0 && v < math.MinInt64-d {
		return v
	}
	return v + d
}

func (c *timeCase) cells() []s2.CellID {
	b := s2.CellID(c.Base).Parent(c.Level)
	return append([]s2.CellID{b}, neighbours(b)...)
}

func atTime(ns int64, zone int) time.Time {
	t := time.Unix(0, ns)
	if zone != 0 {
		t = t.In(time.FixedZone("z", zone*3600))
	}
	return t
}

func init() {
	register(Prop{ID: "X06", Quick: 20000, Thorough: 160000,
		Rule: "1-16 entries in a cell and its neighbours on the curve and on the sphere, times clustered within nanoseconds, before 1970 and at the limits of int64, ids that extend each other; windows around those times, inverted and empty ones; the answer is compared with the entries sorted newest first; non-trivial: a window that holds two entries and excludes one of the same cell"},
		func(t *rapid.T) *timeCase {
			c := &timeCase{Eng: genIdxEng(t), Prefix: genPrefix(t), Level: rapid.IntRange(0, 30).Draw(t, "level"), Twin: genTwin(t)}
			lat, lng := genLatLng(t)
			c.Base = uint64(s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)))
			var pool []int64
			n := rapid.IntRange(1, 16).Draw(t, "n")
			for i := 0; i < n; i++ {
				e := timeEntry{T: genTime(t, pool), ID: genID(t), Zone: rapid.IntRange(0, 3).Draw(t, "zone")}
				if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
					e.Cell = rapid.IntRange(0, 6).Draw(t, "cell")
				}
				pool = append(pool, e.T)
				c.Ents = append(c.Ents, e)
			}
			w := rapid.IntRange(1, 6).Draw(t, "nw")
			for i := 0; i < w; i++ {
				a, b := genTime(t, pool), genTime(t, pool)
				if a < b && rapid.IntRange(0, 5).Draw(t, "inv") != 0 {
					a, b = b, a
				}
				c.Wins = append(c.Wins, [2]int64{a, b})
			}
			c.Wins = append(c.Wins, [2]int64{math.MaxInt64, math.MinInt64})
			c.Crowd = genCrowd(t)
			return c
		}, runTimes)
}

func runTimes(c *timeCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2FlatTimeIdx(s, c.Prefix, c.Level)
	cells := c.cells()
	type key struct {
		c  s2.CellID
		t  int64
		id string
	}
	ents := map[key]bool{}
	twin := index.NewS2FlatTimeIdx(s, c.Prefix, c.Level)
	all := c.Ents
	if c.Crowd > 0 {
		x.Label("crowd")
		all = all[:len(all):len(all)]
		for i := 0; i < c.Crowd; i++ {
			e := timeEntry{T: c.Ents[i%len(c.Ents)].T/2 + int64(i/7), ID: crowdID(i)}
			if i%5 == 0 {
				e.Cell = i % 7
			}
			all = append(all, e)
		}
	}
	for i, e := range all {
		cl := cells[e.Cell]
		lat, lng := llVec(cellCenter(cl))
		g := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		wr := idx
		if c.Twin>>(i%8)&1 == 1 && i < 32 {
			wr = twin
			if _, err := idx.GeoTimeIdsAtCell(cl, index.MaxGeoTime, index.MinGeoTime); err != nil {
				return failf("querying cell %s: %v", cl.ToToken(), err)
			}
			for _, w := range c.Wins {
				if _, err := idx.GeoTimeIdsAtCell(cl, atTime(w[0], 0), atTime(w[1], 1)); err != nil {
					return failf("querying cell %s from %d to %d: %v", cl.ToToken(), w[0], w[1], err)
				}
			}
		}
		if err := wr.GeoTimeIndex(g, atTime(e.T, e.Zone), index.GeoID(e.ID)); err != nil {
			return failf("indexing a point at time %d: %v", e.T, err)
		}
		at := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)).Parent(c.Level)
		ents[key{at, e.T, string(e.ID)}] = true
	}
	expect := func(cl s2.CellID, from, to int64) (out []key, excluded bool) {
		for k := range ents {
			if k.c == cl {
				if to < k.t && k.t <= from {
					out = append(out, k)
				} else {
					excluded = true
				}
			}
		}
		sort.Slice(out, func(i, j int) bool {
			if out[i].t != out[j].t {
				return out[i].t > out[j].t
			}
			return out[i].id < out[j].id
		})
		return
	}
	rng := rand.New(rand.NewSource(int64(c.Base) + int64(len(c.Ents))))
	for _, w := range c.Wins {
		all := map[string]bool{}
		for _, cl := range cells {
			want, excl := expect(cl, w[0], w[1])
			got, err := idx.GeoTimeIdsAtCell(cl, atTime(w[0], 0), atTime(w[1], 1))
			if err != nil {
				return failf("querying cell %s from %d to %d: %v", cl.ToToken(), w[0], w[1], err)
			}
			if len(got) != len(want) {
				return failf("querying cell %s from %d down to %d returns %d entries, expected %d", cl.ToToken(), w[0], w[1], len(got), len(want))
			}
			for i := 0; i < len(want); {
				j := i
				g, e := map[string]bool{}, map[string]bool{}
				for ; j < len(want) && want[j].t == want[i].t; j++ {
					g[string(got[j])] = true
					e[want[j].id] = true
				}
				for id := range e {
					if !g[id] {
						return failf("querying cell %s from %d down to %d: id %x of time %d is not among the entries %d to %d", cl.ToToken(), w[0], w[1], id, want[i].t, i, j-1)
					}
				}
				i = j
			}
			for _, k := range want {
				all[k.id] = true
			}
			if len(want) >= 2 && excl {
				x.NonTrivial()
			}
			if len(want) > 0 && want[len(want)-1].t < 0 {
				x.Label("entry before 1970")
			}
		}
		// several cells, with repeats
		list := append(append([]s2.CellID{}, cells...), cells[0])
		if rng.Intn(150) == 0 {
			list = append(manyCells(rng, c.Level), list...)
			for _, cl := range list {
				want, _ := expect(cl, w[0], w[1])
				for _, k := range want {
					all[k.id] = true
				}
			}
		}
		got, err := idx.GeoTimeIdsAtCells(list, atTime(w[0], 2), atTime(w[1], 0))
		if err != nil {
			return failf("querying several cells: %v", err)
		}
		if err := sameIDs("querying several cells", got, all); err != nil {
			return err
		}
	}
	if c.Level > 0 {
		if _, err := idx.GeoTimeIdsAtCell(cells[0].Parent(c.Level-1), index.MaxGeoTime, index.MinGeoTime); err == nil {
			return failf("a cell of another level is accepted")
		}
	}
	return nil
}

// ---------------------------------------------------------------- X07

type areaCase struct {
	Eng    Eng        `json:"eng"`
	Prefix B          `json:"prefix"`
	Level  int        `json:"level"`
	Objs   []idxObj   `json:"objs"`
	Rect   bool       `json:"rect"`
	Lat    float64    `json:"lat"`
	Lng    float64    `json:"lng"`
	Radius float64    `json:"radius"`
	R      [4]float64 `json:"r"` // urlat urlng bllat bllng
	From   int64      `json:"from"`
	To     int64      `json:"to"`
	Seed   int64      `json:"seed"`
	Crowd  int        `json:"crowd,omitempty"`
}

func init() {
	register(Prop{ID: "X07", Quick: 19200, Thorough: 153600,
		Rule: "1-6 objects of every kind at clustered times, one circle or rectangle (antimeridian, poles, wide, whole world at low levels) and a time window; complete: objects in the window with one of 30 sampled locations inside the area must be returned; local: returned ids need an object in the window with a cover cell touching the area; non-trivial: an object that must be returned and one that must not"},
		func(t *rapid.T) *areaCase {
			c := &areaCase{Eng: genIdxEng(t), Prefix: genPrefix(t), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed"), Rect: rapid.Bool().Draw(t, "rect")}
			c.Objs, c.Level = genObjs(t, rapid.IntRange(1, 6).Draw(t, "n"), 6, 5)
			var pool []int64
			for i := range c.Objs {
				c.Objs[i].T = genTime(t, pool)
				pool = append(pool, c.Objs[i].T)
			}
			c.From, c.To = genTime(t, pool), genTime(t, pool)
			if c.From < c.To {
				c.From, c.To = c.To, c.From
			}
			if rapid.Bool().Draw(t, "all") {
				c.From, c.To = math.MaxInt64, math.MinInt64
			}
			if rapid.IntRange(0, 11).Draw(t, "inverted") == 0 {
				// an empty window
				c.From, c.To = c.To, c.From
			}
			// the area lies around the first object
			f := c.Objs[0].S
			size := math.Max(f.R, cellSize(c.Level))
			c.Lat, c.Lng = offsetVec(f.Lat, f.Lng, rapid.Float64Range(0, 6.28).Draw(t, "b"), size*rapid.Float64Range(0, 3).Draw(t, "d"))
			r := math.Min(size*rapid.Float64Range(0.01, 3).Draw(t, "r"), 7*cellSize(c.Level))
			most := 10 * cellSize(c.Level)
			if c.Level > 5 && rare(t, "vast", 250) {
				// a thousand cells and more
				r = cellSize(c.Level) * rapid.Float64Range(10, 30).Draw(t, "vr")
				most = 2 * r
			}
			c.Radius = radToMeters(r)
			h := r * 180 / math.Pi
			w := math.Min(h*rapid.Float64Range(0.3, 3).Draw(t, "ar")/math.Max(0.05, math.Cos(c.Lat*math.Pi/180)), 359)
			if c.Level > 4 {
				w = math.Min(w, most*180/math.Pi/math.Max(1e-3, math.Cos(c.Lat*math.Pi/180)))
			}
			c.R = [4]float64{clampLat(c.Lat + h/2), wrapLng(c.Lng + w/2), clampLat(c.Lat - h/2), wrapLng(c.Lng - w/2)}
			if c.Level <= 4 && rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
				c.R[0], c.R[1], c.R[2], c.R[3] = genRect(t, 360)
				c.Radius = math.Exp(rapid.Float64Range(math.Log(1e5), math.Log(2.5e7)).Draw(t, "bigr"))
			}
			if rapid.IntRange(0, 4).Draw(t, "corner") == 0 {
				// a small area and a point on different sides of a cell border
				cl := s2.CellIDFromLatLng(s2.LatLngFromDegrees(f.Lat, f.Lng)).Parent(c.Level)
				v := s2.CellFromCellID(cl).Vertex(rapid.IntRange(0, 3).Draw(t, "v"))
				la, ln := llVec(v.Vector)
				r := cellSize(c.Level) * math.Pow(10, rapid.Float64Range(-6, -0.5).Draw(t, "small"))
				if r > 1e-8 {
					o := &c.Objs[0]
					b := rapid.Float64Range(0, 6.28).Draw(t, "pb")
					o.S = pointShape(offsetVec(la, ln, b, r*0.4))
					c.Lat, c.Lng = offsetVec(la, ln, b+math.Pi, r*0.4)
					c.Radius = radToMeters(r)
					c.R = [4]float64{clampLat(math.Max(o.S.Lat, c.Lat) + 1e-7), 0, clampLat(math.Min(o.S.Lat, c.Lat) - 1e-7), 0}
					c.R[3], c.R[1] = wrapLng(c.Lng-1e-6), wrapLng(o.S.Lng+1e-6)
					if lngWidth(c.R[3], c.R[1]) > 180 {
						c.R[3], c.R[1] = wrapLng(o.S.Lng-1e-6), wrapLng(c.Lng+1e-6)
					}
				}
			}
			if c.Rect && c.Level < 14 && rapid.IntRange(0, 4).Draw(t, "edge") == 0 {
				lat, lng, r := genEdgeRect(t, c.Level)
				c.Objs[0].S = pointShape(lat, lng)
				c.Lat, c.Lng, c.R = lat, lng, r
			}
			c.Crowd = genCrowd(t) / 2
			return c
		}, runArea)
}

func (c *areaCase) inArea(lat, lng float64) int {
	if c.Rect {
		return inRect(c.R[0], c.R[1], c.R[2], c.R[3], lat, lng, 1e-9)
	}
	ang := angle(vecLL(c.Lat, c.Lng), vecLL(lat, lng))
	d := radToMeters(ang)
	tol := 0.001 + 1e-9*c.Radius
	if ang > math.Pi-1e-3 {
		tol += 5
	}
	if d < c.Radius-tol {
		return 1
	}
	if d > c.Radius+tol {
		return -1
	}
	return 0
}

// touches tells whether a cell reaches the area, generously.
func (c *areaCase) touches(cl s2.CellID) bool {
	if !c.Rect {
		return distCell(cl, vecLL(c.Lat, c.Lng)) <= metersToRad(c.Radius)*(1+1e-9)+1e-9 || metersToRad(c.Radius) > math.Pi-1e-3
	}
	rad := math.Pi / 180
	r := s2.Rect{Lat: r1.Interval{Lo: math.Min(c.R[0], c.R[2])*rad - 1e-9, Hi: math.Max(c.R[0], c.R[2])*rad + 1e-9}}
	if w := lngWidth(c.R[3], c.R[1]); w > 360-1e-6 {
		r.Lng = s1.FullInterval()
	} else {
		r.Lng = s1.IntervalFromEndpoints(wrapLng(c.R[3]-1e-7)*rad, wrapLng(c.R[1]+1e-7)*rad)
	}
	return r.Intersects(s2.CellFromCellID(cl).RectBound())
}

func runArea(c *areaCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	idx := index.NewS2FlatTimeIdx(s, c.Prefix, c.Level)
	must1 := map[string]string{}
	may := map[string]bool{}
	known := map[string]bool{}
	objs := c.Objs
	if c.Crowd > 0 {
		x.Label("crowd")
		objs = objs[:len(objs):len(objs)]
		for i, p := range crowdPoints(c.Crowd, c.Objs[0].S.Lat, c.Objs[0].S.Lng, cellSize(c.Level)/2) {
			o := idxObj{S: pointShape(p.Lat, p.Lng), ID: p.ID, T: c.Objs[i%len(c.Objs)].T}
			objs = append(objs, o)
		}
	}
	for n, o := range objs {
		g := o.S.geo()
		if err := idx.GeoTimeIndex(g, atTime(o.T, 0), index.GeoID(o.ID)); err != nil {
			return failf("indexing a well-formed %s: %v", o.S.Kind, err)
		}
		known[string(o.ID)] = true
		if !(c.To < o.T && o.T <= c.From) {
			continue
		}
		for _, p := range o.S.probes(c.Seed+int64(n), 30) {
			lat, lng := llVec(p.v)
			if c.inArea(lat, lng) == 1 {
				must1[string(o.ID)] = fmt.Sprintf("object %d (%s, time %d) has the location %.9f,%.9f inside", n, o.S.Kind, o.T, lat, lng)
				break
			}
		}
		cu, err := idx.Covering(g)
		if err != nil {
			return failf("cover of a well-formed %s: %v", o.S.Kind, err)
		}
		for _, cl := range cu {
			if c.touches(cl) {
				may[string(o.ID)] = true
				break
			}
		}
	}
	var got []index.GeoID
	what := ""
	if c.Rect {
		what = fmt.Sprintf("rectangle query from %.9f,%.9f to %.9f,%.9f, times %d down to %d", c.R[2], c.R[3], c.R[0], c.R[1], c.From, c.To)
		got, err = idx.GeoTimeIdsRectQuery(atTime(c.From, 0), atTime(c.To, 0), c.R[0], c.R[1], c.R[2], c.R[3])
	} else {
		what = fmt.Sprintf("radius query of %.4f m around %.9f,%.9f, times %d down to %d", c.Radius, c.Lat, c.Lng, c.From, c.To)
		got, err = idx.GeoTimeIdsRadiusQuery(atTime(c.From, 0), atTime(c.To, 0), c.Lat, c.Lng, c.Radius)
	}
	if err != nil {
		return failf("%s: %v", what, err)
	}
	seen := map[string]bool{}
	for _, id := range got {
		if seen[string(id)] {
			return failf("%s returns id %x twice", what, []byte(id))
		}
		seen[string(id)] = true
		if !may[string(id)] {
			return failf("%s returns id %x which has no object in the window in a cell touching the area", what, []byte(id))
		}
	}
	for _, id := range idStringsOf(must1) {
		if !seen[id] {
			return failf("%s misses id %x: %s", what, id, must1[id])
		}
	}
	if len(must1) > 0 && len(may) < len(known) {
		x.NonTrivial()
	}
	x.Label(map[bool]string{true: "rectangle", false: "circle"}[c.Rect])
	return nil
}

func idStringsOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- X08

type shareOp struct {
	I int    `json:"i"`
	O idxObj `json:"o"`
	P ptSpec `json:"p"`
}

type shareIdx struct {
	Kind   string `json:"kind"`
	Prefix B      `json:"prefix"`
	Level  int    `json:"level"`
}

type shareCase struct {
	Eng     Eng        `json:"eng"`
	Idx     []shareIdx `json:"idx"`
	Foreign []BOp      `json:"foreign"`
	Ops     []shareOp  `json:"ops"`
	Seed    int64      `json:"seed"`
	From    int64      `json:"from"`
	To      int64      `json:"to"`
}

func init() {
	register(Prop{ID: "X08", Quick: 6000, Thorough: 48000,
		Rule: "2-4 indexes of random kinds under prefix-free prefixes (neighbouring in byte order) in one store with foreign keys next to and around them; interleaved indexing is mirrored to one private reference store per index; compared: every query of every index, and the whole content of the shared store with the union of the private ones; non-trivial: two indexes hold entries and foreign keys exist"},
		func(t *rapid.T) *shareCase {
			c := &shareCase{Eng: genIdxEng(t), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
			pool := []B{{'a'}, {'b'}, {'a', 0xff}, {'a', 0}, {0xff}, {0}, {'p', 0xff, 0xff}, {'q'}, genPrefix(t), genPrefix(t)}
			n := rapid.IntRange(2, 4).Draw(t, "nidx")
			var used []B
			free := func(p B) bool {
				for _, u := range used {
					if bytes.HasPrefix(p, u) || bytes.HasPrefix(u, p) {
						return false
					}
				}
				return len(p) > 0
			}
			objs, level := genObjs(t, rapid.IntRange(1, 4).Draw(t, "nobj"), 5, 3)
			for i := 0; i < n; i++ {
				p := rapid.SampledFrom(pool).Draw(t, "prefix")
				if !free(p) {
					p = B{0x40, byte(i)}
					if !free(p) {
						continue
					}
				}
				used = append(used, p)
				c.Idx = append(c.Idx, shareIdx{Kind: rapid.SampledFrom([]string{"flat", "time", "point"}).Draw(t, "kind"), Prefix: p, Level: level})
			}
			owned := func(k B) bool {
				for _, u := range used {
					if bytes.HasPrefix(k, u) {
						return true
					}
				}
				return false
			}
			kp := append(append([]B{}, used...), B{'x'})
			for i := rapid.IntRange(0, 8).Draw(t, "nf"); i > 0; i-- {
				k := genKeyFrom(t, kp)
				if !owned(k) {
					c.Foreign = append(c.Foreign, BOp{K: "set", Key: k, Val: genVal(t, 100)})
				}
			}
			var times []int64
			for i := rapid.IntRange(2, 10).Draw(t, "nops"); i > 0; i-- {
				o := rapid.SampledFrom(objs).Draw(t, "obj")
				o.T = genTime(t, times)
				o.ID = genID(t)
				times = append(times, o.T)
				p := ptSpec{ID: genID(t)}
				p.Lat, p.Lng = offsetVec(o.S.Lat, o.S.Lng, rapid.Float64Range(0, 6).Draw(t, "b"), o.S.R)
				c.Ops = append(c.Ops, shareOp{I: rapid.IntRange(0, len(c.Idx)-1).Draw(t, "i"), O: o, P: p})
			}
			c.From, c.To = genTime(t, times), genTime(t, times)
			if c.From < c.To {
				c.From, c.To = c.To, c.From
			}
			return c
		}, runShare)
}

type anyIdx struct {
	kind  string
	flat  *index.S2FlatIdx
	tim   *index.S2FlatTimeIdx
	point *index.S2PointIdx
}

func (d shareIdx) make(s store.KVStore) anyIdx {
	p := append([]byte{}, d.Prefix...)
	switch d.Kind {
	case "flat":
		return anyIdx{kind: d.Kind, flat: index.NewS2FlatIdx(s, p, d.Level)}
	case "time":
		return anyIdx{kind: d.Kind, tim: index.NewS2FlatTimeIdx(s, p, d.Level)}
	}
	return anyIdx{kind: "point", point: index.NewS2PointIdx(s, p)}
}

func (a anyIdx) add(op shareOp) error {
	switch a.kind {
	case "flat":
		return a.flat.GeoIndex(op.O.S.geo(), index.GeoID(op.O.ID))
	case "time":
		return a.tim.GeoTimeIndex(op.O.S.geo(), atTime(op.O.T, 0), index.GeoID(op.O.ID))
	}
	_, err := op.P.index(a.point)
	return err
}

// query runs the k-th kind of query of the index around an operation's place.
func (a anyIdx) query(k int, op shareOp, level int, from, to int64) ([]index.GeoID, error) {
	lat, lng := op.O.S.Lat, op.O.S.Lng
	if a.kind == "point" {
		lat, lng = op.P.ll()
	}
	leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
	cl := leaf.Parent(level)
	r := radToMeters(3 * cellSize(level))
	dd := 2 * cellSize(level) * 180 / math.Pi
	ur, bl := clampLat(lat+dd), clampLat(lat-dd)
	we, ea := wrapLng(lng-math.Min(dd, 179)), wrapLng(lng+math.Min(dd, 179))
	f, tt := atTime(from, 0), atTime(to, 0)
	if level > 6 && (ur > 80 || bl < -80) {
		ea = wrapLng(lng + dd)
		we = wrapLng(lng - dd)
	}
	switch a.kind {
	case "flat":
		switch k % 3 {
		case 0:
			return a.flat.GeoIdsAtCell(cl)
		case 1:
			return a.flat.GeoIdsAtCells(append(neighbours(cl), cl))
		}
		return a.flat.GeoIdsRadiusQuery(lat, lng, r)
	case "time":
		switch k % 4 {
		case 0:
			return a.tim.GeoTimeIdsAtCell(cl, f, tt)
		case 1:
			return a.tim.GeoTimeIdsAtCells(append(neighbours(cl), cl), f, tt)
		case 2:
			return a.tim.GeoTimeIdsRadiusQuery(f, tt, lat, lng, r)
		}
		return a.tim.GeoTimeIdsRectQuery(f, tt, ur, ea, bl, we)
	}
	switch k % 5 {
	case 0:
		return a.point.GeoIdsAtCell(leaf.Parent(k % 31))
	case 1:
		return a.point.GeoIdsAtCells([]s2.CellID{cl, leaf})
	case 2:
		return a.point.GeoIdsRadiusQuery(lat, lng, r)
	case 3:
		return a.point.GeoIdsAtCell(cl)
	}
	return a.point.GeoIdsRectQuery(ur, ea, bl, we)
}

func runShare(c *shareCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	want, _ := (Model{}).apply(c.Foreign)
	if err := execOps(s, c.Foreign); err != nil {
		return failf("storing foreign keys: %v", err)
	}
	var shared, priv []anyIdx
	var privS []*strictStore
	for _, d := range c.Idx {
		shared = append(shared, d.make(s))
		ps := newStrict()
		privS = append(privS, ps)
		priv = append(priv, d.make(ps))
	}
	for i, op := range c.Ops {
		e1, e2 := shared[op.I].add(op), priv[op.I].add(op)
		if (e1 == nil) != (e2 == nil) {
			return failf("operation %d: shared store: %v, private store: %v", i, e1, e2)
		}
	}
	filled := 0
	for _, p := range privS {
		if len(p.m) > 0 {
			filled++
		}
		for k, v := range p.m {
			want[k] = v
		}
	}
	if filled >= 2 && len(c.Foreign) > 0 {
		x.NonTrivial()
	}
	if err := checkScan(s, want); err != nil {
		return failf("the shared store is not the union of its parts: %v", err)
	}
	for i, d := range c.Idx {
		for j, op := range c.Ops {
			for k := 0; k < 5; k++ {
				if (j*7+k+int(c.Seed))%3 == 0 {
					continue
				}
				g1, e1 := shared[i].query(k+5*j, op, d.Level, c.From, c.To)
				g2, e2 := priv[i].query(k+5*j, op, d.Level, c.From, c.To)
				if e1 != nil || e2 != nil {
					return failf("query %d of index %d (%s): shared: %v, private: %v", k, i, d.Kind, e1, e2)
				}
				a, b := idStrings(g1), idStrings(g2)
				sort.Strings(a)
				sort.Strings(b)
				if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
					return failf("query %d of index %d (%s) answers %q in the shared store and %q alone", k, i, d.Kind, a, b)
				}
			}
		}
	}
	if err := checkScan(s, want); err != nil {
		return failf("queries changed the store: %v", err)
	}
	return nil
}

// ---------------------------------------------------------------- X09

type aliasCase struct {
	Eng  Eng       `json:"eng"`
	Idx  shareIdx  `json:"idx"`
	Ops  []shareOp `json:"ops"`
	Seed int64     `json:"seed"`
}

func cloneGeo(g *geodata.GeoData) *geodata.GeoData { return proto.Clone(g).(*geodata.GeoData) }

func genAlias(t *rapid.T) *aliasCase {
	c := &aliasCase{Eng: genIdxEng(t), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
	objs, level := genObjs(t, rapid.IntRange(1, 3).Draw(t, "nobj"), 5, 3)
	c.Idx = shareIdx{Kind: rapid.SampledFrom([]string{"flat", "time", "point"}).Draw(t, "kind"), Prefix: genPrefix(t), Level: level}
	for i := rapid.IntRange(1, 8).Draw(t, "nops"); i > 0; i-- {
		o := rapid.SampledFrom(objs).Draw(t, "obj")
		o.T = rapid.SampledFrom([]int64{0, 5, -5, 1500000000000000000}).Draw(t, "t")
		o.ID = genID(t)
		p := ptSpec{ID: genID(t), Geo: rapid.Bool().Draw(t, "geo")}
		p.Lat, p.Lng = offsetVec(o.S.Lat, o.S.Lng, rapid.Float64Range(0, 6).Draw(t, "b"), cellSize(level)*rapid.Float64Range(0, 2).Draw(t, "d"))
		c.Ops = append(c.Ops, shareOp{O: o, P: p})
	}
	return c
}

func init() {
	register(Prop{ID: "X09", Quick: 10000, Thorough: 80000,
		Rule: "1-8 objects indexed on every engine with caller-owned geometry, id, prefix and cell slices that are compared afterwards and then overwritten; answers and returned keys are copied, kept over more queries, writes and closing the store, compared, and overwritten while the store is compared with a mirror; non-trivial: an answer with at least two ids was kept"},
		genAlias, runAlias)
}

// sink keeps the compiler from dropping an append.
var sink []byte

func runAlias(c *aliasCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	closed := false
	defer func() {
		if !closed {
			stableClose(s, &err)
		}
	}()
	mirror := newStrict()
	ref := c.Idx.make(mirror)
	prefix := append([]byte{}, c.Idx.Prefix...)
	var a anyIdx
	switch c.Idx.Kind {
	case "flat":
		a = anyIdx{kind: "flat", flat: index.NewS2FlatIdx(s, prefix, c.Idx.Level)}
	case "time":
		a = anyIdx{kind: "time", tim: index.NewS2FlatTimeIdx(s, prefix, c.Idx.Level)}
	default:
		a = anyIdx{kind: "point", point: index.NewS2PointIdx(s, prefix)}
	}
	type kept struct {
		what string
		mem  [][]byte
		copy []string
	}
	var keep []kept
	hold := func(what string, ids []index.GeoID) {
		k := kept{what: what}
		for _, id := range ids {
			k.mem = append(k.mem, id)
			k.copy = append(k.copy, string(id))
		}
		if len(ids) > 1 {
			x.NonTrivial()
		}
		keep = append(keep, k)
	}
	verify := func(when string) error {
		for _, k := range keep {
			for i := range k.mem {
				if err := touch(k.what+" "+when, func() error {
					if string(k.mem[i]) != k.copy[i] {
						return failf("%s: element %d was %x and reads %x %s", k.what, i, k.copy[i], k.mem[i], when)
					}
					return nil
				}); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for n, op := range c.Ops {
		// the reference index gets its own copies
		if err := ref.add(op); err != nil {
			return failf("indexing well-formed data: %v", err)
		}
		id := append([]byte{}, op.O.ID...)
		if a.kind == "point" {
			id = append([]byte{}, op.P.ID...)
		}
		id = append(make([]byte, 0, len(id)+32), id...) // spare capacity must not be written either
		spare := id[:cap(id)]
		before := string(spare)
		g := op.O.S.geo()
		lat, lng := op.P.ll()
		if a.kind == "point" {
			g = &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		}
		g.Properties = map[string]*spb.Value{"n": {Kind: &spb.Value_NumberValue{NumberValue: 1}}}
		gc := cloneGeo(g)
		sealed := seal(g)
		var key []byte
		switch a.kind {
		case "flat":
			err = a.flat.GeoIndex(g, index.GeoID(id))
		case "time":
			err = a.tim.GeoTimeIndex(g, atTime(op.O.T, 0), index.GeoID(id))
		default:
			if op.P.Geo {
				key, err = a.point.GeoPointIndex(g, index.GeoID(id))
			} else {
				key, err = a.point.PointIndex(lat, lng, index.GeoID(id))
			}
		}
		if err != nil {
			return failf("indexing well-formed data: %v", err)
		}
		if !proto.Equal(g, gc) {
			return failf("indexing changed the geometry of the caller: %v became %v", gc, g)
		}
		if err := sealed(); err != nil {
			return failf("indexing: %v", err)
		}
		if string(spare) != before {
			return failf("indexing changed the memory of the caller's id")
		}
		if string(prefix) != string(c.Idx.Prefix) {
			return failf("indexing changed the caller's prefix")
		}
		if key != nil {
			k := kept{what: "key returned by operation", mem: [][]byte{key}, copy: []string{string(key)}}
			keep = append(keep, k)
			k2 := a.point.PointKey(lat, lng, index.GeoID(id))
			if !bytes.Equal(k2, key) {
				return failf("PointKey %x differs from the key %x that was indexed", k2, key)
			}
			if k3, err := a.point.GeoPointKey(&geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}, index.GeoID(id)); err != nil || !bytes.Equal(k3, key) {
				return failf("GeoPointKey %x (%v) differs from the key %x that was indexed", k3, err, key)
			}
			if _, ok := mirror.m[string(key)]; !ok {
				return failf("the returned key %x is not the one that was stored", key)
			}
			keep = append(keep, kept{what: "key from PointKey", mem: [][]byte{k2}, copy: []string{string(k2)}})
		}
		// the caller reuses everything it passed
		for i := range spare {
			spare[i] = 0xEE
		}
		for i := range g.Geometry.Coordinates {
			g.Geometry.Coordinates[i] = 0
		}
		if n == 0 {
			for i := range prefix {
				prefix[i] ^= 0x5a
			}
			// keep comparing against what it is now
			c.Idx.Prefix = append(B{}, prefix...)
		}
		for k := 0; k < 5; k++ {
			ids, err := a.query(k+n, op, c.Idx.Level, math.MaxInt64, math.MinInt64)
			if err != nil {
				return failf("query %d: %v", k, err)
			}
			want, err := ref.query(k+n, op, c.Idx.Level, math.MaxInt64, math.MinInt64)
			if err != nil {
				return failf("query %d: %v", k, err)
			}
			g, w := idStrings(ids), idStrings(want)
			sort.Strings(g)
			sort.Strings(w)
			if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
				return failf("after the caller reused its memory query %d answers %q instead of %q", k, g, w)
			}
			hold(fmt.Sprintf("answer of query %d after operation %d", k, n), ids)
		}
		if err := verify("after further queries and writes"); err != nil {
			return err
		}
		// cell slices
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
		cl := leaf.Parent(c.Idx.Level)
		cells := append(neighbours(cl), cl, cl)
		cc := append([]s2.CellID{}, cells...)
		switch a.kind {
		case "flat":
			_, err = a.flat.GeoIdsAtCells(cells)
		case "time":
			_, err = a.tim.GeoTimeIdsAtCells(cells, index.MaxGeoTime, index.MinGeoTime)
		default:
			_, err = a.point.GeoIdsAtCells(cells)
		}
		if err != nil {
			return failf("multi-cell query: %v", err)
		}
		for i := range cells {
			if cells[i] != cc[i] {
				return failf("a multi-cell query changed the caller's list of cells")
			}
		}
	}
	if err := checkScan(s, mirror.m); err != nil {
		return failf("the store differs from a mirror fed with private copies: %v", err)
	}
	// overwriting half of the answers must not reach the store or the other answers
	for i := 0; i < len(keep); i += 2 {
		for j, m := range keep[i].mem {
			if err := touch(keep[i].what, func() error {
				for b := range m {
					m[b] ^= 0xA5
				}
				return nil
			}); err != nil {
				return err
			}
			keep[i].copy[j] = string(m)
		}
	}
	if err := verify("after overwriting other answers"); err != nil {
		return err
	}
	if err := checkScan(s, mirror.m); err != nil {
		return failf("overwriting answers changed the store: %v", err)
	}
	// the same for extending them
	for i := range keep {
		for _, m := range keep[i].mem {
			if err := touch(keep[i].what, func() error {
				sink = append(m, 0xEE, 0xEE, 0xEE, 0xEE)
				return nil
			}); err != nil {
				return err
			}
		}
	}
	if err := verify("after appending to other answers"); err != nil {
		return err
	}
	if err := checkScan(s, mirror.m); err != nil {
		return failf("appending to answers changed the store: %v", err)
	}
	closed = true
	if err := s.Close(); err != nil {
		return failf("closing the store: %v", err)
	}
	return verify("after closing the store")
}

// ---------------------------------------------------------------- X10

type faultCase struct {
	Idx     shareIdx   `json:"idx"`
	Ops     []shareOp  `json:"ops"`
	Fault   string     `json:"fault"` // "", reader, writer, execute
	N       int        `json:"n"`
	Corrupt int        `json:"corrupt"` // 0 none, else kind of corrupt entry
	Seed    int64      `json:"seed"`
	Rect    [4]float64 `json:"rect"`
}

func init() {
	register(Prop{ID: "X10", Quick: 32000, Thorough: 256000,
		Rule: "index calls of every kind against a store that counts readers, iterators, writers and batches, notices use after close and closing a reader before its iterators, and fails the n-th reader, writer or batch execution or holds a truncated index entry; after every call nothing may be open; non-trivial: a fault or a corrupt entry was hit, or a query returned ids"},
		func(t *rapid.T) *faultCase {
			a := genAlias(t)
			c := &faultCase{Idx: a.Idx, Ops: a.Ops, Seed: a.Seed}
			c.Fault = rapid.SampledFrom([]string{"", "reader", "reader", "writer", "execute"}).Draw(t, "fault")
			c.N = rapid.IntRange(1, 12).Draw(t, "nth")
			c.Corrupt = rapid.IntRange(0, 6).Draw(t, "corrupt")
			return c
		}, runFaults)
}

func runFaults(c *faultCase, x *Ctx) error {
	s := newStrict()
	a := c.Idx.make(s)
	if c.Fault != "" {
		s.failAt[c.Fault] = c.N
	}
	call := func(what string, f func() ([]index.GeoID, error), wantErr bool) error {
		before := s.faults
		ids, err := f()
		if lerr := s.leaks(); lerr != nil {
			return failf("%s (error: %v): %v", what, err, lerr)
		}
		hit := s.faults > before
		if hit {
			x.NonTrivial()
			x.Label("fault " + c.Fault)
		}
		if hit && err == nil {
			return failf("%s: the store failed (%s) but the call reports success", what, c.Fault)
		}
		if wantErr && err == nil {
			return failf("%s: the index holds a corrupt entry there but the call reports success with %d ids", what, len(ids))
		}
		if !hit && !wantErr && err != nil {
			return failf("%s: reports %v although nothing failed", what, err)
		}
		if wantErr {
			x.NonTrivial()
			x.Label("corrupt entry")
		}
		if len(ids) > 0 {
			x.NonTrivial()
		}
		return nil
	}
	for n, op := range c.Ops {
		if err := call(fmt.Sprintf("indexing %d", n), func() ([]index.GeoID, error) { return nil, a.add(op) }, false); err != nil {
			return err
		}
		for k := 0; k < 5; k++ {
			if err := call(fmt.Sprintf("query %d after indexing %d", k, n), func() ([]index.GeoID, error) {
				return a.query(k+n, op, c.Idx.Level, math.MaxInt64, math.MinInt64)
			}, false); err != nil {
				return err
			}
		}
	}
	// refused objects release everything as well
	bad := c.Ops[0]
	bad.O.S = Shape{Kind: "line", R: 1e-3, Rings: [][]P2{{}}}
	bad.O.ID, bad.P.ID = B("x"), nil
	if err := call("indexing a malformed object", func() ([]index.GeoID, error) { return nil, a.add(bad) }, true); err != nil {
		return err
	}
	if c.Corrupt == 0 {
		return nil
	}
	s.failAt = map[string]int{}
	op := c.Ops[len(c.Ops)-1]
	lat, lng := op.O.S.Lat, op.O.S.Lng
	if a.kind == "point" {
		lat, lng = op.P.ll()
	}
	leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
	cl := leaf.Parent(c.Idx.Level)
	be := func(v uint64) []byte {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> (56 - 8*uint(i)))
		}
		return b
	}
	k := append([]byte{}, c.Idx.Prefix...)
	switch a.kind {
	case "flat":
		k = append(k, be(uint64(cl))...) // no id
	case "time":
		k = append(k, be(uint64(cl))...)
		k = append(k, be(uint64(math.MaxInt64 - op.O.T))[:8-(c.Corrupt-1)%3]...) // no id, or cut in the time
	case "point":
		k = append(k, be(uint64(leaf))...) // no id
	}
	m := s.m.clone()
	m[string(k)] = ""
	s.m = m
	for q := 0; q < 5; q++ {
		// every one of these queries reads the corrupt place
		if a.kind == "point" && q == 0 {
			continue
		}
		if err := call(fmt.Sprintf("query %d over a corrupt entry %x", q, k), func() ([]index.GeoID, error) {
			return a.query(q, op, c.Idx.Level, math.MaxInt64, math.MinInt64)
		}, true); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- X11

type acceptCase struct {
	Eng   Eng      `json:"eng"`
	Idx   shareIdx `json:"idx"`
	Objs  []acObj  `json:"objs"`
	FailN int      `json:"failn"`
}

type acObj struct {
	O     idxObj  `json:"o"`
	P     ptSpec  `json:"p"`
	Bad   *BadGeo `json:"bad,omitempty"`
	NoID  bool    `json:"noid,omitempty"`
	Again bool    `json:"again,omitempty"`
	Exec  int     `json:"exec,omitempty"` // fail this execution (strict store)
}

func init() {
	register(Prop{ID: "X11", Quick: 18000, Thorough: 144000,
		Rule: "1-6 indexing calls with well-formed, malformed, id-less and repeated objects, some with a failing batch execution; the whole store is compared before and after every call: unchanged on error, exactly one new entry per cell of the cover on success, and the cells' queries return the id; non-trivial: at least one refused and one accepted call"},
		func(t *rapid.T) *acceptCase {
			c := &acceptCase{Eng: genIdxEng(t)}
			objs, level := genObjs(t, rapid.IntRange(1, 3).Draw(t, "nobj"), 7, 3)
			objs, level = genWide(t, objs, level)
			c.Idx = shareIdx{Kind: rapid.SampledFrom([]string{"flat", "time", "point"}).Draw(t, "kind"), Prefix: genPrefix(t), Level: level}
			if rare(t, "widefault", 600) {
				// many entries, and a later execution fails if there are several
				c.Eng = Eng{Name: "strict"}
				c.Idx.Kind = rapid.SampledFrom([]string{"flat", "time"}).Draw(t, "kind")
				o := acObj{O: objs[0], Exec: rapid.IntRange(2, 3).Draw(t, "exec")}
				o.O.S = Shape{Kind: "polygon", Rot: 1, R: 0.2, Rings: [][]P2{{{-0.9, -0.9}, {0.9, -0.9}, {0.9, 0.9}, {-0.9, 0.9}}}}
				o.O.S.Lat, o.O.S.Lng = genLatLng(t)
				o.O.ID, o.O.T = genID(t), genTime(t, nil)
				c.Idx.Level = maxLevelFor(0.2, rapid.SampledFrom([]float64{30, 60, 90}).Draw(t, "across"))
				c.Objs = append(c.Objs, o)
				return c
			}
			for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
				o := acObj{O: rapid.SampledFrom(objs).Draw(t, "obj")}
				o.O.ID = genID(t)
				o.O.T = genTime(t, nil)
				o.P = ptSpec{ID: o.O.ID, Geo: rapid.Bool().Draw(t, "geo")}
				o.P.Lat, o.P.Lng = genLatLng(t)
				switch rapid.IntRange(0, 7).Draw(t, "kind") {
				case 0, 1, 2:
					b := genBad(t)
					o.Bad = &b
				case 3:
					o.NoID = true
				case 4, 5:
					o.Exec = rapid.IntRange(1, 4).Draw(t, "exec")
				}
				o.Again = rapid.Bool().Draw(t, "again")
				c.Objs = append(c.Objs, o)
			}
			return c
		}, runAccept)
}

func runAccept(c *acceptCase, x *Ctx) (err error) {
	s, err := openIdx(c.Eng, x)
	if err != nil {
		return openErr(err)
	}
	defer stableClose(s, &err)
	strict, _ := s.(*strictStore)
	a := c.Idx.make(s)
	content := func() (Model, error) {
		r, err := s.Reader()
		if err != nil {
			return nil, failf("opening a reader: %v", err)
		}
		defer r.Close()
		m, _, err := scanAll(r, 100000)
		return m, err
	}
	have := Model{}
	var accepted, refused bool
	for n, o := range c.Objs {
		g := o.O.S.geo()
		unusable := false
		if a.kind == "point" {
			lat, lng := o.P.ll()
			g = &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		}
		if o.Bad != nil {
			g = o.Bad.geo()
			unusable = o.Bad.unusable()
			if o.Bad.wide(c.Idx.Level) {
				continue
			}
		}
		id := index.GeoID(append([]byte{}, o.O.ID...))
		if o.NoID {
			id = index.GeoID{}
			if o.Again {
				id = nil
			}
			unusable = true
		}
		done := false
		for round := 0; round < 2; round++ {
			if round == 1 && !o.Again {
				break
			}
			var cells []s2.CellID
			cerr := error(nil)
			switch a.kind {
			case "flat":
				cells, cerr = a.flat.Covering(g)
			case "time":
				cells, cerr = a.tim.Covering(g)
			default:
				if g.Geometry == nil || g.Geometry.Type != geodata.Geometry_POINT || len(g.Geometry.Coordinates) < 2 {
					cerr = fmt.Errorf("not a point")
				} else {
					cells = []s2.CellID{s2.CellIDFromLatLng(s2.LatLngFromDegrees(g.Geometry.Coordinates[1], g.Geometry.Coordinates[0]))}
				}
			}
			faults := 0
			if strict != nil && o.Exec != 0 && round == 0 {
				strict.calls["execute"] = 0
				strict.failAt["execute"] = o.Exec
				faults = strict.faults
			}
			switch a.kind {
			case "flat":
				err = a.flat.GeoIndex(g, id)
			case "time":
				err = a.tim.GeoTimeIndex(g, atTime(o.O.T, 0), id)
			default:
				if o.Bad == nil && !o.P.Geo {
					_, err = a.point.PointIndex(g.Geometry.Coordinates[1], g.Geometry.Coordinates[0], id)
				} else {
					_, err = a.point.GeoPointIndex(g, id)
				}
			}
			failed := false
			if strict != nil {
				failed = strict.faults > faults && o.Exec != 0 && round == 0
				delete(strict.failAt, "execute")
			}
			now, cerr2 := content()
			if cerr2 != nil {
				return cerr2
			}
			if err != nil {
				refused = true
				if derr := diffModels(now, have); derr != nil {
					return failf("call %d reports %v but changed the store: %v", n, err, derr)
				}
				if !failed && !unusable && cerr == nil && len(cells) > 0 && o.Bad == nil {
					return failf("call %d: a well-formed object is refused: %v", n, err)
				}
				continue
			}
			accepted = true
			if failed {
				return failf("call %d: the batch was not executed but the call reports success", n)
			}
			if unusable {
				return failf("call %d: an object that cannot be looked up is accepted (id %x, geometry %v)", n, []byte(id), g.Geometry)
			}
			if cerr != nil {
				return failf("call %d: accepted although its cover fails: %v", n, cerr)
			}
			if len(cells) == 0 {
				return failf("call %d: accepted with an empty cover", n)
			}
			distinct := map[s2.CellID]bool{}
			for _, cl := range cells {
				distinct[cl] = true
			}
			for k, v := range have {
				if w, ok := now[k]; !ok || v != w {
					return failf("call %d changed the existing entry %x", n, k)
				}
			}
			added := len(now) - len(have)
			if done && added != 0 {
				return failf("indexing the same object again adds %d entries", added)
			}
			if added > len(distinct) {
				return failf("call %d adds %d entries for %d cells", n, added, len(distinct))
			}
			// one entry per cell: new or already there, found through the cell's query
			step := 1 + len(distinct)/300
			for i, cl := range cells {
				if i%step != 0 {
					continue
				}
				var ids []index.GeoID
				var qerr error
				switch a.kind {
				case "flat":
					ids, qerr = a.flat.GeoIdsAtCell(cl)
				case "time":
					to := atTime(o.O.T-1, 0)
					if o.O.T == math.MinInt64 {
						// the oldest instant has no predecessor to end a window
						ids = []index.GeoID{id}
						break
					}
					ids, qerr = a.tim.GeoTimeIdsAtCell(cl, atTime(o.O.T, 0), to)
				default:
					ids, qerr = a.point.GeoIdsAtCell(cl)
				}
				if qerr != nil || !hasID(ids, id) {
					return failf("call %d was accepted but querying its cell %s returns %d ids without %x (%v)", n, cl.ToToken(), len(ids), []byte(id), qerr)
				}
			}
			if _, ok := c.firstUse(n, a.kind); ok && !done && added != len(distinct) {
				return failf("call %d adds %d entries for %d cells", n, added, len(distinct))
			}
			have = now
			done = true
		}
	}
	if accepted && refused {
		x.NonTrivial()
	}
	return nil
}

// firstUse tells whether the id of call n was not used by an earlier call.
func (c *acceptCase) firstUse(n int, kind string) (int, bool) {
	for i := 0; i < n; i++ {
		if bytes.Equal(c.Objs[i].O.ID, c.Objs[n].O.ID) {
			return i, false
		}
	}
	return 0, true
}
