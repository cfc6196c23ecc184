package main

import (
	"bytes"
	"math"
	"math/rand"
	"sort"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/r3"
	"github.com/golang/geo/s2"
	"pgregory.net/rapid"
)

// Shapes are made in the gnomonic plane around a centre: there great circle arcs are
// straight segments, so planar geometry decides what is inside, independently of s2.

const earthCircum = 40075017.0

func metersToRad(m float64) float64 { return m / earthCircum * 2 * math.Pi }
func radToMeters(r float64) float64 { return r * earthCircum / (2 * math.Pi) }

type P2 [2]float64

// Shape is a generated geometry; coordinates derive from it deterministically.
type Shape struct {
	Kind  string  `json:"kind"` // point, line, polygon, multi
	Lat   float64 `json:"lat"`
	Lng   float64 `json:"lng"`
	R     float64 `json:"r"`   // angular size in radians of the unit of the plane
	Rot   float64 `json:"rot"` // rotation of the plane
	Rings [][]P2  `json:"rings"`
	// Band: a strip around the globe; its rings are longitudes and latitudes (radians)
	// about the pole of the frame, and it stays clear of that pole
	Band bool `json:"band,omitempty"`
	// how every ring is written
	Rev   bool `json:"rev,omitempty"`
	Close bool `json:"close,omitempty"`
	Start int  `json:"start,omitempty"`
	Dup   int  `json:"dup,omitempty"` // repeat a vertex
}

type frame3 struct{ c, e1, e2 r3.Vector }

func vecLL(lat, lng float64) r3.Vector {
	a, b := lat*math.Pi/180, lng*math.Pi/180
	return r3.Vector{X: math.Cos(a) * math.Cos(b), Y: math.Cos(a) * math.Sin(b), Z: math.Sin(a)}
}

func llVec(v r3.Vector) (lat, lng float64) {
	return math.Atan2(v.Z, math.Hypot(v.X, v.Y)) * 180 / math.Pi, math.Atan2(v.Y, v.X) * 180 / math.Pi
}

func newFrame(lat, lng, rot float64) frame3 {
	c := vecLL(lat, lng)
	ref := r3.Vector{Z: 1}
	if math.Abs(c.Z) > 0.9 {
		ref = r3.Vector{X: 1}
	}
	e1 := ref.Cross(c).Normalize()
	e2 := c.Cross(e1).Normalize()
	co, si := math.Cos(rot), math.Sin(rot)
	return frame3{c, e1.Mul(co).Add(e2.Mul(si)), e2.Mul(co).Sub(e1.Mul(si))}
}

func (f frame3) vec(x, y float64) r3.Vector {
	return f.c.Add(f.e1.Mul(x)).Add(f.e2.Mul(y)).Normalize()
}

// plane is the inverse of vec, for vectors in the hemisphere of the centre.
func (f frame3) plane(v r3.Vector) (P2, bool) {
	d := v.Dot(f.c)
	if d <= 1e-9 {
		return P2{}, false
	}
	return P2{v.Dot(f.e1) / d, v.Dot(f.e2) / d}, true
}

func (s *Shape) frame() frame3 { return newFrame(s.Lat, s.Lng, s.Rot) }

// at returns the location of plane coordinates given in shape units.
func (s *Shape) at(p P2) r3.Vector {
	if s.Band {
		f := s.frame()
		return f.e1.Mul(math.Cos(p[1]) * math.Cos(p[0])).Add(f.e2.Mul(math.Cos(p[1]) * math.Sin(p[0]))).Add(f.c.Mul(math.Sin(p[1]))).Normalize()
	}
	k := math.Tan(s.R)
	return s.frame().vec(p[0]*k, p[1]*k)
}

// coords writes ring i as lng lat pairs.
func (s *Shape) coords(i int) []float64 {
	r := append([]P2{}, s.Rings[i]...)
	if s.Kind == "polygon" || s.Kind == "multi" {
		if s.Rev {
			for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
				r[a], r[b] = r[b], r[a]
			}
		}
		if s.Start > 0 {
			k := s.Start % len(r)
			r = append(append([]P2{}, r[k:]...), r[:k]...)
		}
		if s.Dup > 0 {
			k := s.Dup % len(r)
			r = append(r[:k+1], r[k:]...)
		}
		if s.Close {
			r = append(r, r[0])
		}
	}
	var c []float64
	for _, p := range r {
		lat, lng := llVec(s.at(p))
		c = append(c, lng, lat)
	}
	return c
}

func (s *Shape) geo() *geodata.GeoData {
	g := &geodata.Geometry{}
	switch s.Kind {
	case "point":
		g.Type = geodata.Geometry_POINT
		g.Coordinates = s.coords(0)
	case "line":
		g.Type = geodata.Geometry_LINESTRING
		g.Coordinates = s.coords(0)
	case "polygon":
		g.Type = geodata.Geometry_POLYGON
		g.Coordinates = s.coords(0)
	case "multi":
		g.Type = geodata.Geometry_MULTIPOLYGON
		for i := range s.Rings {
			g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: s.coords(i)})
		}
	}
	return &geodata.GeoData{Geometry: g}
}

// verts are the vertices of ring i on the sphere.
func (s *Shape) verts(i int) []r3.Vector {
	var out []r3.Vector
	for _, p := range s.Rings[i] {
		out = append(out, s.at(p))
	}
	return out
}

func (s *Shape) area() bool { return s.Kind == "polygon" || s.Kind == "multi" }

// edges are the arcs of the object.
func (s *Shape) edges() [][2]r3.Vector {
	var out [][2]r3.Vector
	for i := range s.Rings {
		v := s.verts(i)
		n := len(v)
		if !s.area() {
			n--
		}
		if len(v) == 1 {
			out = append(out, [2]r3.Vector{v[0], v[0]})
		}
		for j := 0; j < n; j++ {
			out = append(out, [2]r3.Vector{v[j], v[(j+1)%len(v)]})
		}
	}
	return out
}

func angle(a, b r3.Vector) float64 { return math.Atan2(a.Cross(b).Norm(), a.Dot(b)) }

// distArc is the angular distance from p to the shorter arc ab.
func distArc(p, a, b r3.Vector) float64 {
	// as precise cross product of two possibly close vectors as possible
	n := a.Add(b).Cross(b.Sub(a))
	l := n.Norm()
	if l > 1e-300 {
		n = n.Mul(1 / l)
		// foot of p on the plane lies within the arc?
		if n.Cross(a).Dot(p) >= 0 && b.Cross(n).Dot(p) >= 0 {
			return math.Abs(math.Asin(math.Max(-1, math.Min(1, p.Sub(a).Dot(n)))))
		}
	}
	return math.Min(chordAngle(p, a), chordAngle(p, b))
}

func chordAngle(a, b r3.Vector) float64 {
	d := a.Sub(b).Norm()
	if d >= 2 {
		return math.Pi
	}
	return 2 * math.Asin(d/2)
}

// boundaryDist is the distance from p to the closest vertex or edge.
func (s *Shape) boundaryDist(p r3.Vector) float64 {
	d := math.Pi
	for _, e := range s.edges() {
		d = math.Min(d, distArc(p, e[0], e[1]))
	}
	return d
}

func inPlanar(r []P2, p P2) bool {
	in := false
	for i, j := 0, len(r)-1; i < len(r); j, i = i, i+1 {
		if (r[i][1] > p[1]) != (r[j][1] > p[1]) && p[0] < (r[j][0]-r[i][0])*(p[1]-r[i][1])/(r[j][1]-r[i][1])+r[i][0] {
			in = !in
		}
	}
	return in
}

// inside decides whether p is inside an area object (undefined within rounding of the boundary).
func (s *Shape) inside(p r3.Vector) bool {
	if !s.area() {
		return false
	}
	if s.Band {
		// the arc from the pole of the frame, which is outside, crosses the ring an odd number of times
		c := s.frame().c
		if c.Dot(p) < 0 {
			// the other pole is outside as well
			c = c.Mul(-1)
		}
		in := false
		for _, e := range s.edges() {
			if arcsCross(c, p, e[0], e[1]) {
				in = !in
			}
		}
		return in
	}
	q, ok := s.frame().plane(p)
	if !ok {
		return false
	}
	k := math.Tan(s.R)
	q = P2{q[0] / k, q[1] / k}
	for _, r := range s.Rings {
		if inPlanar(r, q) {
			return true
		}
	}
	return false
}

// arcsCross decides whether the arcs ab and cd cross; an end of cd on ab's circle
// belongs to one side of it.
func arcsCross(a, b, c, d r3.Vector) bool {
	n := a.Cross(b)
	if (n.Dot(c) >= 0) == (n.Dot(d) >= 0) {
		return false
	}
	// cd meets ab's circle at x
	x := c.Cross(d).Cross(n)
	if x.Dot(c.Add(d)) < 0 {
		x = x.Mul(-1)
	}
	return n.Cross(a).Dot(x) > 0 && b.Cross(n).Dot(x) >= 0
}

// dist is the distance from p to the object (0 inside).
func (s *Shape) dist(p r3.Vector) float64 {
	if s.inside(p) {
		return 0
	}
	return s.boundaryDist(p)
}

// probe is a location of the object; deep means farther than rounding from its boundary.
type probe struct {
	v    r3.Vector
	deep bool
}

const deepEps = 1e-12

// probes derives n locations on or inside the object from a seed.
func (s *Shape) probes(seed int64, n int) []probe {
	rng := rand.New(rand.NewSource(seed))
	es := s.edges()
	var out []probe
	k := math.Tan(s.R)
	for i := 0; i < n*4 && len(out) < n; i++ {
		e := es[rng.Intn(len(es))]
		kind := rng.Intn(4)
		if !s.area() && kind > 1 {
			kind = 1
		}
		switch kind {
		case 0:
			out = append(out, probe{v: e[0]})
		case 1:
			f := rng.Float64()
			out = append(out, probe{v: e[0].Mul(1 - f).Add(e[1].Mul(f)).Normalize()})
		case 2: // just beside an edge, on the inner side
			f := rng.Float64()
			m := e[0].Mul(1 - f).Add(e[1].Mul(f)).Normalize()
			nrm := e[0].Cross(e[1]).Normalize()
			d := s.R * math.Pow(10, -1-5*rng.Float64())
			for _, sg := range []float64{1, -1} {
				p := m.Add(nrm.Mul(sg * d)).Normalize()
				if s.inside(p) && s.boundaryDist(p) > deepEps {
					out = append(out, probe{p, true})
					break
				}
			}
		case 3: // anywhere inside
			r := s.Rings[rng.Intn(len(s.Rings))]
			a, b, c := r[rng.Intn(len(r))], r[rng.Intn(len(r))], r[rng.Intn(len(r))]
			u, w := rng.Float64(), rng.Float64()
			if u+w > 1 {
				u, w = 1-u, 1-w
			}
			q := P2{a[0]*(1-u-w) + b[0]*u + c[0]*w, a[1]*(1-u-w) + b[1]*u + c[1]*w}
			p := s.frame().vec(q[0]*k, q[1]*k)
			if s.Band {
				p = s.at(q)
			}
			if s.inside(p) && s.boundaryDist(p) > deepEps {
				out = append(out, probe{p, true})
			}
		}
	}
	return out
}

// cellsNear lists the cells of a level that p may belong to within rounding.
func cellsNear(p r3.Vector, level int, eps float64) []s2.CellID {
	set := map[s2.CellID]bool{}
	var out []s2.CellID
	add := func(v r3.Vector) {
		c := s2.CellIDFromLatLng(s2.LatLngFromPoint(s2.Point{Vector: v})).Parent(level)
		if !set[c] {
			set[c] = true
			out = append(out, c)
		}
	}
	add(p)
	if eps > 0 {
		o := p.Ortho()
		o2 := p.Cross(o)
		for i := 0; i < 8; i++ {
			a := float64(i) * math.Pi / 4
			add(p.Add(o.Mul(eps * math.Cos(a))).Add(o2.Mul(eps * math.Sin(a))).Normalize())
		}
	}
	return out
}

func cellVerts(c s2.CellID) [4]r3.Vector {
	cell := s2.CellFromCellID(c)
	return [4]r3.Vector{cell.Vertex(0).Vector, cell.Vertex(1).Vector, cell.Vertex(2).Vector, cell.Vertex(3).Vector}
}

func cellCenter(c s2.CellID) r3.Vector { return s2.CellFromCellID(c).Center().Vector }

// inCell decides whether p is in the closed cell, up to eps.
func inCell(c s2.CellID, p r3.Vector, eps float64) bool {
	v := cellVerts(c)
	for i := 0; i < 4; i++ {
		// normals of cell edges point inwards for counter clockwise vertices
		n := v[i].Cross(v[(i+1)%4]).Normalize()
		if n.Dot(p) < -eps {
			return false
		}
	}
	return true
}

// distCell is the distance from p to the closed cell.
func distCell(c s2.CellID, p r3.Vector) float64 {
	if inCell(c, p, 0) {
		return 0
	}
	v := cellVerts(c)
	d := math.Pi
	for i := 0; i < 4; i++ {
		d = math.Min(d, distArc(p, v[i], v[(i+1)%4]))
	}
	return d
}

// cellRadius is the circumradius of a cell.
func cellRadius(c s2.CellID) float64 {
	m := cellCenter(c)
	r := 0.0
	for _, v := range cellVerts(c) {
		r = math.Max(r, chordAngle(m, v))
	}
	return r
}

// cellSize is a typical edge length at a level.
func cellSize(level int) float64 { return math.Pi / 2 / float64(uint64(1)<<uint(level)) }

// ---------------------------------------------------------------- generators

func genLatLng(t *rapid.T) (lat, lng float64) {
	lat = rapid.Float64Range(-90, 90).Draw(t, "lat")
	lng = rapid.Float64Range(-180, 180).Draw(t, "lng")
	switch rapid.IntRange(0, 9).Draw(t, "where") {
	case 0:
		lng = rapid.SampledFrom([]float64{180, -180, 179.9999, -179.9999}).Draw(t, "lng0")
	case 1:
		lat = rapid.SampledFrom([]float64{90, -90, 89.999999, -89.99999}).Draw(t, "lat0")
	case 2:
		lat = rapid.SampledFrom([]float64{0, 45, -45, 35.264389682754654, -35.264389682754654}).Draw(t, "lat0")
		lng = rapid.SampledFrom([]float64{0, 45, -45, 90, 135, -135, -90, 180}).Draw(t, "lng0")
	case 3:
		lat, lng = 48.85, 2.35
	}
	return
}

func round6(v float64) float64 { return math.Round(v*1e6) / 1e6 }

// genRing makes a simple planar polygon within the unit disc.
func genRing(t *rapid.T) []P2 {
	var r []P2
	if rare(t, "manyv", 400) {
		n := rapid.SampledFrom([]int{110, 260, 520, 1030, 2100}).Draw(t, "n")
		lobes := float64(rapid.IntRange(1, 5).Draw(t, "lob"))
		for i := 0; i < n; i++ {
			a := float64(i) / float64(n) * 2 * math.Pi
			rad := 0.7 + 0.25*math.Cos(a*lobes)
			r = append(r, P2{round6(rad * math.Cos(a)), round6(rad * math.Sin(a))})
		}
		return r
	}
	switch rapid.SampledFrom([]string{"star", "star", "star", "convex", "tri", "rect", "comb", "L", "spiral", "thin", "untangle", "dense"}).Draw(t, "ring") {
	case "star", "convex":
		n := rapid.IntRange(3, 12).Draw(t, "n")
		spiky := rapid.Bool().Draw(t, "spiky")
		ph := rapid.Float64Range(0, 1).Draw(t, "ph")
		for i := 0; i < n; i++ {
			a := (float64(i) + ph + rapid.Float64Range(0.05, 0.95).Draw(t, "a")) / float64(n) * 2 * math.Pi
			rad := 0.9
			if spiky {
				rad = rapid.Float64Range(0.1, 1).Draw(t, "rad")
			}
			r = append(r, P2{rad * math.Cos(a), rad * math.Sin(a)})
		}
		// the centre is inside unless a gap exceeds half a turn; the ring is simple
		// either way because the vertices are sorted by angle
		if n == 3 && math.Abs(signedArea(r)) < 0.02 {
			r = []P2{{-0.6, -0.5}, {0.8, -0.1}, {-0.1, 0.9}}
		}
	case "dense":
		n := rapid.IntRange(20, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			a := float64(i) / float64(n) * 2 * math.Pi
			rad := 0.7 + 0.25*math.Cos(a*float64(rapid.IntRange(1, 3).Draw(t, "lob")))
			r = append(r, P2{rad * math.Cos(a), rad * math.Sin(a)})
		}
	case "tri":
		r = []P2{{-0.9, -0.4}, {0.9, -0.3}, {rapid.Float64Range(-0.8, 0.8).Draw(t, "x"), rapid.Float64Range(0.05, 0.9).Draw(t, "y")}}
	case "rect":
		w, h := rapid.Float64Range(0.05, 0.7).Draw(t, "w"), rapid.Float64Range(0.05, 0.7).Draw(t, "h")
		r = []P2{{-w, -h}, {w, -h}, {w, h}, {-w, h}}
	case "thin":
		w, h := 0.9, rapid.Float64Range(0.001, 0.02).Draw(t, "h")
		r = []P2{{-w, -h}, {w, -h}, {w, h}, {-w, h}}
	case "comb":
		n := rapid.IntRange(2, 6).Draw(t, "teeth")
		r = append(r, P2{-0.7, -0.7}, P2{0.7, -0.7})
		w := 1.4 / float64(2*n-1)
		for i := 0; i < 2*n-1; i++ {
			x1 := 0.7 - float64(i)*w
			y := 0.7
			if i%2 == 1 {
				y = -0.5
			}
			r = append(r, P2{x1, y}, P2{x1 - w, y})
		}
	case "L":
		d := rapid.Float64Range(0.05, 0.6).Draw(t, "d")
		r = []P2{{-0.7, -0.7}, {0.7, -0.7}, {0.7, -0.7 + d}, {-0.7 + d, -0.7 + d}, {-0.7 + d, 0.7}, {-0.7, 0.7}}
	case "spiral":
		n := rapid.IntRange(8, 30).Draw(t, "n")
		var in, out []P2
		for i := 0; i <= n; i++ {
			f := float64(i) / float64(n)
			a := f * 4 * math.Pi
			rad := 0.25 + 0.6*f
			out = append(out, P2{(rad + 0.06) * math.Cos(a), (rad + 0.06) * math.Sin(a)})
			in = append(in, P2{(rad - 0.06) * math.Cos(a), (rad - 0.06) * math.Sin(a)})
		}
		r = append(r, out...)
		for i := len(in) - 1; i >= 0; i-- {
			r = append(r, in[i])
		}
		// few steps per turn make the spiral cut corners into itself
		if n < 20 {
			r = []P2{{-0.7, -0.7}, {0.7, -0.7}, {0.7, 0.7}, {-0.5, 0.7}, {-0.5, -0.1}, {0.1, -0.1}, {0.1, 0.2}, {-0.3, 0.2}, {-0.3, 0.5}, {0.5, 0.5}, {0.5, -0.4}, {-0.7, -0.4}}
		}
	case "untangle":
		n := rapid.IntRange(4, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			r = append(r, P2{rapid.Float64Range(-0.7, 0.7).Draw(t, "x"), rapid.Float64Range(-0.7, 0.7).Draw(t, "y")})
		}
		r = untangle(r)
	}
	for i := range r {
		r[i] = P2{round6(r[i][0]), round6(r[i][1])}
	}
	if !simpleRing(r, 2e-4) {
		r = []P2{{-0.7, -0.6}, {0.8, -0.7}, {0.6, 0.7}, {-0.5, 0.6}}
	}
	if signedArea(r) < 0 {
		for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
			r[a], r[b] = r[b], r[a]
		}
	}
	return r
}

func signedArea(r []P2) float64 {
	s := 0.0
	for i := range r {
		j := (i + 1) % len(r)
		s += r[i][0]*r[j][1] - r[j][0]*r[i][1]
	}
	return s / 2
}

func orient(a, b, c P2) float64 {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
}

func segCross(a, b, c, d P2) bool {
	return orient(a, b, c)*orient(a, b, d) < 0 && orient(c, d, a)*orient(c, d, b) < 0
}

// untangle removes the crossings of a random ring by reversing runs (2-opt).
func untangle(r []P2) []P2 {
	n := len(r)
	for it := 0; it < 2000; it++ {
		done := true
		for i := 0; i < n && done; i++ {
			for j := i + 2; j < n; j++ {
				if i == 0 && j == n-1 {
					continue
				}
				if segCross(r[i], r[i+1], r[j], r[(j+1)%n]) {
					for a, b := i+1, j; a < b; a, b = a+1, b-1 {
						r[a], r[b] = r[b], r[a]
					}
					done = false
					break
				}
			}
		}
		if done {
			return r
		}
	}
	return r
}

func ptSeg(p, a, b P2) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	l := dx*dx + dy*dy
	f := 0.0
	if l > 0 {
		f = math.Max(0, math.Min(1, ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/l))
	}
	return math.Hypot(p[0]-a[0]-f*dx, p[1]-a[1]-f*dy)
}

// simpleRing accepts rings whose non adjacent parts stay clear of each other.
func simpleRing(r []P2, clear float64) bool {
	n := len(r)
	if n < 3 {
		return false
	}
	for i := 0; i < n; i++ {
		a, b := r[i], r[(i+1)%n]
		if math.Hypot(a[0]-b[0], a[1]-b[1]) < clear {
			return false
		}
		for j := 0; j < n; j++ {
			if j != i && j != (i+1)%n && ptSeg(r[j], a, b) < clear {
				return false
			}
			if j != i && j != (i+1)%n && (j+1)%n != i && segCross(a, b, r[j], r[(j+1)%n]) {
				return false
			}
		}
	}
	return true
}

// genBand makes a strip around up to nearly the whole globe, no wider than 0.4,
// with corners anywhere along it.
func (s *Shape) genBand(t *rapid.T) {
	s.Band, s.R = true, 1.2
	span := rapid.Float64Range(2.5, 5.9).Draw(t, "span")
	w := rapid.Float64Range(0.06, 0.2).Draw(t, "half")
	amp := rapid.Float64Range(-0.3, 0.3).Draw(t, "amp")
	waves := float64(rapid.IntRange(0, 3).Draw(t, "waves"))
	bias := rapid.SampledFrom([]float64{0.25, 0.5, 1, 2, 4}).Draw(t, "bias")
	n := rapid.IntRange(16, 60).Draw(t, "n")
	var at []float64
	at = append(at, 0)
	for i := 1; i <= n; i++ {
		l := span * math.Pow(float64(i)/float64(n), bias)
		// edges stay short enough for the strip not to meet itself
		for last := at[len(at)-1]; l-last > 0.4; last += 0.4 {
			at = append(at, last+0.4)
		}
		if l-at[len(at)-1] > 1e-3 {
			at = append(at, l)
		}
	}
	var r []P2
	for _, l := range at {
		r = append(r, P2{round6(l), round6(amp*math.Sin(waves*l) - w)})
	}
	for i := len(at) - 1; i >= 0; i-- {
		l := at[i]
		r = append(r, P2{round6(l), round6(amp*math.Sin(waves*l) + w)})
	}
	s.Rings = [][]P2{r}
}

func genShape(t *rapid.T, kinds []string, maxR float64) Shape {
	s := Shape{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	s.Lat, s.Lng = genLatLng(t)
	s.Rot = rapid.Float64Range(0, 6.28).Draw(t, "rot")
	lo, hi := math.Log(1e-8), math.Log(maxR)
	s.R = math.Exp(rapid.Float64Range(lo, hi).Draw(t, "logR"))
	if rapid.IntRange(0, 3).Draw(t, "usual") == 0 {
		s.R = math.Min(maxR, rapid.SampledFrom([]float64{1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1}).Draw(t, "R"))
	}
	switch s.Kind {
	case "point":
		s.Rings = [][]P2{{{0, 0}}}
	case "line":
		n := rapid.IntRange(1, 8).Draw(t, "n")
		var r []P2
		for i := 0; i < n; i++ {
			r = append(r, P2{round6(rapid.Float64Range(-1, 1).Draw(t, "x")), round6(rapid.Float64Range(-1, 1).Draw(t, "y"))})
		}
		if rare(t, "manyl", 400) {
			rng := rand.New(rand.NewSource(int64(n)))
			for i := rapid.SampledFrom([]int{110, 310, 1030, 2100, 5000}).Draw(t, "manyn"); i > 0; i-- {
				r = append(r, P2{round6(2*rng.Float64() - 1), round6(2*rng.Float64() - 1)})
			}
		}
		s.Rings = [][]P2{r}
	case "polygon":
		if maxR >= 1 && rare(t, "band", 60) {
			s.genBand(t)
		} else {
			s.Rings = [][]P2{genRing(t)}
		}
		s.genWriting(t)
	case "multi":
		n := rapid.IntRange(1, 3).Draw(t, "n")
		many := rare(t, "manyp", 200)
		if many {
			n = rapid.SampledFrom([]int{9, 21, 60}).Draw(t, "n")
		}
		for i := 0; i < n; i++ {
			r := []P2{{-0.7, -0.6}, {0.8, -0.7}, {0.6, 0.7}, {-0.5, 0.6}}
			if !many {
				r = genRing(t)
			}
			// the polygons lie side by side
			for j := range r {
				r[j] = P2{round6(r[j][0]/float64(n)*0.9 + (2*float64(i)+1)/float64(n) - 1), round6(r[j][1] / float64(n))}
			}
			s.Rings = append(s.Rings, r)
		}
		s.genWriting(t)
	}
	return s
}

func (s *Shape) genWriting(t *rapid.T) {
	s.Rev = rapid.Bool().Draw(t, "rev")
	s.Close = rapid.Bool().Draw(t, "close")
	s.Start = rapid.IntRange(0, 5).Draw(t, "start")
	if rapid.IntRange(0, 7).Draw(t, "dupv") == 0 {
		s.Dup = rapid.IntRange(1, 5).Draw(t, "dup")
	}
}

// maxLevelFor bounds a level so that a fixed level cover of size r has few cells.
func maxLevelFor(r, cells float64) int {
	l := int(math.Floor(math.Log2(cells * math.Pi / 2 / math.Max(r, 1e-9))))
	if l > 30 {
		l = 30
	}
	if l < 0 {
		l = 0
	}
	return l
}

func genID(t *rapid.T) B {
	if rare(t, "longid", 300) {
		return bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 1, 2).Draw(t, "id"), rapid.SampledFrom([]int{70, 140, 1100}).Draw(t, "idrep"))
	}
	switch rapid.IntRange(0, 5).Draw(t, "idkind") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "id")
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0xff, 'a'}), 1, 10).Draw(t, "id")
	default:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 'a', 'b', 0xff}), 1, 3).Draw(t, "id")
	}
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
