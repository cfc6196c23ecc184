package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom/encoding/geojson"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- G10

type shareObj struct {
	C     coverCase `json:"c"`
	Props []prop    `json:"props,omitempty"`
}

type shareCall struct {
	K   string `json:"k"`
	Obj int    `json:"obj"`
}

type geoConcCase struct {
	Objs   []shareObj    `json:"objs"`
	Cells  []cellSpec    `json:"cells"`
	Calls  [][]shareCall `json:"calls"`
	Repeat int           `json:"repeat"`
}

var shareKinds = []string{"cover", "cover", "oldcover", "interior", "rect", "geom", "feature", "export", "line", "encode", "decode", "props", "cells", "union", "missing", "tokens", "parse", "query", "post"}

func init() {
	register(Prop{ID: "G10", Quick: 4000, Thorough: 200000, Race: true, HangSecs: 60,
		Rule: "1-4 objects with properties and a list of cells shared by 2-6 goroutines that start together and each cover, bound, convert, export, encode and decode them and call the cell tools and handlers, under the race detector; every result is compared with the one of the same call made alone, and the objects with copies; non-trivial: two goroutines make calls on the same object"},
		func(t *rapid.T) *geoConcCase {
			c := &geoConcCase{Repeat: rapid.IntRange(1, 4).Draw(t, "repeat")}
			for n := rapid.IntRange(1, 4).Draw(t, "objs"); n > 0; n-- {
				o := shareObj{C: *genCover(t, []string{"point", "line", "polygon", "polygon", "multi"}, 6), Props: genProps(t, 4)}
				o.C.Max = maxI(o.C.Min, minI(o.C.Max, o.C.Min+3))
				if o.C.MC == 0 || o.C.MC > 20 {
					o.C.MC = 20
				}
				c.Objs = append(c.Objs, o)
			}
			for n := rapid.IntRange(1, 12).Draw(t, "cells"); n > 0; n-- {
				c.Cells = append(c.Cells, genCellSpec(t))
			}
			for n := rapid.IntRange(2, 6).Draw(t, "goroutines"); n > 0; n-- {
				var l []shareCall
				for k := rapid.IntRange(1, 6).Draw(t, "calls"); k > 0; k-- {
					l = append(l, shareCall{K: rapid.SampledFrom(shareKinds).Draw(t, "k"), Obj: rapid.IntRange(0, len(c.Objs)-1).Draw(t, "obj")})
				}
				c.Calls = append(c.Calls, l)
			}
			return c
		}, runGeoConc)
}

// shared is what the goroutines share.
type shared struct {
	gds      []*geodata.GeoData
	coverers []*s2.RegionCoverer
	wires    [][]byte
	feats    []*geojson.Feature
	bodies   []string
	cells    s2.CellUnion
	tokens   []string
	vars     []map[string]string
}

func propsText(m map[string]*spb.Value) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%T:%v", k, spbPlain(v), spbPlain(v)))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func gdText(g *geodata.GeoData) string {
	var geo func(g *geodata.Geometry) string
	geo = func(g *geodata.Geometry) string {
		if g == nil {
			return "nil"
		}
		s := fmt.Sprintf("%d%v[", g.Type, g.Coordinates)
		for _, sub := range g.Geometries {
			s += geo(sub)
		}
		return s + "]"
	}
	return geo(g.Geometry) + propsText(g.Properties)
}

// call makes one call and describes its result.
func (s *shared) call(k shareCall) string {
	g := s.gds[k.Obj]
	res := func(v interface{}, err error) string { return fmt.Sprintf("%v / %v", v, err) }
	switch k.K {
	case "cover":
		return res(g.Cover(s.coverers[k.Obj]))
	case "oldcover":
		return res(geodata.GeoDataToCoverCellUnion(g, s.coverers[k.Obj]))
	case "interior":
		return res(g.InteriorCover(s.coverers[k.Obj]))
	case "rect":
		return res(geodata.GeoDataToRect(g))
	case "geom":
		t, err := geodata.GeoDataToGeom(g)
		if err != nil {
			return "refused"
		}
		b := &geodata.GeoData{}
		err = geodata.GeomToGeoData(t, b)
		return res(gdText(b), err)
	case "feature":
		b := &geodata.GeoData{}
		if s.feats[k.Obj] == nil {
			return ""
		}
		err := geodata.GeoJSONFeatureToGeoData(s.feats[k.Obj], b)
		return res(gdText(b), err)
	case "export":
		b, err := geodata.ToGeoJSONFeatureCollection(s.gds)
		return res(string(b), err)
	case "line":
		b, err := geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{g, g})
		return res(string(b), err)
	case "encode":
		b, err := proto.Marshal(g)
		if err != nil {
			return err.Error()
		}
		d := &geodata.GeoData{}
		return res(gdText(d), proto.Unmarshal(b, d)) + gdText(d)
	case "decode":
		d := &geodata.GeoData{}
		err := proto.Unmarshal(s.wires[k.Obj], d)
		return res(gdText(d), err)
	case "props":
		m := geodata.PropertiesToJSONMap(g.Properties)
		b, err := json.Marshal(m)
		return res(string(b), err)
	case "cells":
		return string(s2tools.CellUnionToGeoJSON(s.cells))
	case "union":
		return fmt.Sprint(s2tools.CellUnionUnion(s.cells, s.cells))
	case "missing":
		return fmt.Sprint(s2tools.CellUnionMissing(s.cells, s.cells[:len(s.cells)/2]))
	case "tokens":
		return fmt.Sprint(s2tools.CellUnionToTokens(s.cells))
	case "parse":
		l := ""
		for _, t := range s.tokens {
			if id := s2tools.ParseCellID(t); id != nil {
				l += id.String()
			}
			l += ","
		}
		return l
	case "query":
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/api/s2cells", RawQuery: "cells=" + strings.Join(s.tokens, ",")}, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		w := httptest.NewRecorder()
		s2tools.S2CellQueryHandler(w, req)
		return fmt.Sprint(w.Code, w.Body.String())
	case "post":
		if s.bodies[k.Obj] == "" {
			return ""
		}
		req := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(s.bodies[k.Obj])), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		w := httptest.NewRecorder()
		s2tools.GeoJSONToCellHandler(w, mux.SetURLVars(req, s.vars[k.Obj]))
		return fmt.Sprint(w.Code, w.Body.String())
	}
	panic(harnessError{fmt.Errorf("call %q", k.K)})
}

func (c *geoConcCase) build() (*shared, error) {
	s := &shared{}
	for _, o := range c.Objs {
		g := o.C.S.geo()
		g.Properties = map[string]*spb.Value{}
		for _, p := range o.Props {
			if p.V.plain() != nil {
				g.Properties[p.Name] = p.V.spb()
			}
		}
		s.gds = append(s.gds, g)
		s.coverers = append(s.coverers, o.C.coverer())
		b, err := proto.Marshal(g)
		if err != nil {
			return nil, failf("encoding a well-formed object: %v", err)
		}
		s.wires = append(s.wires, b)
		var f *geojson.Feature
		body := ""
		if o.C.S.Kind != "multi" {
			if f, err = decodeFeature(shapeJSON(&o.C.S), propsJSON(o.Props)); err != nil {
				return nil, harnessError{err}
			}
			body = `{"type":"FeatureCollection","features":[{"type":"Feature","geometry":` + shapeJSON(&o.C.S) + `,"properties":` + propsJSON(o.Props) + `}]}`
		}
		s.feats = append(s.feats, f)
		s.bodies = append(s.bodies, body)
		s.vars = append(s.vars, map[string]string{"min_level": fmt.Sprint(o.C.Min), "max_level": fmt.Sprint(o.C.Max), "max_cells": fmt.Sprint(o.C.MC)})
	}
	for _, cs := range c.Cells {
		s.cells = append(s.cells, s2.CellID(cs.id()))
		s.tokens = append(s.tokens, cs.token())
	}
	return s, nil
}

func runGeoConc(c *geoConcCase, x *Ctx) error {
	alone, err := c.build()
	if err != nil {
		return err
	}
	s, err := c.build()
	if err != nil {
		return err
	}
	sealed := seal(s.gds...)
	want := map[shareCall]string{}
	users := map[int]map[int]bool{}
	for i, l := range c.Calls {
		for _, k := range l {
			x.Label("call " + k.K)
			want[k] = alone.call(k)
			if users[k.Obj] == nil {
				users[k.Obj] = map[int]bool{}
			}
			users[k.Obj][i] = true
		}
	}
	for _, u := range users {
		if len(u) > 1 {
			x.NonTrivial()
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	start := make(chan struct{})
	for i, l := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					first = failf("goroutine %d: panic: %v", i, e)
					mu.Unlock()
				}
			}()
			for n := 0; n < c.Repeat; n++ {
				for _, k := range l {
					if got := s.call(k); got != want[k] {
						mu.Lock()
						if first == nil {
							first = failf("goroutine %d: %s of object %d gives %s, alone it gives %s", i, k.K, k.Obj, show([]byte(got)), show([]byte(want[k])))
						}
						mu.Unlock()
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if first != nil {
		return first
	}
	for i, g := range s.gds {
		if !proto.Equal(g, alone.gds[i]) {
			return failf("object %d changed: %v became %v", i, alone.gds[i], g)
		}
		if !bytes.Equal(s.wires[i], alone.wires[i]) && gdTextWire(s.wires[i]) != gdTextWire(alone.wires[i]) {
			return failf("the encoded form of object %d changed", i)
		}
	}
	for i, cl := range s.cells {
		if cl != alone.cells[i] {
			return failf("the shared list of cells changed at %d", i)
		}
	}
	return sealed()
}

func gdTextWire(b []byte) string {
	d := &geodata.GeoData{}
	if err := proto.Unmarshal(b, d); err != nil {
		return err.Error()
	}
	return gdText(d)
}
