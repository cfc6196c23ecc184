package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/r3"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
	"pgregory.net/rapid"
)

// F is a float64 that survives JSON whatever its value.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}
func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

func floats(f []F) []float64 {
	var out []float64
	for _, v := range f {
		out = append(out, float64(v))
	}
	return out
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- G01

// GJ is a GeoJSON geometry.
type GJ struct {
	Type string  `json:"type"`
	Dim  int     `json:"dim"`
	Pts  [][][]F `json:"pts"` // rings of positions
}

func genCoord(t *rapid.T, max float64) F {
	switch rapid.IntRange(0, 5).Draw(t, "ck") {
	case 0:
		return F(rapid.SampledFrom([]float64{0, 1, -1, max, -max, 0.1, 1e-7, -1e-12, 12.345678901234567}).Draw(t, "c"))
	case 1:
		return F(round6(rapid.Float64Range(-max, max).Draw(t, "c")))
	}
	return F(rapid.Float64Range(-max, max).Draw(t, "c"))
}

func genPos(t *rapid.T, dim int) []F {
	p := []F{genCoord(t, 180), genCoord(t, 90)}
	for i := 2; i < dim; i++ {
		p = append(p, genCoord(t, 9000))
	}
	return p
}

func genGJ(t *rapid.T) GJ {
	g := GJ{Type: rapid.SampledFrom([]string{"Point", "LineString", "Polygon", "Polygon"}).Draw(t, "type"), Dim: rapid.SampledFrom([]int{2, 2, 2, 3, 4}).Draw(t, "dim")}
	rings := 1
	if g.Type == "Polygon" {
		rings = rapid.IntRange(1, 4).Draw(t, "rings")
	}
	for i := 0; i < rings; i++ {
		n := 1
		if g.Type == "LineString" {
			n = rapid.IntRange(1, 9).Draw(t, "n")
		}
		if g.Type == "Polygon" {
			n = rapid.IntRange(3, 9).Draw(t, "n")
		}
		var r [][]F
		if n > 1 && rare(t, "many", 1500) {
			rng := rand.New(rand.NewSource(int64(n)))
			for j := rapid.SampledFrom([]int{110, 320, 1100, 2600}).Draw(t, "manyn"); j > 0; j-- {
				p := make([]F, g.Dim)
				for k := range p {
					p[k] = F(180 * (rng.Float64() - 0.5))
				}
				r = append(r, p)
			}
		}
		for j := 0; j < n; j++ {
			r = append(r, genPos(t, g.Dim))
		}
		if g.Type == "Polygon" && rapid.Bool().Draw(t, "close") {
			r = append(r, append([]F{}, r[0]...))
		}
		g.Pts = append(g.Pts, r)
	}
	return g
}

func num(f F) string { return strconv.FormatFloat(float64(f), 'g', -1, 64) }

func posJSON(p []F) string {
	var s []string
	for _, v := range p {
		s = append(s, num(v))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (g GJ) json() string {
	var rings []string
	for _, r := range g.Pts {
		var ps []string
		for _, p := range r {
			ps = append(ps, posJSON(p))
		}
		rings = append(rings, "["+strings.Join(ps, ",")+"]")
	}
	c := ""
	switch g.Type {
	case "Point":
		c = posJSON(g.Pts[0][0])
	case "LineString":
		c = rings[0]
	default:
		c = "[" + strings.Join(rings, ",") + "]"
	}
	return `{"type":"` + g.Type + `","coordinates":` + c + `}`
}

// xy is what must be kept: the lng lat pairs of the first ring.
func (g GJ) xy() []float64 {
	var out []float64
	for _, p := range g.Pts[0] {
		out = append(out, float64(p[0]), float64(p[1]))
	}
	return out
}

func (g GJ) gtype() geodata.Geometry_Type {
	return map[string]geodata.Geometry_Type{"Point": geodata.Geometry_POINT, "LineString": geodata.Geometry_LINESTRING, "Polygon": geodata.Geometry_POLYGON}[g.Type]
}

var unsupportedGJ = []string{
	`{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`,
	`{"type":"MultiLineString","coordinates":[[[1,2],[3,4]]]}`,
	`{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,9],[1,2]]]]}`,
	`{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]}`,
	`null`,
}

type convCase struct {
	G   GJ   `json:"g"`
	Bad int  `json:"bad"` // >0: also convert an unsupported geometry into the same target
	Old GJ   `json:"old"` // geometry already on the target
	Use bool `json:"use"`
}

func init() {
	register(Prop{ID: "G01", Quick: 200000, Thorough: 1600000,
		Rule: "GeoJSON points, lines and polygons (1-4 rings, 2-4 ordinates, arbitrary doubles) written by an independent encoder, decoded, converted to GeoData, back to geometries and exported; coordinates compared bit for bit; unsupported types must leave the target's geometry alone; non-trivial: more than one ring or more than two ordinates"},
		func(t *rapid.T) *convCase {
			return &convCase{G: genGJ(t), Bad: rapid.IntRange(0, len(unsupportedGJ)).Draw(t, "bad"), Old: genGJ(t), Use: rapid.Bool().Draw(t, "use")}
		}, runConv)
}

func decodeFeature(geometry string, props string) (*geojson.Feature, error) {
	f := &geojson.Feature{}
	err := f.UnmarshalJSON([]byte(`{"type":"Feature","geometry":` + geometry + `,"properties":` + props + `}`))
	return f, err
}

func runConv(c *convCase, x *Ctx) error {
	gd := &geodata.GeoData{}
	if c.Use {
		gd.Geometry = &geodata.Geometry{Type: c.Old.gtype(), Coordinates: c.Old.xy()}
	}
	f, err := decodeFeature(c.G.json(), `{"a":1}`)
	must(err)
	if err := geodata.GeoJSONFeatureToGeoData(f, gd); err != nil {
		return failf("converting %s: %v", c.G.json(), err)
	}
	if len(c.G.Pts) > 1 || c.G.Dim > 2 {
		x.NonTrivial()
	}
	x.Label(c.G.Type)
	check := func(g *geodata.GeoData, what string) error {
		if g.Geometry == nil || g.Geometry.Type != c.G.gtype() {
			return failf("%s: type is %v for a %s", what, g.Geometry, c.G.Type)
		}
		if !sameFloats(g.Geometry.Coordinates, c.G.xy()) {
			return failf("%s: coordinates %v, expected %v", what, g.Geometry.Coordinates, c.G.xy())
		}
		if len(g.Geometry.Geometries) != 0 {
			return failf("%s: unexpected sub geometries", what)
		}
		return nil
	}
	if err := check(gd, "converting "+c.G.json()); err != nil {
		return err
	}
	// GeomToGeoData alone
	gd2 := &geodata.GeoData{}
	if err := geodata.GeomToGeoData(f.Geometry, gd2); err != nil {
		return failf("GeomToGeoData: %v", err)
	}
	if err := check(gd2, "GeomToGeoData"); err != nil {
		return err
	}
	// and back
	gt, err := geodata.GeoDataToGeom(gd)
	if err != nil {
		return failf("converting back: %v", err)
	}
	okType := false
	switch gt.(type) {
	case *geom.Point:
		okType = c.G.Type == "Point"
	case *geom.LineString:
		okType = c.G.Type == "LineString"
	case *geom.Polygon:
		okType = c.G.Type == "Polygon"
	}
	if !okType || !sameFloats(gt.FlatCoords(), c.G.xy()) || gt.Layout() != geom.XY {
		return failf("converting back gives %T %v, expected %s %v", gt, gt.FlatCoords(), c.G.Type, c.G.xy())
	}
	gd3 := &geodata.GeoData{}
	if err := geodata.GeomToGeoData(gt, gd3); err != nil {
		return failf("converting forth again: %v", err)
	}
	if err := check(gd3, "converting forth again"); err != nil {
		return err
	}
	// export
	b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
	if err != nil {
		return failf("export: %v", err)
	}
	fc, err := parseFC(b)
	if err != nil {
		return failf("export is not a feature collection: %v", err)
	}
	if len(fc.Features) != 1 {
		return failf("export of one object has %d features", len(fc.Features))
	}
	if err := fc.Features[0].same(gd); err != nil {
		return failf("export: %v", err)
	}
	// unsupported geometries
	if c.Bad > 0 {
		var g geom.T
		raw := unsupportedGJ[c.Bad-1]
		bf, err := decodeFeature(raw, `{}`)
		must(err)
		g = bf.Geometry
		if err := geodata.GeomToGeoData(g, gd); err == nil {
			return failf("the unsupported geometry %s is accepted", raw)
		}
		if err := check(gd, "after refusing "+raw); err != nil {
			return err
		}
		if err := geodata.GeoJSONFeatureToGeoData(bf, gd); err == nil {
			return failf("a feature with the unsupported geometry %s is accepted", raw)
		}
		if err := check(gd, "after refusing the feature "+raw); err != nil {
			return err
		}
		x.Label("unsupported type")
	}
	return nil
}

// ---------------------------------------------------------------- exported GeoJSON, read independently

type outFeature struct {
	Type     string `json:"type"`
	Geometry *struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
	Properties map[string]interface{} `json:"properties"`
}

type outFC struct {
	Type     string       `json:"type"`
	Features []outFeature `json:"features"`
}

func parseFC(b []byte) (*outFC, error) {
	var fc outFC
	if err := json.Unmarshal(b, &fc); err != nil {
		return nil, err
	}
	if fc.Type != "FeatureCollection" {
		return nil, fmt.Errorf("type %q", fc.Type)
	}
	for _, f := range fc.Features {
		if f.Type != "Feature" {
			return nil, fmt.Errorf("feature type %q", f.Type)
		}
	}
	return &fc, nil
}

func flat(pts [][]float64) ([]float64, error) {
	var out []float64
	for _, p := range pts {
		if len(p) != 2 {
			return nil, fmt.Errorf("a position has %d ordinates", len(p))
		}
		out = append(out, p...)
	}
	return out, nil
}

// same compares an exported feature's geometry with the object.
func (f outFeature) same(gd *geodata.GeoData) error {
	if f.Geometry == nil {
		return fmt.Errorf("no geometry")
	}
	g := gd.Geometry
	wantType := map[geodata.Geometry_Type]string{geodata.Geometry_POINT: "Point", geodata.Geometry_LINESTRING: "LineString", geodata.Geometry_POLYGON: "Polygon", geodata.Geometry_MULTIPOLYGON: "MultiPolygon"}[g.Type]
	if f.Geometry.Type != wantType {
		return fmt.Errorf("type %q, expected %q", f.Geometry.Type, wantType)
	}
	cmp := func(pts [][]float64, want []float64) error {
		got, err := flat(pts)
		if err != nil {
			return err
		}
		if !sameFloats(got, want) {
			return fmt.Errorf("coordinates %v, expected %v", got, want)
		}
		return nil
	}
	switch g.Type {
	case geodata.Geometry_POINT:
		var p []float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
			return err
		}
		return cmp([][]float64{p}, g.Coordinates)
	case geodata.Geometry_LINESTRING:
		var p [][]float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
			return err
		}
		return cmp(p, g.Coordinates)
	case geodata.Geometry_POLYGON:
		var p [][][]float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
			return err
		}
		if len(p) != 1 {
			return fmt.Errorf("%d rings", len(p))
		}
		return cmp(p[0], g.Coordinates)
	}
	var p [][][][]float64
	if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
		return err
	}
	if len(p) != len(g.Geometries) {
		return fmt.Errorf("%d polygons, expected %d", len(p), len(g.Geometries))
	}
	for i := range p {
		if len(p[i]) != 1 {
			return fmt.Errorf("polygon %d has %d rings", i, len(p[i]))
		}
		if err := cmp(p[i][0], g.Geometries[i].Coordinates); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- G02

// PV is a property value: kind b, n, i, s, 0 (null) or an unsupported one.
type PV struct {
	K string `json:"k"`
	B bool   `json:"b,omitempty"`
	N F      `json:"n,omitempty"`
	S string `json:"s,omitempty"`
}

type prop struct {
	Name string `json:"name"`
	V    PV     `json:"v"`
}

func genText(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "sk") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "0", "true", "null", "\u2028<&>\"\\\n\x00\t", "é\U0001F600", "name"}).Draw(t, "s")
	}
	if rare(t, "longs", 3000) {
		return strings.Repeat(rapid.SampledFrom([]string{"a", "\u00e9", "\"", "x<"}).Draw(t, "s"), rapid.SampledFrom([]int{130, 700, 2500, 70000}).Draw(t, "srep"))
	}
	s := rapid.StringN(0, 12, 40).Draw(t, "s")
	if !utf8.ValidString(s) || strings.ContainsRune(s, utf8.RuneError) {
		return "r"
	}
	return s
}

func genNum(t *rapid.T) float64 {
	v := rapid.Float64().Draw(t, "n")
	if math.IsNaN(v) || math.IsInf(v, 0) {
		v = 0
	}
	if rapid.IntRange(0, 3).Draw(t, "nk") == 0 {
		v = rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1e21, -1e-9, 9007199254740993, math.MaxFloat64, 5e-324, 1e6, 1234567.5}).Draw(t, "n0")
	}
	return v
}

func genPV(t *rapid.T, unsupported bool) PV {
	k := rapid.SampledFrom([]string{"b", "n", "s", "s", "n", "i", "0"}).Draw(t, "pk")
	if unsupported {
		k = rapid.SampledFrom([]string{"list", "map", "int64", "float32", "uint", "number", "bytes", "struct"}).Draw(t, "pu")
	}
	v := PV{K: k}
	switch k {
	case "b":
		v.B = rapid.Bool().Draw(t, "b")
	case "n":
		v.N = F(genNum(t))
	case "i":
		v.N = F(rapid.IntRange(-1<<40, 1<<40).Draw(t, "i"))
	case "s":
		v.S = genText(t)
	}
	return v
}

func (v PV) value() interface{} {
	switch v.K {
	case "b":
		return v.B
	case "n":
		return float64(v.N)
	case "i":
		return int(v.N)
	case "s":
		return v.S
	case "0":
		return nil
	case "list":
		return []interface{}{"a", 1.0}
	case "map":
		return map[string]interface{}{"a": 1.0}
	case "int64":
		return int64(3)
	case "float32":
		return float32(3)
	case "uint":
		return uint(3)
	case "number":
		return json.Number("3")
	case "bytes":
		return []byte("x")
	}
	return struct{}{}
}

// plain is the value after conversion: bool, float64, string or nil.
func (v PV) plain() interface{} {
	switch v.K {
	case "b":
		return v.B
	case "n", "i":
		return float64(v.N)
	case "s":
		return v.S
	}
	return nil
}

func spbPlain(v *spb.Value) interface{} {
	switch k := v.GetKind().(type) {
	case *spb.Value_BoolValue:
		return k.BoolValue
	case *spb.Value_NumberValue:
		return k.NumberValue
	case *spb.Value_StringValue:
		return k.StringValue
	case nil:
		return nil
	}
	return fmt.Sprintf("%T", v.GetKind())
}

func toSpb(p interface{}) *spb.Value {
	switch k := p.(type) {
	case bool:
		return &spb.Value{Kind: &spb.Value_BoolValue{BoolValue: k}}
	case float64:
		return &spb.Value{Kind: &spb.Value_NumberValue{NumberValue: k}}
	case string:
		return &spb.Value{Kind: &spb.Value_StringValue{StringValue: k}}
	}
	return nil
}

func genProps(t *rapid.T, max int) []prop {
	n := rapid.IntRange(0, max).Draw(t, "nprops")
	var out []prop
	for i := 0; i < n; i++ {
		out = append(out, prop{Name: genText(t), V: genPV(t, false)})
	}
	if rare(t, "manyprops", 1000) {
		for i := rapid.SampledFrom([]int{20, 60, 300}).Draw(t, "np"); i > 0; i-- {
			out = append(out, prop{Name: fmt.Sprintf("p%d", i), V: PV{K: "n", N: F(i)}})
		}
	}
	return out
}

type propCase struct {
	Props []prop `json:"props"`
	Old   []prop `json:"old"`
	Bad   bool   `json:"bad"`
	BadV  prop   `json:"badv"`
	Nil   bool   `json:"nil"`
	JSON  bool   `json:"json"` // through GeoJSON text instead of Go values
}

func init() {
	register(Prop{ID: "G02", Quick: 400000, Thorough: 3200000,
		Rule: "features with 0-8 properties (booleans, numbers, ints, any text, null) converted onto a target with 0-4 properties and exported three ways; unsupported types in 1 of 3 cases must leave the target as it was; non-trivial: at least two kinds and an overlap or an unsupported value"},
		func(t *rapid.T) *propCase {
			c := &propCase{Props: genProps(t, 8), Old: genProps(t, 4), Bad: rapid.IntRange(0, 2).Draw(t, "bad") == 0, Nil: rapid.Bool().Draw(t, "nil"), JSON: rapid.Bool().Draw(t, "json")}
			c.BadV = prop{Name: genText(t), V: genPV(t, true)}
			if len(c.Old) > 0 && rapid.Bool().Draw(t, "overlap") {
				c.Props = append(c.Props, prop{Name: c.Old[0].Name, V: genPV(t, false)})
			}
			return c
		}, runProps)
}

func diffProps(got, want map[string]interface{}) error {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("property %q (%v) is missing", k, v)
		}
		if g != v {
			return fmt.Errorf("property %q is %T %v, expected %T %v", k, g, g, v, v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("unexpected property %q (%v)", k, v)
		}
	}
	return nil
}

func runProps(c *propCase, x *Ctx) error {
	gd := &geodata.GeoData{}
	want := map[string]interface{}{}
	if !c.Nil || len(c.Old) > 0 {
		gd.Properties = map[string]*spb.Value{}
	}
	for _, p := range c.Old {
		if v := p.V.plain(); v != nil {
			gd.Properties[p.Name] = toSpb(v)
			want[p.Name] = v
		}
	}
	before := map[string]interface{}{}
	for k, v := range want {
		before[k] = v
	}
	f := &geojson.Feature{Properties: map[string]interface{}{}}
	kinds := map[string]bool{}
	for _, p := range c.Props {
		f.Properties[p.Name] = p.V.value()
		kinds[p.V.K] = true
	}
	if c.Bad {
		f.Properties[c.BadV.Name] = c.BadV.V.value()
	}
	f.Geometry = geom.NewPointFlat(geom.XY, []float64{1, 2})
	if c.JSON && !c.Bad {
		b, err := json.Marshal(f.Properties)
		must(err)
		f, err = decodeFeature(`{"type":"Point","coordinates":[1,2]}`, string(b))
		must(err)
	}
	plain := func() map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range gd.Properties {
			m[k] = spbPlain(v)
		}
		return m
	}
	var err error
	if c.JSON {
		err = geodata.GeoJSONFeatureToGeoData(f, gd)
	} else {
		err = geodata.PropertiesToGeoData(f, gd)
	}
	if c.Bad {
		x.NonTrivial()
		x.Label("unsupported type")
		if err == nil {
			return failf("a property of type %T is accepted", c.BadV.V.value())
		}
		if derr := diffProps(plain(), before); derr != nil {
			return failf("refusing a property of type %T changed the target: %v", c.BadV.V.value(), derr)
		}
		if gd.Geometry != nil {
			return failf("refusing a property of type %T set the target's geometry", c.BadV.V.value())
		}
		return nil
	}
	if err != nil {
		return failf("converting properties: %v", err)
	}
	final := map[string]PV{}
	for _, p := range c.Props {
		final[p.Name] = p.V
	}
	overlap := false
	for k, v := range final {
		if _, ok := before[k]; ok {
			overlap = true
		}
		if v.plain() != nil {
			want[k] = v.plain()
		}
	}
	if len(kinds) > 1 && overlap {
		x.NonTrivial()
	}
	if derr := diffProps(plain(), want); derr != nil {
		return failf("converting to GeoData: %v", derr)
	}
	if derr := diffProps(geodata.PropertiesToJSONMap(gd.Properties), want); derr != nil {
		return failf("PropertiesToJSONMap: %v", derr)
	}
	gd.Geometry = &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{1, 2}}
	b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
	if err != nil {
		return failf("export: %v", err)
	}
	fc, err := parseFC(b)
	if err != nil || len(fc.Features) != 1 {
		return failf("export is not a collection of one feature: %v", err)
	}
	if derr := diffProps(fc.Features[0].Properties, want); derr != nil {
		return failf("export: %v", derr)
	}
	b, err = geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{gd, gd})
	if err != nil {
		return failf("export as line: %v", err)
	}
	var of outFeature
	if err := json.Unmarshal(b, &of); err != nil {
		return failf("export as line: %v", err)
	}
	if derr := diffProps(of.Properties, want); derr != nil {
		return failf("export as line: %v", derr)
	}
	return nil
}

// ---------------------------------------------------------------- G03

// PGeo is any geometry message.
type PGeo struct {
	Type int32   `json:"type"`
	C    []F     `json:"c"`
	Sub  []*PGeo `json:"sub,omitempty"`
}

type wireCase struct {
	NoGeo    bool   `json:"nogeo"`
	G        PGeo   `json:"g"`
	Props    []prop `json:"props"`
	Unpacked bool   `json:"unpacked"`
	Junk     B      `json:"junk"`
	Cut      int    `json:"cut"`
	Flip     []int  `json:"flip"`
}

func genAnyF(t *rapid.T) F {
	if rapid.IntRange(0, 3).Draw(t, "af") == 0 {
		return F(rapid.SampledFrom([]float64{0, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 5e-324, math.MaxFloat64}).Draw(t, "f"))
	}
	return F(rapid.Float64().Draw(t, "f"))
}

func genPGeo(t *rapid.T, depth int) *PGeo {
	g := &PGeo{Type: int32(rapid.IntRange(0, 3).Draw(t, "type"))}
	if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
		g.Type = rapid.SampledFrom([]int32{4, 127, 128, -1, math.MaxInt32, math.MinInt32}).Draw(t, "type")
	}
	n := rapid.IntRange(0, 20).Draw(t, "n")
	for i := 0; i < n; i++ {
		g.C = append(g.C, genAnyF(t))
	}
	if rare(t, "manyc", 1000) {
		for i := rapid.SampledFrom([]int{130, 600, 2100, 20000}).Draw(t, "mc"); i > 0; i-- {
			g.C = append(g.C, F(float64(i)/7))
		}
	}
	if depth > 0 && rapid.IntRange(0, 1).Draw(t, "nest") == 0 {
		for i := rapid.IntRange(1, 3).Draw(t, "subs"); i > 0; i-- {
			g.Sub = append(g.Sub, genPGeo(t, depth-1))
		}
		if rare(t, "manysub", 300) {
			for i := rapid.SampledFrom([]int{20, 130, 600}).Draw(t, "ms"); i > 0; i-- {
				g.Sub = append(g.Sub, &PGeo{Type: 2, C: []F{F(i), 1, 2, 3, F(i), 5}})
			}
		}
	}
	return g
}

func (g *PGeo) msg() *geodata.Geometry {
	m := &geodata.Geometry{Type: geodata.Geometry_Type(g.Type), Coordinates: floats(g.C)}
	for _, s := range g.Sub {
		m.Geometries = append(m.Geometries, s.msg())
	}
	return m
}

func tagBytes(field, wire int) []byte { return binary.AppendUvarint(nil, uint64(field<<3|wire)) }

func lenField(field int, b []byte) []byte {
	out := append(tagBytes(field, 2), binary.AppendUvarint(nil, uint64(len(b)))...)
	return append(out, b...)
}

// wire encodes the geometry by hand from the published schema.
func (g *PGeo) wire(unpacked bool) []byte {
	var b []byte
	if g.Type != 0 {
		b = append(b, tagBytes(1, 0)...)
		b = binary.AppendUvarint(b, uint64(int64(g.Type)))
	}
	for _, s := range g.Sub {
		b = append(b, lenField(2, s.wire(unpacked))...)
	}
	if len(g.C) > 0 {
		var p []byte
		for _, v := range g.C {
			if unpacked {
				b = append(b, tagBytes(3, 1)...)
				b = binary.LittleEndian.AppendUint64(b, math.Float64bits(float64(v)))
			}
			p = binary.LittleEndian.AppendUint64(p, math.Float64bits(float64(v)))
		}
		if !unpacked {
			b = append(b, lenField(3, p)...)
		}
	}
	return b
}

// wire of a google.protobuf.Value.
func (v PV) wire() []byte {
	switch v.K {
	case "b":
		b := byte(0)
		if v.B {
			b = 1
		}
		return append(tagBytes(4, 0), b)
	case "n", "i":
		return binary.LittleEndian.AppendUint64(tagBytes(2, 1), math.Float64bits(float64(v.N)))
	case "s":
		return lenField(3, []byte(v.S))
	}
	return append(tagBytes(1, 0), 0) // null
}

func (v PV) spb() *spb.Value {
	if p := toSpb(v.plain()); p != nil {
		return p
	}
	return &spb.Value{Kind: &spb.Value_NullValue{}}
}

func (c *wireCase) gd() *geodata.GeoData {
	g := &geodata.GeoData{}
	if !c.NoGeo {
		g.Geometry = c.G.msg()
	}
	for _, p := range c.Props {
		if g.Properties == nil {
			g.Properties = map[string]*spb.Value{}
		}
		g.Properties[p.Name] = p.V.spb()
	}
	return g
}

func (c *wireCase) wire(unpacked bool) []byte {
	var b []byte
	if !c.NoGeo {
		b = append(b, lenField(1, c.G.wire(unpacked))...)
	}
	for _, p := range c.Props {
		e := append(lenField(1, []byte(p.Name)), lenField(2, p.V.wire())...)
		b = append(b, lenField(2, e)...)
	}
	return b
}

func init() {
	register(Prop{ID: "G03", Quick: 240000, Thorough: 1920000,
		Rule: "messages with nested geometries, any double (NaN, infinities, -0), any enum value, 0-5 properties; the encoding is compared byte for byte with an independent encoder written from the schema (at most one property), decoded back, hand-made encodings (also unpacked) are decoded, and truncated, bit-flipped and random bytes must not panic; non-trivial: nested geometry or several properties"},
		func(t *rapid.T) *wireCase {
			c := &wireCase{NoGeo: rapid.IntRange(0, 9).Draw(t, "nogeo") == 0, G: *genPGeo(t, 2), Props: genProps(t, 5), Unpacked: rapid.Bool().Draw(t, "unpacked"), Cut: rapid.IntRange(0, 400).Draw(t, "cut")}
			if rapid.Bool().Draw(t, "one") && len(c.Props) > 1 {
				c.Props = c.Props[:1]
			}
			if rapid.IntRange(0, 3).Draw(t, "junk") == 0 {
				c.Junk = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
			}
			for i := rapid.IntRange(0, 4).Draw(t, "nf"); i > 0; i-- {
				c.Flip = append(c.Flip, rapid.IntRange(0, 4000).Draw(t, "flip"))
			}
			return c
		}, runWire)
}

// sameGeo compares messages field by field, NaNs being equal.
func sameGeo(a, b *geodata.Geometry) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if a.Type != b.Type || len(a.Coordinates) != len(b.Coordinates) || len(a.Geometries) != len(b.Geometries) {
		return false
	}
	for i := range a.Coordinates {
		if math.Float64bits(a.Coordinates[i]) != math.Float64bits(b.Coordinates[i]) {
			return false
		}
	}
	for i := range a.Geometries {
		if !sameGeo(a.Geometries[i], b.Geometries[i]) {
			return false
		}
	}
	return true
}

func sameGD(a, b *geodata.GeoData) bool {
	if !sameGeo(a.Geometry, b.Geometry) || len(a.Properties) != len(b.Properties) {
		return false
	}
	for k, v := range a.Properties {
		w, ok := b.Properties[k]
		if !ok || spbPlain(v) != spbPlain(w) && fmt.Sprint(spbPlain(v)) != fmt.Sprint(spbPlain(w)) {
			return false
		}
	}
	return true
}

func runWire(c *wireCase, x *Ctx) error {
	seen := map[string]bool{}
	var ps []prop
	for _, p := range c.Props {
		if !seen[p.Name] {
			seen[p.Name] = true
			ps = append(ps, p)
		}
	}
	c.Props = ps
	gd := c.gd()
	if len(c.G.Sub) > 0 || len(ps) > 1 {
		x.NonTrivial()
	}
	b, err := proto.Marshal(gd)
	if err != nil {
		return failf("encoding %v: %v", gd, err)
	}
	w := c.wire(false)
	if len(c.Props) <= 1 && !bytes.Equal(b, w) {
		return failf("the encoding is %x, the published schema gives %x", b, w)
	}
	if len(b) != len(w) {
		return failf("the encoding has %d bytes, the published schema gives %d", len(b), len(w))
	}
	check := func(what string, enc []byte) error {
		var out geodata.GeoData
		if err := proto.Unmarshal(enc, &out); err != nil {
			return failf("decoding %s %x: %v", what, enc, err)
		}
		if !sameGD(&out, gd) {
			return failf("decoding %s %x gives %v, expected %v", what, enc, &out, gd)
		}
		return nil
	}
	if err := check("what was encoded", b); err != nil {
		return err
	}
	if err := check("the schema's encoding", w); err != nil {
		return err
	}
	if c.Unpacked {
		if err := check("an unpacked encoding", c.wire(true)); err != nil {
			return err
		}
	}
	// damaged bytes
	damaged := [][]byte{c.Junk}
	if len(b) > 0 {
		damaged = append(damaged, b[:c.Cut%len(b)])
		d := append([]byte{}, b...)
		for _, f := range c.Flip {
			d[(f/8)%len(d)] ^= 1 << uint(f%8)
		}
		damaged = append(damaged, d)
	}
	for _, d := range damaged {
		var out geodata.GeoData
		if proto.Unmarshal(d, &out) == nil {
			x.Label("damaged bytes that decode")
			_ = out.String()
			b2, err := proto.Marshal(&out)
			if err != nil {
				continue // e.g. text that is not UTF-8
			}
			var again geodata.GeoData
			if err := proto.Unmarshal(b2, &again); err != nil || !sameGD(&out, &again) {
				return failf("decoded %v from %x, but encoding and decoding it again gives %v (%v)", &out, d, &again, err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- G04

type coverCase struct {
	S    Shape `json:"s"`
	Min  int   `json:"min"`
	Max  int   `json:"max"`
	MC   int   `json:"mc"`
	Seed int64 `json:"seed"`
}

func (c *coverCase) coverer() *s2.RegionCoverer {
	return &s2.RegionCoverer{MinLevel: c.Min, MaxLevel: c.Max, MaxCells: c.MC}
}

func genCover(t *rapid.T, kinds []string, cells float64) *coverCase {
	c := &coverCase{S: genShape(t, kinds, 1.2), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
	r := c.S.R
	if c.S.Kind == "point" {
		r = 0
	}
	ml := maxLevelFor(r, cells)
	c.Min = rapid.IntRange(0, ml).Draw(t, "min")
	if rapid.Bool().Draw(t, "fine") {
		c.Min = rapid.IntRange(maxI(0, ml-3), ml).Draw(t, "min2")
	}
	switch rapid.IntRange(0, 2).Draw(t, "levels") {
	case 0:
		c.Max = c.Min
	case 1:
		c.Max = rapid.IntRange(c.Min, 30).Draw(t, "max")
	default:
		c.Max = 30
	}
	c.MC = rapid.SampledFrom([]int{1, 4, 8, 20, 100, 500}).Draw(t, "mc")
	if c.Max <= ml && rapid.IntRange(0, 2).Draw(t, "mc0") == 0 {
		c.MC = 0
	}
	return c
}

func minI(a, b int) int { return -maxI(-a, -b) }

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	register(Prop{ID: "G04", Quick: 30000, Thorough: 240000,
		Rule: "objects of every kind and size anywhere on the globe, minimum and maximum levels and cell budgets (0-500); 40 locations per object must be covered (leaf containment), every cell must have a level within the limits, be valid and reach the object to within its own size, and the antipode of small objects must stay uncovered; non-trivial: a polygon covered by at least two cells"},
		func(t *rapid.T) *coverCase { return genCover(t, shapeKinds, 11) }, runCover)
}

func covers(cu s2.CellUnion, leaf s2.CellID) bool {
	for _, c := range cu {
		if c.Contains(leaf) {
			return true
		}
	}
	return false
}

// seal moves the coordinates of objects into one array, every list running
// into the next one's memory, and returns a check that nothing in it changed.
func seal(gs ...*geodata.GeoData) func() error {
	var all []*geodata.Geometry
	for i := range gs {
		// the first one, then the others from the last on
		g := gs[(len(gs)-i)%len(gs)]
		if g.Geometry != nil {
			all = append(all, g.Geometry)
			for _, sub := range g.Geometry.Geometries {
				if sub != nil {
					all = append(all, sub)
				}
			}
		}
	}
	n := 8
	for _, g := range all {
		n += len(g.Coordinates) + 3
	}
	arr := make([]float64, n)
	for i := range arr {
		arr[i] = 77.25 + float64(i)
	}
	at := 0
	for _, g := range all {
		k := len(g.Coordinates)
		copy(arr[at:], g.Coordinates)
		g.Coordinates = arr[at : at+k]
		if k%4 == 0 {
			at += 3
		}
		at += k
	}
	was := append([]float64{}, arr...)
	return func() error {
		for i := range arr {
			if math.Float64bits(arr[i]) != math.Float64bits(was[i]) {
				return failf("memory next to the coordinates passed in changed (%v became %v)", was[i], arr[i])
			}
		}
		return nil
	}
}

func runCover(c *coverCase, x *Ctx) (err error) {
	gd := c.S.geo()
	sealed := seal(gd)
	defer func() {
		if err == nil {
			err = sealed()
		}
	}()
	cu, err := gd.Cover(c.coverer())
	if err != nil {
		return failf("cover of a well-formed %s: %v", c.S.Kind, err)
	}
	x.Label(c.S.Kind)
	cu2, err := geodata.GeoDataToCoverCellUnion(gd, c.coverer())
	if err != nil || fmt.Sprint(cu) != fmt.Sprint(cu2) {
		return failf("Cover and GeoDataToCoverCellUnion differ: %v and %v (%v)", cu, cu2, err)
	}
	if c.S.area() && len(cu) > 1 {
		x.NonTrivial()
	}
	for i, p := range c.S.probes(c.Seed, 40) {
		eps := 1e-13
		if p.deep {
			eps = 0
		}
		ok := false
		for _, l := range cellsNear(p.v, 30, eps) {
			ok = ok || covers(cu, l)
		}
		if !ok {
			lat, lng := llVec(p.v)
			return failf("the %s contains %.10f,%.10f (location %d) but its cover of %d cells (levels %d-%d, max cells %d) does not", c.S.Kind, lat, lng, i, len(cu), c.Min, c.Max, c.MC)
		}
	}
	for _, cl := range cu {
		if !cl.IsValid() {
			return failf("the cover holds the invalid cell %x", uint64(cl))
		}
		if cl.Level() < c.Min || cl.Level() > c.Max {
			return failf("the cover holds cell %s of level %d, limits %d-%d", cl.ToToken(), cl.Level(), c.Min, c.Max)
		}
		if d, r := c.S.dist(cellCenter(cl)), cellRadius(cl); d > 2*r+1e-12 {
			lat, lng := llVec(cellCenter(cl))
			return failf("the cover holds cell %s (level %d, radius %.3g) around %.6f,%.6f, %.3g away from the %s", cl.ToToken(), cl.Level(), r, lat, lng, d, c.S.Kind)
		}
	}
	if c.S.R < 0.3 {
		a := c.S.frame().c.Mul(-1)
		if covers(cu, cellsNear(a, 30, 0)[0]) {
			return failf("the cover of a small %s contains its antipode", c.S.Kind)
		}
	}
	return nil
}

// ---------------------------------------------------------------- G05

func init() {
	register(Prop{ID: "G05", Quick: 48000, Thorough: 384000,
		Rule: "interior covers of polygons and multi-polygons; every cell is projected to the gnomonic plane of the object and, shrunk by 1e-9 of its size, must not meet any edge and have its centre inside; levels within limits; when 200 cells are allowed and a cell of the maximum level fits around a sampled interior location with room to spare the cover must not be empty; lines must have none; non-trivial: a non-empty interior cover"},
		func(t *rapid.T) *coverCase {
			c := genCover(t, []string{"polygon", "polygon", "polygon", "multi", "line"}, 20)
			if rapid.Bool().Draw(t, "deep") {
				c.Max = maxI(c.Min, maxLevelFor(c.S.R, 14))
				c.MC = rapid.SampledFrom([]int{8, 200, 500, 1000}).Draw(t, "mc3")
			}
			if c.S.Kind == "line" {
				// nothing stops the search along a line before the maximum level
				c.Max = maxI(c.Min, maxLevelFor(c.S.R, 100))
			}
			return c
		}, runInterior)
}

func runInterior(c *coverCase, x *Ctx) (err error) {
	gd := c.S.geo()
	sealed := seal(gd)
	defer func() {
		if err == nil {
			err = sealed()
		}
	}()
	cu, err := gd.InteriorCover(c.coverer())
	if err != nil {
		return failf("interior cover of a well-formed %s: %v", c.S.Kind, err)
	}
	x.Label(c.S.Kind)
	if c.S.Kind == "line" {
		if len(cu) != 0 {
			return failf("a line has an interior cover of %d cells", len(cu))
		}
		return nil
	}
	if len(cu) > 0 {
		x.NonTrivial()
	}
	fr := c.S.frame()
	k := math.Tan(c.S.R)
	for _, cl := range cu {
		if !cl.IsValid() || cl.Level() < c.Min || cl.Level() > c.Max {
			return failf("the interior cover holds cell %s of level %d, limits %d-%d", cl.ToToken(), cl.Level(), c.Min, c.Max)
		}
		if c.S.Band {
			v := cellVerts(cl)
			for i := range v {
				for f := 0.0; f < 1; f += 0.125 {
					p := v[i].Mul(1 - f).Add(v[(i+1)%4].Mul(f)).Normalize()
					if !c.S.inside(p) && c.S.boundaryDist(p) > 1e-9 {
						return failf("interior cell %s (level %d) reaches out of the %s", cl.ToToken(), cl.Level(), c.S.Kind)
					}
				}
			}
			continue
		}
		m, ok := fr.plane(cellCenter(cl))
		if !ok {
			return failf("the interior cover holds cell %s on the other side of the globe", cl.ToToken())
		}
		m = P2{m[0] / k, m[1] / k}
		if !c.S.inside(cellCenter(cl)) {
			return failf("the centre of interior cell %s (level %d) is outside of the %s", cl.ToToken(), cl.Level(), c.S.Kind)
		}
		var q []P2
		shrink := 1 - 1e-9 - 1e-13/cellRadius(cl)
		for _, v := range cellVerts(cl) {
			p, ok := fr.plane(v)
			if !ok {
				return failf("interior cell %s reaches the other side of the globe", cl.ToToken())
			}
			q = append(q, P2{m[0] + (p[0]/k-m[0])*shrink, m[1] + (p[1]/k-m[1])*shrink})
		}
		for _, r := range c.S.Rings {
			for i := range r {
				a, b := r[i], r[(i+1)%len(r)]
				if inPlanar(q, a) {
					return failf("a vertex of the %s lies within interior cell %s (level %d)", c.S.Kind, cl.ToToken(), cl.Level())
				}
				for j := range q {
					if segCross(a, b, q[j], q[(j+1)%4]) {
						return failf("an edge of the %s crosses interior cell %s (level %d)", c.S.Kind, cl.ToToken(), cl.Level())
					}
				}
			}
		}
	}
	if len(cu) == 0 && c.MC >= 200 {
		for _, p := range c.S.probes(c.Seed, 30) {
			cl := cellsNear(p.v, c.Max, 0)[0]
			if p.deep && c.S.inside(cellCenter(cl)) && c.S.boundaryDist(cellCenter(cl)) > 1.2*cellRadius(cl)+1e-12 {
				// the budget has to allow for the cells of the maximum level
				need := math.Pow(c.S.R/cellSize(c.Max), 2)
				if need < float64(c.MC)/4 {
					return failf("the interior cover is empty although cell %s fits inside with room (levels %d-%d, max cells %d)", cl.ToToken(), c.Min, c.Max, c.MC)
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- G06

type writeCase struct {
	C     coverCase `json:"c"`
	Alt   []Shape   `json:"alt"`
	Inner bool      `json:"inner"`
}

func init() {
	register(Prop{ID: "G06", Quick: 12000, Thorough: 100000,
		Rule: "one polygon or multi-polygon written 2-4 ways (first vertex, direction, closing vertex, repeated vertex): covers, interior covers and bounding rectangles must agree and the objects stay unchanged; non-trivial: two writings of opposite direction whose cover has two cells"},
		func(t *rapid.T) *writeCase {
			w := &writeCase{C: *genCover(t, []string{"polygon", "polygon", "multi"}, 11), Inner: rapid.Bool().Draw(t, "inner")}
			for i := rapid.IntRange(1, 3).Draw(t, "alts"); i > 0; i-- {
				s := w.C.S
				s.genWriting(t)
				w.Alt = append(w.Alt, s)
			}
			return w
		}, runWriting)
}

func runWriting(c *writeCase, x *Ctx) error {
	type res struct {
		cu, in s2.CellUnion
		r      s2.Rect
	}
	get := func(s Shape) (res, error) {
		gd := s.geo()
		cl := cloneGeo(gd)
		sealed := seal(gd)
		var r res
		var err error
		if r.cu, err = gd.Cover(c.C.coverer()); err != nil {
			return r, failf("cover of a well-formed %s: %v", s.Kind, err)
		}
		if c.Inner {
			if r.in, err = gd.InteriorCover(c.C.coverer()); err != nil {
				return r, failf("interior cover of a well-formed %s: %v", s.Kind, err)
			}
		}
		if s.Kind == "polygon" {
			if r.r, err = geodata.GeoDataToRect(gd); err != nil {
				return r, failf("bounding a well-formed polygon: %v", err)
			}
		}
		if !proto.Equal(gd, cl) {
			return r, failf("computing covers changed the object: %v became %v", cl, gd)
		}
		return r, sealed()
	}
	a, err := get(c.C.S)
	if err != nil {
		return err
	}
	set := func(cu s2.CellUnion) string {
		m := map[string]bool{}
		for _, c := range cu {
			m[c.ToToken()] = true
		}
		return strings.Join(sortedStrings(m), " ")
	}
	for i, s := range c.Alt {
		b, err := get(s)
		if err != nil {
			return err
		}
		what := fmt.Sprintf("writing %d (start %d reversed %v closed %v repeated %d) against (start %d reversed %v closed %v repeated %d)", i, s.Start, s.Rev, s.Close, s.Dup, c.C.S.Start, c.C.S.Rev, c.C.S.Close, c.C.S.Dup)
		if set(a.cu) != set(b.cu) {
			return failf("%s: cover is %s, was %s", what, set(b.cu), set(a.cu))
		}
		if set(a.in) != set(b.in) {
			return failf("%s: interior cover is %s, was %s", what, set(b.in), set(a.in))
		}
		for _, d := range []float64{a.r.Lat.Lo - b.r.Lat.Lo, a.r.Lat.Hi - b.r.Lat.Hi, a.r.Lng.Lo - b.r.Lng.Lo, a.r.Lng.Hi - b.r.Lng.Hi} {
			if math.Abs(d) > 1e-13 && math.Abs(math.Abs(d)-2*math.Pi) > 1e-13 {
				return failf("%s: rectangle is %v, was %v", what, b.r, a.r)
			}
		}
		if s.Rev != c.C.S.Rev && len(a.cu) > 1 {
			x.NonTrivial()
		}
	}
	return nil
}

// ---------------------------------------------------------------- G07

// BadGeo is a geometry that is usually malformed.
type BadGeo struct {
	Nil  bool      `json:"nil,omitempty"`
	Type int32     `json:"type"`
	C    []F       `json:"c"`
	Sub  []*BadGeo `json:"sub,omitempty"` // nil entries are kept
}

func (b *BadGeo) msg() *geodata.Geometry {
	if b == nil || b.Nil {
		return nil
	}
	m := &geodata.Geometry{Type: geodata.Geometry_Type(b.Type), Coordinates: floats(b.C)}
	for _, s := range b.Sub {
		m.Geometries = append(m.Geometries, s.msg())
	}
	return m
}

func (b *BadGeo) geo() *geodata.GeoData { return &geodata.GeoData{Geometry: b.msg()} }

func finiteAll(c []F) bool {
	for _, v := range c {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return false
		}
	}
	return true
}

func distinctPairs(c []F) int {
	m := map[[2]F]bool{}
	for i := 0; i+1 < len(c); i += 2 {
		m[[2]F{c[i], c[i+1]}] = true
	}
	return len(m)
}

func badRing(c []F) bool {
	return len(c)%2 != 0 || len(c) < 6 || !finiteAll(c) || distinctPairs(c) < 3
}

// unusable is true when no geometry can be read from it, whatever one accepts.
func (b *BadGeo) unusable() bool {
	if b == nil || b.Nil {
		return true
	}
	switch b.Type {
	case 0:
		return len(b.C) < 2 || !finiteAll(b.C[:2])
	case 1:
		return badRing(b.C)
	case 2:
		for _, s := range b.Sub {
			if s == nil || s.Nil || badRing(s.C) {
				return true
			}
		}
		return len(b.Sub) == 0
	case 3:
		return len(b.C)%2 != 0 || len(b.C) == 0 || !finiteAll(b.C)
	}
	return true
}

func (b *BadGeo) vecs() []r3.Vector {
	if b == nil || b.Nil {
		return nil
	}
	var out []r3.Vector
	if finiteAll(b.C) {
		for i := 0; i+1 < len(b.C); i += 2 {
			out = append(out, vecLL(math.Mod(float64(b.C[i+1]), 360), math.Mod(float64(b.C[i]), 360)))
		}
	}
	for _, s := range b.Sub {
		out = append(out, s.vecs()...)
	}
	return out
}

func (b *BadGeo) maxAbs() float64 {
	m := 0.0
	if b == nil || b.Nil {
		return 0
	}
	for _, v := range b.C {
		m = math.Max(m, math.Abs(float64(v)))
	}
	for _, s := range b.Sub {
		m = math.Max(m, s.maxAbs())
	}
	return m
}

// extent is the largest distance from the first vertex.
func (b *BadGeo) extent() float64 {
	v := b.vecs()
	d := 0.0
	for _, p := range v {
		d = math.Max(d, chordAngle(v[0], p))
	}
	return d
}

// wide tells whether a fixed level cover of it could be large.
func (b *BadGeo) wide(level int) bool {
	return b != nil && !b.Nil && b.Type != 0 && level > 3 && (b.maxAbs() > 720 || b.extent() > 12*cellSize(level))
}

func genBadC(t *rapid.T, n int, lat, lng, size float64) []F {
	var c []F
	for i := 0; i < n; i++ {
		v := lng + size*rapid.Float64Range(-1, 1).Draw(t, "dx")
		if i%2 == 1 {
			v = lat + size*rapid.Float64Range(-1, 1).Draw(t, "dy")
		}
		c = append(c, F(v))
	}
	return c
}

func genBad(t *rapid.T) BadGeo { return *genBadDepth(t, 1) }

func genBadDepth(t *rapid.T, depth int) *BadGeo {
	b := &BadGeo{Type: int32(rapid.IntRange(0, 3).Draw(t, "type"))}
	lat, lng := genLatLng(t)
	size := rapid.SampledFrom([]float64{1e-9, 1e-4, 0.01, 1, 10}).Draw(t, "size")
	n := 2 * rapid.IntRange(0, 8).Draw(t, "n")
	b.C = genBadC(t, n, lat, lng, size)
	if b.Type == 0 {
		b.C = genBadC(t, rapid.IntRange(0, 3).Draw(t, "pn"), lat, lng, size)
	}
	switch rapid.IntRange(0, 13).Draw(t, "defect") {
	case 0:
		b.Nil = true
	case 1:
		b.Type = rapid.SampledFrom([]int32{4, 5, 99, -1, math.MaxInt32}).Draw(t, "utype")
	case 2: // odd count
		b.C = genBadC(t, n+1, lat, lng, size)
	case 3: // not a number
		if len(b.C) > 0 {
			b.C[rapid.IntRange(0, len(b.C)-1).Draw(t, "i")] = F(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, "nan"))
		}
	case 4: // out of range
		if len(b.C) > 0 {
			b.C[rapid.IntRange(0, len(b.C)-1).Draw(t, "i")] = F(rapid.SampledFrom([]float64{1e300, -1e300, 91, -91, 181, 540, 1e9, math.MaxFloat64}).Draw(t, "huge"))
		}
	case 5: // all the same vertex
		for i := 2; i < len(b.C); i++ {
			b.C[i] = b.C[i%2]
		}
	case 6: // two vertices repeated
		for i := 4; i < len(b.C); i++ {
			b.C[i] = b.C[i%4]
		}
	case 7: // collinear on a meridian
		for i := 2; i < len(b.C); i += 2 {
			b.C[i] = b.C[0]
		}
	case 8: // collinear on the equator
		for i := 1; i < len(b.C); i += 2 {
			b.C[i] = 0
		}
	case 9: // antipodal vertices
		if len(b.C) >= 4 {
			b.C[2], b.C[3] = F(wrapLng(float64(b.C[0])+180)), -b.C[1]
		}
	case 10: // bowtie
		b.C = []F{F(lng), F(lat), F(lng + size), F(lat + size), F(lng + size), F(lat), F(lng), F(lat + size)}
	case 11: // a path there and back again
		for i := len(b.C) - 4; i >= 0; i -= 2 {
			b.C = append(b.C, b.C[i], b.C[i+1])
		}
	}
	if depth > 0 && (b.Type == 2 || rapid.IntRange(0, 9).Draw(t, "sub") == 0) {
		for i := rapid.IntRange(0, 3).Draw(t, "subs"); i > 0; i-- {
			if rapid.IntRange(0, 5).Draw(t, "nilsub") == 0 {
				b.Sub = append(b.Sub, nil)
				continue
			}
			s := genBadDepth(t, depth-1)
			if rapid.Bool().Draw(t, "oksub") {
				s = &BadGeo{Type: 1, C: []F{F(lng), F(lat / 2), F(lng + size), F(lat / 2), F(lng), F(lat/2 + size)}}
			}
			b.Sub = append(b.Sub, s)
		}
	}
	return b
}

type badCase struct {
	G     BadGeo   `json:"g"`
	Props []prop   `json:"props"`
	NilPV bool     `json:"nilpv"`
	Raw   B        `json:"raw"` // bytes decoded as GeoData
	C     [3]int   `json:"c"`
	More  []BadGeo `json:"more"`
}

func init() {
	register(Prop{ID: "G07", Quick: 120000, Thorough: 960000,
		Rule:     "geometries with missing parts, odd, short, repeated, collinear, antipodal, crossing, not-a-number or huge coordinates, unknown types, nil members and GeoData decoded from damaged bytes, given to every conversion, cover, rectangle, export and index call: no panic, an error when nothing usable is there, and no cover that reaches the antipode of a small ring; non-trivial: an unusable geometry",
		HangSecs: 60},
		func(t *rapid.T) *badCase {
			c := &badCase{G: genBad(t), Props: genProps(t, 2), NilPV: rapid.Bool().Draw(t, "nilpv")}
			c.C = [3]int{rapid.IntRange(0, 4).Draw(t, "min"), rapid.IntRange(0, 30).Draw(t, "max"), rapid.SampledFrom([]int{1, 8, 40}).Draw(t, "mc")}
			if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
				w := wireCase{G: *genPGeo(t, 2), Props: c.Props}
				c.Raw = w.wire(rapid.Bool().Draw(t, "unpacked"))
				if len(c.Raw) > 0 && rapid.Bool().Draw(t, "hurt") {
					i := rapid.IntRange(0, len(c.Raw)-1).Draw(t, "i")
					c.Raw[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
				}
			}
			for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
				c.More = append(c.More, genBad(t))
			}
			return c
		}, runBad)
}

func wholeEarth(cu s2.CellUnion, away []r3.Vector) bool {
	for _, v := range away {
		if covers(cu, cellsNear(v, 30, 0)[0]) {
			return true
		}
	}
	return false
}

func bad(f float64) bool { return math.IsNaN(f) || math.IsInf(f, 0) }

func runBad(c *badCase, x *Ctx) error {
	gd := c.G.geo()
	unusable := c.G.unusable()
	known := true
	if len(c.Raw) > 0 {
		var d geodata.GeoData
		if proto.Unmarshal(c.Raw, &d) != nil {
			return nil
		}
		gd = &d
		known = false
		x.Label("decoded from bytes")
	}
	for _, p := range c.Props {
		if gd.Properties == nil {
			gd.Properties = map[string]*spb.Value{}
		}
		gd.Properties[p.Name] = p.V.spb()
	}
	if c.NilPV && known {
		gd.Properties = map[string]*spb.Value{"nil": nil, "empty": {}}
	}
	if known && unusable {
		x.NonTrivial()
	}
	cov := &s2.RegionCoverer{MinLevel: c.C[0], MaxLevel: c.C[1], MaxCells: c.C[2]}
	show := func() string {
		s := fmt.Sprintf("%v", gd.Geometry)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		return s
	}
	small := known && !unusable && c.G.Type != 0 && c.G.maxAbs() <= 720 && c.G.extent() < 0.2
	var away []r3.Vector
	if small {
		for _, v := range c.G.vecs()[:1] {
			away = []r3.Vector{v.Mul(-1)}
		}
	}
	cu, err := gd.Cover(cov)
	switch {
	case known && unusable && err == nil:
		return failf("an unusable geometry is covered (%d cells): %s", len(cu), show())
	case err == nil && len(cu) == 0:
		return failf("an empty cover instead of an error for %s", show())
	case err == nil && small && wholeEarth(cu, away):
		return failf("the cover of a small geometry reaches the other side of the globe: %s", show())
	case err == nil:
		x.Label("usable after all")
	}
	cu2, err := geodata.GeoDataToCoverCellUnion(gd, cov)
	if known && unusable && err == nil {
		return failf("an unusable geometry is covered (%d cells): %s", len(cu2), show())
	}
	// nothing stops the search inside a sliver before the maximum level
	cov.MaxLevel = maxI(cov.MinLevel, minI(cov.MaxLevel, 5))
	in, err := gd.InteriorCover(cov)
	if known && unusable && err == nil {
		return failf("an unusable geometry has an interior cover (%d cells): %s", len(in), show())
	}
	if err == nil && small && wholeEarth(in, away) {
		return failf("the interior cover of a small geometry reaches the other side of the globe: %s", show())
	}
	r, err := geodata.GeoDataToRect(gd)
	if err == nil && (known && unusable || gd.Geometry == nil || gd.Geometry.Type != geodata.Geometry_POLYGON && gd.Geometry.Type != geodata.Geometry_LINESTRING) {
		return failf("an unusable geometry is bounded by %v: %s", r, show())
	}
	if err == nil && (r.IsEmpty() || math.IsNaN(r.Lat.Lo+r.Lat.Hi+r.Lng.Lo+r.Lng.Hi)) {
		return failf("an empty rectangle instead of an error for %s", show())
	}
	if g, err := geodata.GeoDataToGeom(gd); err == nil && g == nil {
		return failf("converting %s gives nothing and no error", show())
	} else if err == nil && (gd.Geometry == nil || known && c.G.Type > 3) {
		return failf("converting %s is not refused", show())
	}
	list := []*geodata.GeoData{gd}
	for _, m := range c.More {
		list = append(list, m.geo())
	}
	if b, err := geodata.ToGeoJSONFeatureCollection(list); err == nil && !json.Valid(b) {
		return failf("exporting %s gives invalid JSON", show())
	} else if err == nil && gd.Geometry == nil {
		return failf("exporting an object without geometry is not refused")
	}
	if b, err := geodata.PointsToGeoJSONPolyLines(list); err == nil && !json.Valid(b) {
		return failf("exporting %s gives invalid JSON", show())
	} else if err == nil && (gd.Geometry == nil || gd.Geometry.Type != geodata.Geometry_POINT) {
		return failf("exporting something else than points as a line is not refused: %s", show())
	}
	geodata.PropertiesToJSONMap(gd.Properties)
	_ = gd.String()
	// indexing, at levels where any cover is small
	s := newStrict()
	fl := index.NewS2FlatIdx(s, []byte("f"), c.C[0]%4)
	tm := index.NewS2FlatTimeIdx(s, []byte("t"), c.C[0]%4)
	pt := index.NewS2PointIdx(s, []byte("p"))
	id := index.GeoID("id")
	e1 := fl.GeoIndex(gd, id)
	e2 := tm.GeoTimeIndex(gd, atTime(0, 0), id)
	_, e3 := pt.GeoPointIndex(gd, id)
	_, e4 := pt.GeoPointKey(gd, id)
	if known && unusable && (e1 == nil || e2 == nil || e3 == nil || e4 == nil) {
		return failf("indexing an unusable geometry is not refused (region: %v, time: %v, point: %v, point key: %v): %s", e1, e2, e3, e4, show())
	}
	if notPoint := gd.Geometry == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) < 2 || bad(gd.Geometry.Coordinates[0]) || bad(gd.Geometry.Coordinates[1]); notPoint && (e3 == nil || e4 == nil) {
		return failf("the point index takes something else than a point (index: %v, key: %v): %s", e3, e4, show())
	}
	if g := gd.Geometry; e3 != nil && g != nil && len(g.Coordinates) > 1 && (bad(g.Coordinates[0]) || bad(g.Coordinates[1])) {
		if _, err := pt.PointIndex(g.Coordinates[1], g.Coordinates[0], id); err == nil {
			return failf("the point index takes a location at %v,%v", g.Coordinates[1], g.Coordinates[0])
		}
	}
	if e1 != nil && e2 != nil && e3 != nil && len(s.m) != 0 {
		return failf("refused indexing left %d entries", len(s.m))
	}
	// conversions from malformed features
	if known {
		if err := geodata.GeoJSONFeatureToGeoData(nil, &geodata.GeoData{}); err == nil {
			return failf("a missing feature is converted without error")
		}
	}
	return nil
}

// ---------------------------------------------------------------- G08

func init() {
	register(Prop{ID: "G08", Quick: 180000, Thorough: 1440000,
		Rule: "polygons and lines of every size anywhere; the rectangle must contain 40 sampled locations and equal, within 1e-11 rad, latitude and longitude ranges computed edge by edge (great circle extremes, poles, unwrapped longitudes); points and multi-polygons must be refused; non-trivial: an edge that bulges past its vertices by 1e-6 rad or a shape around a pole or across the antimeridian"},
		func(t *rapid.T) *coverCase {
			return &coverCase{S: genShape(t, []string{"line", "line", "polygon", "polygon", "polygon", "polygon", "point", "multi"}, 1.2), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
		}, runBound)
}

func runBound(c *coverCase, x *Ctx) (err error) {
	gd := c.S.geo()
	sealed := seal(gd)
	defer func() {
		if err == nil {
			err = sealed()
		}
	}()
	r, err := geodata.GeoDataToRect(gd)
	if c.S.Kind == "point" || c.S.Kind == "multi" {
		if err == nil {
			return failf("the rectangle of a %s is not refused: %v", c.S.Kind, r)
		}
		return nil
	}
	if err != nil {
		return failf("bounding a well-formed %s: %v", c.S.Kind, err)
	}
	x.Label(c.S.Kind)
	minLat, maxLat := math.Inf(1), math.Inf(-1)
	nearPole := false
	bulge := false
	// longitudes are unwrapped along the edges
	first := true
	var cur, lo, hi float64
	track := func(lng float64) {
		if first {
			cur, lo, hi, first = lng, lng, lng, false
			return
		}
		d := math.Remainder(lng-cur, 2*math.Pi)
		cur += d
		lo, hi = math.Min(lo, cur), math.Max(hi, cur)
	}
	poles := []r3.Vector{{Z: 1}, {Z: -1}}
	inPole := [2]bool{c.S.inside(poles[0]), c.S.inside(poles[1])}
	for _, e := range c.S.edges() {
		for i, p := range poles {
			if d := distArc(p, e[0], e[1]); d < 1e-6 {
				nearPole = true
				_ = i
			}
		}
		for _, v := range e {
			la := math.Atan2(v.Z, math.Hypot(v.X, v.Y))
			minLat, maxLat = math.Min(minLat, la), math.Max(maxLat, la)
			track(math.Atan2(v.Y, v.X))
		}
		// great circle extremes
		n := e[0].Add(e[1]).Cross(e[1].Sub(e[0]))
		if n.Norm() < 1e-300 {
			continue
		}
		n = n.Normalize()
		ext := r3.Vector{X: -n.X * n.Z, Y: -n.Y * n.Z, Z: n.X*n.X + n.Y*n.Y} // highest point of the circle
		if ext.Norm() < 1e-12 {
			continue
		}
		ext = ext.Normalize()
		for _, m := range []r3.Vector{ext, ext.Mul(-1)} {
			if n.Cross(e[0]).Dot(m) > 0 && e[1].Cross(n).Dot(m) > 0 {
				la := math.Atan2(m.Z, math.Hypot(m.X, m.Y))
				if la > maxLat+1e-6 || la < minLat-1e-6 {
					bulge = true
				}
				minLat, maxLat = math.Min(minLat, la), math.Max(maxLat, la)
			}
		}
	}
	if nearPole {
		x.Label("edge too close to a pole to decide longitudes")
	}
	full := inPole[0] || inPole[1] || hi-lo >= 2*math.Pi-1e-12
	if inPole[0] {
		maxLat = math.Pi / 2
	}
	if inPole[1] {
		minLat = -math.Pi / 2
	}
	if bulge || full || hi > math.Pi || lo < -math.Pi {
		x.NonTrivial()
	}
	const tol = 1e-11
	lat, lng := c.S.Lat, c.S.Lng
	if math.Abs(r.Lat.Lo-minLat) > tol || math.Abs(r.Lat.Hi-maxLat) > tol {
		return failf("the latitudes of the %s around %.6f,%.6f are [%.12f, %.12f] rad, the rectangle says [%.12f, %.12f]", c.S.Kind, lat, lng, minLat, maxLat, r.Lat.Lo, r.Lat.Hi)
	}
	if !nearPole {
		cos := math.Cos(math.Max(math.Abs(minLat), math.Abs(maxLat)))
		tl := tol + 1e-13/math.Max(cos, 1e-7)
		switch {
		case full:
			if !r.Lng.IsFull() && r.Lng.Length() < 2*math.Pi-tl {
				return failf("the object around %.6f,%.6f goes all around the globe but the rectangle only spans the longitudes %v", lat, lng, r.Lng)
			}
		default:
			g0 := math.Abs(math.Remainder(r.Lng.Lo-lo, 2*math.Pi))
			g1 := math.Abs(math.Remainder(r.Lng.Hi-hi, 2*math.Pi))
			if g0 > tl || g1 > tl || math.Abs(math.Max(0, r.Lng.Length())-(hi-lo)) > 2*tl {
				return failf("the longitudes of the %s around %.6f,%.6f are [%.12f, %.12f] rad, the rectangle says [%.12f, %.12f]", c.S.Kind, lat, lng, lo, hi, r.Lng.Lo, r.Lng.Hi)
			}
		}
	}
	for _, p := range c.S.probes(c.Seed, 40) {
		ll := s2.LatLngFromPoint(s2.Point{Vector: p.v})
		la, ln := ll.Lat.Radians(), ll.Lng.Radians()
		if la < r.Lat.Lo-1e-12 || la > r.Lat.Hi+1e-12 {
			return failf("the rectangle %v does not contain the latitude of %v", r, ll)
		}
		if math.Abs(la) < 1.5707 && !r.Lng.Expanded(1e-12/math.Cos(la)).Contains(ln) {
			return failf("the rectangle %v does not contain the longitude of %v", r, ll)
		}
	}
	return nil
}

// ---------------------------------------------------------------- G09

type exObj struct {
	S     *Shape `json:"s,omitempty"`
	Props []prop `json:"props"`
}

type exportCase struct {
	Objs   []exObj `json:"objs"`
	Points bool    `json:"points"`
}

func init() {
	register(Prop{ID: "G09", Quick: 120000, Thorough: 960000,
		Rule: "lists of 0-6 points, lines, polygons and multi-polygons with properties exported as a feature collection, and lists of points (sometimes with another kind) exported as a line; the output is read by an independent parser and compared object by object; non-trivial: at least two objects of different kinds or a multi-polygon"},
		func(t *rapid.T) *exportCase {
			c := &exportCase{Points: rapid.IntRange(0, 2).Draw(t, "points") == 0}
			kinds := []string{"point", "line", "polygon", "multi"}
			for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
				k := kinds
				if c.Points && rapid.IntRange(0, 9).Draw(t, "other") != 0 {
					k = []string{"point"}
				}
				s := genShape(t, k, 1)
				c.Objs = append(c.Objs, exObj{S: &s, Props: genProps(t, 4)})
			}
			if rare(t, "manyobjs", 400) {
				for i := rapid.SampledFrom([]int{40, 120, 520, 1100, 2600, 5000}).Draw(t, "mo"); i > 0; i-- {
					s := pointShape(float64(i%90), float64(i%180))
					c.Objs = append(c.Objs, exObj{S: &s})
				}
			}
			return c
		}, runExport)
}

func runExport(c *exportCase, x *Ctx) error {
	var list, clones []*geodata.GeoData
	kinds := map[string]bool{}
	for _, o := range c.Objs {
		g := o.S.geo()
		g.Properties = map[string]*spb.Value{}
		for _, p := range o.Props {
			if p.V.plain() != nil {
				g.Properties[p.Name] = p.V.spb()
			}
		}
		kinds[o.S.Kind] = true
		list = append(list, g)
		clones = append(clones, cloneGeo(g))
	}
	sealed := seal(list...)
	want := func(i int) map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range clones[i].Properties {
			m[k] = spbPlain(v)
		}
		return m
	}
	b, err := geodata.ToGeoJSONFeatureCollection(list)
	if err != nil {
		return failf("exporting %d objects: %v", len(list), err)
	}
	fc, err := parseFC(b)
	if err != nil {
		return failf("the export is not a feature collection: %v", err)
	}
	if len(fc.Features) != len(list) {
		return failf("exporting %d objects gives %d features", len(list), len(fc.Features))
	}
	for i, f := range fc.Features {
		if err := f.same(clones[i]); err != nil {
			return failf("feature %d: %v", i, err)
		}
		if err := diffProps(f.Properties, want(i)); err != nil {
			return failf("feature %d: %v", i, err)
		}
	}
	if len(kinds) > 1 || kinds["multi"] {
		x.NonTrivial()
	}
	onlyPoints := true
	var pts []float64
	for _, o := range clones {
		if o.Geometry.Type != geodata.Geometry_POINT {
			onlyPoints = false
		}
		pts = append(pts, o.Geometry.Coordinates...)
	}
	b, err = geodata.PointsToGeoJSONPolyLines(list)
	switch {
	case !onlyPoints && err == nil:
		return failf("exporting other geometries than points as a line is not refused")
	case onlyPoints && err != nil:
		return failf("exporting %d points as a line: %v", len(list), err)
	case onlyPoints && len(list) > 0:
		var f outFeature
		if err := json.Unmarshal(b, &f); err != nil {
			return failf("the line export is not JSON: %v", err)
		}
		x.Label("points as a line")
		if f.Geometry == nil || f.Geometry.Type != "LineString" {
			return failf("the line export has geometry %+v", f.Geometry)
		}
		var p [][]float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
			return failf("the line export: %v", err)
		}
		if got, err := flat(p); err != nil || !sameFloats(got, pts) {
			return failf("the line export has the points %v (%v), expected %v", got, err, pts)
		}
		if err := diffProps(f.Properties, want(0)); err != nil {
			return failf("the line export: %v", err)
		}
	}
	for i := range list {
		if !proto.Equal(list[i], clones[i]) {
			return failf("exporting changed object %d: %v became %v", i, clones[i], list[i])
		}
	}
	if err := sealed(); err != nil {
		return failf("exporting: %v", err)
	}
	return nil
}

func shuffled(n int, seed int64) []int {
	return rand.New(rand.NewSource(seed)).Perm(n)
}

var _ = sort.Strings
