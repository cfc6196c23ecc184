package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"math/rand"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/r3"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"
	"pgregory.net/rapid"
)

// Cells are written independently of s2: a cell is a face and a path of quarters, its
// number is 3 bits of face, two bits per step and a one.

type cellSpec struct {
	Face int    `json:"f"`
	Path string `json:"p"`
}

func (c cellSpec) id() uint64 {
	v := uint64(c.Face) << 61
	sh := uint(61)
	for _, d := range c.Path {
		sh -= 2
		v |= uint64(d-'0') << sh
	}
	return v | 1<<(sh-1)
}

func (c cellSpec) token() string {
	return strings.TrimRight(fmt.Sprintf("%016x", c.id()), "0")
}

func (c cellSpec) str() string { return strconv.Itoa(c.Face) + "/" + c.Path }

// validCell is the definition of a valid cell number.
func validCell(v uint64) bool {
	return v>>61 < 6 && v != 0 && bits.TrailingZeros64(v)%2 == 0 && bits.TrailingZeros64(v) <= 60
}

func specOf(v uint64) cellSpec {
	c := cellSpec{Face: int(v >> 61)}
	end := uint(bits.TrailingZeros64(v)) + 1
	for sh := uint(61); sh > end; sh -= 2 {
		c.Path += string(rune('0' + v>>(sh-2)&3))
	}
	return c
}

func genCellSpec(t *rapid.T) cellSpec {
	c := cellSpec{Face: rapid.IntRange(0, 5).Draw(t, "face")}
	n := rapid.IntRange(0, 30).Draw(t, "level")
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0: // all the same digit
		c.Path = strings.Repeat(rapid.SampledFrom([]string{"0", "1", "2", "3"}).Draw(t, "d"), n)
	case 1: // a few steps, then one digit
		k := rapid.IntRange(0, n).Draw(t, "k")
		for i := 0; i < k; i++ {
			c.Path += string(rune('0' + rapid.IntRange(0, 3).Draw(t, "s")))
		}
		c.Path += strings.Repeat(rapid.SampledFrom([]string{"0", "3"}).Draw(t, "d"), n-k)
	default:
		for i := 0; i < n; i++ {
			c.Path += string(rune('0' + rapid.IntRange(0, 3).Draw(t, "s")))
		}
	}
	return c
}

// ---------------------------------------------------------------- T01

type parseCase struct {
	C    cellSpec `json:"c"`
	Text string   `json:"text"`
}

var cellAlphabet = []rune("0123456789abcdefABCDEFxX/+-_. 4\u0663é\x00,")

func init() {
	register(Prop{ID: "T01", Quick: 1200000, Thorough: 9600000,
		Rule: "valid cells of every level and face, numbered independently of s2, in token, face/path and (17 to 20 digit) decimal notation must be parsed to that cell; other texts (damaged notations, cell numbers that are not valid, arbitrary text) must give nothing or a valid cell; the printed notations of s2 must agree; non-trivial: a text that is not a notation of the generated cell"},
		func(t *rapid.T) *parseCase {
			c := &parseCase{C: genCellSpec(t)}
			switch rapid.IntRange(0, 6).Draw(t, "text") {
			case 0:
				c.Text = rapid.StringOfN(rapid.SampledFrom(cellAlphabet), 0, 40, -1).Draw(t, "s")
			case 1:
				c.Text = strconv.FormatUint(rapid.Uint64().Draw(t, "u"), 10)
			case 2:
				c.Text = fmt.Sprintf("%x", rapid.Uint64().Draw(t, "u"))
			case 3: // too deep or a step that does not exist
				c.Text = c.C.str() + rapid.StringOfN(rapid.SampledFrom([]rune("01234")), 0, 31, -1).Draw(t, "s")
			case 4:
				c.Text = rapid.SampledFrom([]string{"", "/", "0/", "6/0", "-1/0", "0/4", "00/1", "/0", "//", "X", "18446744073709551616", "99999999999999999999999", "0", "00000000000000000001", "0x1", "1/é", "é/1", "1é/", "12/3", "\u0661/0", "1", "5/" + strings.Repeat("3", 30), "5/" + strings.Repeat("3", 31)}).Draw(t, "s")
			default:
				b := []byte(rapid.SampledFrom([]string{c.C.token(), c.C.str(), strconv.FormatUint(c.C.id(), 10)}).Draw(t, "from"))
				for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0; n-- {
					r := byte(rapid.SampledFrom([]rune("0123456789abcf/-x ")).Draw(t, "r"))
					i := rapid.IntRange(0, len(b)).Draw(t, "i")
					switch {
					case i == len(b) || rapid.Bool().Draw(t, "insert"):
						b = append(b[:i], append([]byte{r}, b[i:]...)...)
					case rapid.Bool().Draw(t, "delete"):
						b = append(b[:i], b[i+1:]...)
					default:
						b[i] = r
					}
				}
				c.Text = string(b)
			}
			return c
		}, runParse)
}

func runParse(c *parseCase, x *Ctx) error {
	want := s2.CellID(c.C.id())
	forms := []string{c.C.token(), c.C.str()}
	if d := strconv.FormatUint(uint64(want), 10); len(d) >= 17 {
		forms = append(forms, d)
		for _, pad := range []string{"0", "00"} {
			if len(d)+len(pad) <= 20 {
				forms = append(forms, pad+d)
			}
		}
	}
	forms = append(forms, strings.ToUpper(c.C.token()))
	for _, f := range forms {
		got := s2tools.ParseCellID(f)
		if got == nil {
			return failf("%q is cell %s but is not recognised", f, c.C.str())
		}
		if *got != want {
			return failf("%q is cell %s (%d) but is parsed as %d", f, c.C.str(), uint64(want), uint64(*got))
		}
	}
	got := s2tools.ParseCellID(c.Text)
	if got == nil {
		x.Label("nothing")
		x.NonTrivial()
		return nil
	}
	if !validCell(uint64(*got)) {
		return failf("%q is parsed as %d which is not a valid cell", c.Text, uint64(*got))
	}
	if *got != want {
		x.Label("another cell")
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- T02

type setCase struct {
	Lists [][]cellSpec `json:"lists"`
	Raw   []uint64     `json:"raw"` // numbers that need not be cells, in the first list
}

func (c *setCase) list(i int) s2.CellUnion {
	var out s2.CellUnion
	if i < len(c.Lists) {
		for _, s := range c.Lists[i] {
			out = append(out, s2.CellID(s.id()))
		}
	}
	if i == 0 {
		for _, v := range c.Raw {
			out = append(out, s2.CellID(v))
		}
	}
	return out
}

func init() {
	register(Prop{ID: "T02", Quick: 480000, Thorough: 3840000,
		Rule: "0-5 lists of 0-12 cells drawn from a small shared pool (parents, children, siblings, repetitions, both ends of the number range), compared with map and counting references; inputs must stay as they were; non-trivial: a cell in two lists and repeated in one"},
		func(t *rapid.T) *setCase {
			var pool []cellSpec
			for i := rapid.IntRange(1, 5).Draw(t, "pool"); i > 0; i-- {
				c := genCellSpec(t)
				pool = append(pool, c)
				if len(c.Path) > 0 {
					pool = append(pool, cellSpec{c.Face, c.Path[:len(c.Path)-1]})
					for _, d := range "0123" {
						pool = append(pool, cellSpec{c.Face, c.Path[:len(c.Path)-1] + string(d)})
					}
				}
			}
			c := &setCase{}
			for i := rapid.IntRange(0, 5).Draw(t, "lists"); i > 0; i-- {
				c.Lists = append(c.Lists, rapid.SliceOfN(rapid.SampledFrom(pool), 0, 12).Draw(t, "list"))
			}
			if rare(t, "manylists", 2000) {
				for i := rapid.SampledFrom([]int{6, 18, 70, 300}).Draw(t, "ml"); i > 0; i-- {
					c.Lists = append(c.Lists, []cellSpec{pool[i%len(pool)], {i % 6, strconv.FormatInt(int64(i), 4)}})
				}
			}
			if rare(t, "longlist", 2000) {
				k := rapid.IntRange(0, len(c.Lists)).Draw(t, "lk")
				var l []cellSpec
				for i := rapid.SampledFrom([]int{40, 130, 300, 1100}).Draw(t, "ll"); i > 0; i-- {
					l = append(l, pool[0])
					if i%3 == 0 {
						l = append(l, cellSpec{i % 6, strconv.FormatInt(int64(i), 4)})
					}
				}
				c.Lists = append(c.Lists[:k:k], append([][]cellSpec{l}, c.Lists[k:]...)...)
			}
			if rapid.IntRange(0, 5).Draw(t, "raw") == 0 {
				c.Raw = rapid.SliceOfN(rapid.Uint64(), 0, 3).Draw(t, "raws")
			}
			return c
		}, runSets)
}

func sameCells(a, b []s2.CellID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runSets(c *setCase, x *Ctx) error {
	n := len(c.Lists)
	if n == 0 {
		n = 1
	}
	lists := make([]s2.CellUnion, n)
	for i := range lists {
		lists[i] = c.list(i)
		if i%2 == 0 {
			// room to append in place, where a careless implementation would write
			lists[i] = append(make(s2.CellUnion, 0, len(lists[i])+40), lists[i]...)
		}
	}
	unchanged := func(what string) error {
		for i := range lists {
			if !sameCells(lists[i], c.list(i)) {
				return failf("%s changed list %d from %v to %v", what, i, c.list(i), lists[i])
			}
			l := lists[i]
			for _, v := range l[len(l):cap(l)] {
				if v != 0 && i%2 == 0 {
					return failf("%s wrote behind list %d", what, i)
				}
			}
		}
		return nil
	}
	// union
	set := map[s2.CellID]int{}
	repeated, shared := false, false
	for i := range lists {
		in := map[s2.CellID]bool{}
		for _, v := range lists[i] {
			if in[v] {
				repeated = true
			} else if set[v] > 0 {
				shared = true
			}
			in[v] = true
			set[v]++
		}
	}
	if shared && repeated {
		x.NonTrivial()
	}
	var want []s2.CellID
	for v := range set {
		want = append(want, v)
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	got := s2tools.CellUnionUnion(lists[0], lists[1:]...)
	if !sameCells(got, want) {
		return failf("the union of %v is %v, expected %v", lists, got, want)
	}
	if err := unchanged("the union"); err != nil {
		return err
	}
	for i := range got {
		got[i] = 7
	}
	if err := unchanged("changing the result of the union"); err != nil {
		return err
	}
	// missing
	for i := range lists {
		from, to := lists[i], lists[(i+1)%n]
		left := map[s2.CellID]int{}
		total := 0
		for _, v := range from {
			left[v]++
			total++
		}
		for _, v := range to {
			if left[v] > 0 {
				left[v]--
				total--
			}
		}
		got := s2tools.CellUnionMissing(from, to)
		if len(got) != total {
			return failf("cells of %v missing from %v: %v, expected %d cells", from, to, got, total)
		}
		j := 0
		for _, v := range got {
			if left[v]--; left[v] < 0 {
				return failf("cells of %v missing from %v: %v holds %v too often", from, to, got, v)
			}
			for j < len(from) && from[j] != v {
				j++
			}
			if j == len(from) {
				return failf("cells of %v missing from %v: %v is not in the order of the first list", from, to, got)
			}
			j++
		}
		if err := unchanged("the missing cells"); err != nil {
			return err
		}
		for i := range got {
			got[i] = 7
		}
		if err := unchanged("changing the missing cells"); err != nil {
			return err
		}
	}
	// tokens
	for i := range c.Lists {
		cells := c.Lists[i]
		cu := make(s2.CellUnion, 0, len(cells))
		for _, s := range cells {
			cu = append(cu, s2.CellID(s.id()))
		}
		tok := s2tools.CellUnionToTokens(cu)
		if len(tok) != len(cells) {
			return failf("%d tokens for %d cells", len(tok), len(cells))
		}
		for k, s := range cells {
			if tok[k] != s.token() {
				return failf("token %d is %q, expected %q for cell %s", k, tok[k], s.token(), s.str())
			}
		}
		for k, s := range cells {
			if cu[k] != s2.CellID(s.id()) {
				return failf("exporting tokens changed the cells")
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- T03

type cellsCase struct {
	Cells []cellSpec `json:"cells"`
}

func init() {
	register(Prop{ID: "T03", Quick: 240000, Thorough: 1920000,
		Rule: "lists of 0-8 cells of every level and face, repeated ones included; the export is read by an independent parser: one feature per cell in order, token, decimal, face/path and level of the cell, one closed ring of five positions made of the four corners in cyclic order; non-trivial: two cells of different levels, one of them of a polar face or level over 25"},
		func(t *rapid.T) *cellsCase {
			c := &cellsCase{}
			for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
				c.Cells = append(c.Cells, genCellSpec(t))
			}
			if len(c.Cells) > 1 && rapid.IntRange(0, 3).Draw(t, "rep") == 0 {
				c.Cells = append(c.Cells, c.Cells[0])
			}
			if rare(t, "many", 2000) {
				for i := rapid.SampledFrom([]int{40, 130, 600, 1100, 3000}).Draw(t, "mc"); i > 0; i-- {
					c.Cells = append(c.Cells, cellSpec{i % 6, strconv.FormatInt(int64(i), 4)})
				}
			}
			return c
		}, runCellExport)
}

// sameExport checks a GeoJSON export against the cells.
func sameExport(b []byte, cells []s2.CellID) error {
	fc, err := parseFC(b)
	if err != nil {
		return failf("the export is no feature collection: %v: %s", err, show(b))
	}
	if len(fc.Features) != len(cells) {
		return failf("the export has %d features for %d cells", len(fc.Features), len(cells))
	}
	for i, f := range fc.Features {
		sp := specOf(uint64(cells[i]))
		where := fmt.Sprintf("feature %d of cell %s", i, sp.str())
		if v := f.Properties["id"]; v != sp.token() {
			return failf("%s: id is %v, expected %q", where, v, sp.token())
		}
		if v := f.Properties["uid"]; v != strconv.FormatUint(uint64(cells[i]), 10) {
			return failf("%s: uid is %v, expected %d", where, v, uint64(cells[i]))
		}
		if v := f.Properties["str"]; v != sp.str() {
			return failf("%s: str is %v, expected %q", where, v, sp.str())
		}
		if v := f.Properties["level"]; v != float64(len(sp.Path)) {
			return failf("%s: level is %v, expected %d", where, v, len(sp.Path))
		}
		if f.Geometry == nil || f.Geometry.Type != "Polygon" {
			return failf("%s: not a polygon", where)
		}
		var p [][][]float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &p); err != nil {
			return failf("%s: %v", where, err)
		}
		if len(p) != 1 || len(p[0]) != 5 {
			return failf("%s: the polygon is not one ring of five positions: %v", where, p)
		}
		var v []r3.Vector
		for _, q := range p[0] {
			if len(q) != 2 || q[0] < -180 || q[0] > 180 || q[1] < -90 || q[1] > 90 {
				return failf("%s: %v is no longitude and latitude", where, q)
			}
			v = append(v, vecLL(q[1], q[0]))
		}
		if p[0][0][0] != p[0][4][0] || p[0][0][1] != p[0][4][1] {
			return failf("%s: the ring is not closed: %v", where, p[0])
		}
		corners := cellVerts(cells[i])
		ok := false
		for rot := 0; rot < 4 && !ok; rot++ {
			for _, dir := range []int{1, 3} {
				all := true
				for k := 0; k < 4; k++ {
					if v[k].Sub(corners[(rot+dir*k)%4]).Norm() > 1e-14 {
						all = false
					}
				}
				ok = ok || all
			}
		}
		if !ok {
			return failf("%s: %v are not its corners", where, p[0])
		}
	}
	return nil
}

func runCellExport(c *cellsCase, x *Ctx) error {
	cu := make(s2.CellUnion, 0, len(c.Cells))
	levels := map[int]bool{}
	special := false
	for _, s := range c.Cells {
		cu = append(cu, s2.CellID(s.id()))
		levels[len(s.Path)] = true
		special = special || s.Face%3 == 2 || len(s.Path) > 25
	}
	if len(levels) > 1 && special {
		x.NonTrivial()
	}
	keep := append(s2.CellUnion{}, cu...)
	b := s2tools.CellUnionToGeoJSON(cu)
	if !sameCells(cu, keep) {
		return failf("exporting changed the cells")
	}
	return sameExport(b, keep)
}

// ---------------------------------------------------------------- T04

type queryCase struct {
	Items  []string `json:"items"` // tokens, good or bad
	Esc    bool     `json:"esc"`   // separators and characters escaped
	Before string   `json:"before"`
	After  string   `json:"after"`
	Raw    *string  `json:"raw,omitempty"` // the whole query instead
	Post   bool     `json:"post,omitempty"`
}

func tokenOf(s string) (s2.CellID, bool) {
	if len(s) == 0 || len(s) > 16 {
		return 0, false
	}
	for _, r := range s {
		if !strings.ContainsRune("0123456789abcdefABCDEF", r) {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(s+strings.Repeat("0", 16-len(s)), 16, 64)
	if err != nil || !validCell(v) {
		return 0, false
	}
	return s2.CellID(v), true
}

func init() {
	register(Prop{ID: "T04", Quick: 320000, Thorough: 2560000,
		Rule: "queries with 0-8 tokens, invalid, empty, damaged, decimal and face/path ones among them, escaped or not, between other parameters, or entirely arbitrary query strings; a list of valid tokens must be answered with 200 and exactly those cells in order, anything else with a client error; non-trivial: a list of at least two items"},
		func(t *rapid.T) *queryCase {
			c := &queryCase{Esc: rapid.Bool().Draw(t, "esc"), Post: rapid.IntRange(0, 9).Draw(t, "post") == 0}
			bad := rapid.IntRange(0, 2).Draw(t, "bad") == 0
			for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
				s := genCellSpec(t)
				it := s.token()
				if rapid.IntRange(0, 9).Draw(t, "upper") == 0 {
					it = strings.ToUpper(it)
				}
				if bad && rapid.IntRange(0, 2).Draw(t, "badone") == 0 {
					switch rapid.IntRange(0, 5).Draw(t, "badkind") {
					case 0:
						it = ""
					case 1:
						it = s.str()
					case 2:
						it = strconv.FormatUint(s.id(), 10)
					case 3:
						it = fmt.Sprintf("%x", rapid.Uint64().Draw(t, "u"))
					case 4:
						it = it + rapid.SampledFrom([]string{" ", "g", "0000000000000000000", "%", "\x00", ";"}).Draw(t, "tail")
					default:
						it = rapid.StringOfN(rapid.SampledFrom(cellAlphabet), 0, 18, -1).Draw(t, "s")
					}
				}
				c.Items = append(c.Items, it)
			}
			if rare(t, "many", 2000) {
				for i := rapid.SampledFrom([]int{40, 130, 600, 2100}).Draw(t, "mi"); i > 0; i-- {
					s := cellSpec{i % 6, strconv.FormatInt(int64(i), 4)}
					c.Items = append(c.Items, s.token())
				}
			}
			c.Before = rapid.SampledFrom([]string{"", "", "a=b&", "cell=1&", "&", "a=%41&"}).Draw(t, "before")
			c.After = rapid.SampledFrom([]string{"", "", "&a=b", "&", "&cells2=x"}).Draw(t, "after")
			switch rapid.IntRange(0, 5).Draw(t, "raw") {
			case 0:
				s := rapid.StringOfN(rapid.SampledFrom([]rune("cells=,&%;0123456789abcdefX/+")), 0, 30, -1).Draw(t, "rawq")
				c.Raw = &s
			case 1:
				s := rapid.SampledFrom([]string{"", "cells", "cells=", "cells=,", "Cells=89c25", "cells=%", "cells=%zz", "cells=X", "=&=", "cells=%00"}).Draw(t, "rawq")
				c.Raw = &s
			}
			return c
		}, runCellsEndpoint)
}

func runCellsEndpoint(c *queryCase, x *Ctx) error {
	var q string
	if c.Raw != nil {
		q = *c.Raw
	} else {
		var items []string
		for _, it := range c.Items {
			items = append(items, url.QueryEscape(it))
		}
		sep := ","
		if c.Esc {
			sep = "%2C"
		}
		q = c.Before + "cells=" + strings.Join(items, sep) + c.After
	}
	method := "GET"
	if c.Post {
		method = "POST"
	}
	req := &http.Request{Method: method, URL: &url.URL{Path: "/api/s2cells", RawQuery: q}, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	w := httptest.NewRecorder()
	s2tools.S2CellQueryHandler(w, req)
	res := w.Result()
	body, _ := io.ReadAll(res.Body)

	var want []s2.CellID
	ok := true
	items := c.Items
	if c.Raw != nil {
		vals, _ := url.ParseQuery(q)
		if len(vals["cells"]) > 1 {
			// which of several lists counts is not said
			if res.StatusCode != 200 && (res.StatusCode < 400 || res.StatusCode > 499) {
				return failf("query %q is answered with status %d", q, res.StatusCode)
			}
			return nil
		}
		items = strings.Split(vals.Get("cells"), ",")
	} else {
		items = strings.Split(strings.Join(items, ","), ",")
	}
	for _, it := range items {
		id, valid := tokenOf(it)
		ok = ok && valid
		want = append(want, id)
	}
	if len(items) > 1 {
		x.NonTrivial()
	}
	if !ok {
		x.Label("to be refused")
		if res.StatusCode < 400 || res.StatusCode > 499 {
			return failf("query %q is answered with status %d instead of a client error: %s", q, res.StatusCode, show(body))
		}
		return nil
	}
	x.Label("to be answered")
	if res.StatusCode != 200 {
		return failf("query %q of %d valid tokens is answered with status %d: %s", q, len(items), res.StatusCode, show(body))
	}
	if err := isJSON(res); err != nil {
		return failf("query %q: %v", q, err)
	}
	return sameExport(body, want)
}

// isJSON checks that an answer is declared as the JSON document it holds.
func isJSON(res *http.Response) error {
	mt, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil || mt != "application/json" && mt != "application/geo+json" {
		return failf("the GeoJSON answer is declared as %q", res.Header.Get("Content-Type"))
	}
	return nil
}

// ---------------------------------------------------------------- T05

type bodyCase struct {
	C      coverCase `json:"c"`
	GJ     *GJ       `json:"gj,omitempty"` // holes, altitudes
	Props  []prop    `json:"props"`
	How    string    `json:"how"`
	Params [3]string `json:"params"`
	Seed   int64     `json:"seed"`
	Raw    B         `json:"raw"`
	Router bool      `json:"router"`
	Pretty bool      `json:"pretty"`
	// Big: bytes of padding (a large property, or spaces between the members)
	Big int `json:"big,omitempty"`
	// Piece: the body arrives in reads of this size (0: at once)
	Piece int `json:"piece,omitempty"`
}

var badParams = []string{"-1", "", "x", "1.5", "99999999999999999999", " 1", "0x2", "1e1", "-99999999999999999999"}
var badGeoms = []string{
	`{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`,
	`{"type":"MultiLineString","coordinates":[[[1,2],[3,4]]]}`,
	`{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,9],[1,2]]]]}`,
	`{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]}`,
	`null`, `{}`, `[]`, `3`, `"Point"`,
	`{"type":"Point","coordinates":[]}`, `{"type":"Point"}`, `{"type":"Point","coordinates":null}`, `{"type":"Point","coordinates":["1","2"]}`,
	`{"type":"Point","coordinates":[1]}`, `{"type":"Point","coordinates":[[1,2]]}`,
	`{"type":"LineString","coordinates":[]}`, `{"type":"LineString","coordinates":[[]]}`, `{"type":"LineString","coordinates":[[1,2],[3]]}`, `{"type":"LineString","coordinates":[[1],[2]]}`, `{"type":"LineString","coordinates":[1,2]}`,
	`{"type":"Polygon","coordinates":[]}`, `{"type":"Polygon","coordinates":[[]]}`, `{"type":"Polygon","coordinates":[[[1,2],[3,4]]]}`, `{"type":"Polygon","coordinates":[[[1,2],[1,2],[1,2],[1,2]]]}`, `{"type":"Polygon","coordinates":[[[1,2],[3,4],[1,2],[3,4]]]}`,
	`{"type":"Polygon","coordinates":[[[]]]}`, `{"type":"Polygon","coordinates":[null]}`, `{"type":"Polygon","coordinates":[[[1,2],[3,4],[5]]]}`, `{"type":"Polygon","coordinates":[[],[[1,2],[3,4],[5,9],[1,2]]]}`,
	`{"type":"Circle","coordinates":[1,2]}`, `{"type":"","coordinates":[1,2]}`, `{"coordinates":[1,2]}`, `{"type":"point","coordinates":[1,2]}`,
}
var badFeatures = []string{`null`, `{}`, `[]`, `3`, `"x"`, `{"type":"Feature"}`, `{"type":"Feature","geometry":null,"properties":{}}`, `{"type":"Feature","properties":{"a":1}}`}
var badBodies = []string{``, `null`, `{}`, `[]`, `3`, `"x"`, `{`, `{"type":"FeatureCollection"}`, `{"type":"FeatureCollection","features":null}`, `{"type":"FeatureCollection","features":[]}`, `{"type":"FeatureCollection","features":{}}`, `{"type":"Feature","geometry":{"type":"Point","coordinates":[1,2]},"properties":{}}`, `{"type":"Point","coordinates":[1,2]}`, "\xff\xfe", `{"features":[{]}`}

func init() {
	register(Prop{ID: "T05", Quick: 30000, Thorough: 600000,
		Rule: "a feature collection with one point, line or polygon (holes and altitudes included) at any place and size must be answered with exactly the cells of the cover of the geometry built directly; several or no features, unsupported or malformed geometries and properties, levels that are no number in 0..30, damaged JSON and arbitrary bytes must be answered with a client error (damaged ones that happen to stay valid with a well-formed collection), through the handler and through a router; non-trivial: an answer of two or more cells or a refusal of an otherwise valid request"},
		func(t *rapid.T) *bodyCase {
			c := &bodyCase{C: *genCover(t, []string{"point", "line", "polygon", "polygon"}, 11), Props: genProps(t, 3), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
			c.Router = rapid.Bool().Draw(t, "router")
			c.Pretty = rapid.Bool().Draw(t, "pretty")
			c.How = rapid.SampledFrom([]string{"ok", "ok", "ok", "gj", "gj", "many", "badgeom", "badfeature", "badprop", "badparam", "badbody", "multi", "damage", "damage", "raw", "minmax", "cutread"}).Draw(t, "how")
			if rare(t, "isbig", 150) {
				c.Big = rapid.SampledFrom([]int{5 << 10, 70 << 10, 1100 << 10, 5 << 20, 11 << 20}).Draw(t, "big")
			}
			if rapid.IntRange(0, 4).Draw(t, "pieces") == 0 {
				c.Piece = rapid.SampledFrom([]int{1, 7, 64, 500}).Draw(t, "piece")
			}
			if c.How == "gj" || c.How == "damage" {
				g := genGJ(t)
				c.GJ = &g
			}
			if c.GJ != nil || c.How == "raw" {
				c.C.Min = rapid.IntRange(0, 4).Draw(t, "min")
				c.C.Max = rapid.IntRange(c.C.Min, 30).Draw(t, "max")
				c.C.MC = rapid.IntRange(0, 60).Draw(t, "mc")
			}
			if c.How == "minmax" {
				c.C.Min, c.C.Max = rapid.IntRange(0, 4).Draw(t, "min"), 0
			}
			c.Params = [3]string{strconv.Itoa(c.C.Min), strconv.Itoa(c.C.Max), strconv.Itoa(c.C.MC)}
			if c.How == "badparam" {
				i := rapid.IntRange(0, 2).Draw(t, "which")
				c.Params[i] = rapid.SampledFrom(badParams).Draw(t, "badparam")
				if i < 2 && rapid.Bool().Draw(t, "deep") {
					c.Params[i] = rapid.SampledFrom([]string{"31", "32", "64", "1000", "2147483648", "4294967297", "9223372036854775807"}).Draw(t, "level")
				}
			}
			if c.How == "raw" {
				c.Raw = rapid.SliceOfN(rapid.SampledFrom([]byte(`{}[]",:0123456789.eE-+ntfaulsrype\`+"\x00\xff")), 0, 60).Draw(t, "raw")
			}
			return c
		}, runGeoJSONEndpoint)
}

func propsJSON(ps []prop) string {
	m := map[string]interface{}{}
	for _, p := range ps {
		m[p.Name] = p.V.plain()
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(harnessError{err})
	}
	return string(b)
}

func pairs(c []float64) string {
	var s []string
	for i := 0; i+1 < len(c); i += 2 {
		s = append(s, posJSON([]F{F(c[i]), F(c[i+1])}))
	}
	return strings.Join(s, ",")
}

func shapeJSON(s *Shape) string {
	switch s.Kind {
	case "point":
		return `{"type":"Point","coordinates":` + pairs(s.coords(0)) + `}`
	case "line":
		return `{"type":"LineString","coordinates":[` + pairs(s.coords(0)) + `]}`
	}
	return `{"type":"Polygon","coordinates":[[` + pairs(s.coords(0)) + `]]}`
}

// pieceReader delivers a text in pieces of n bytes, then err (or the end).
type pieceReader struct {
	s   string
	n   int
	err error
	// closed: as with a real request, nothing can be read afterwards
	closed bool
}

func (r *pieceReader) Close() error { r.closed = true; return nil }

func (r *pieceReader) Read(b []byte) (int, error) {
	if r.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if r.s == "" {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	if r.n > 0 && len(b) > r.n && len(r.s) < 1<<16 {
		b = b[:r.n]
	}
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}

func damage(b []byte, rng *rand.Rand) []byte {
	frag := []string{"null", "[]", "{}", "1e309", "1e300", "-1", "\"x\"", "true", "[", "]", "{", "}", ",", ":", "0", "e", ".", "\"", "\\u0000", "NaN", "[1]", "[1,2,3,4,5]"}
	for n := 1 + rng.Intn(3); n > 0 && len(b) > 0; n-- {
		i := rng.Intn(len(b))
		switch rng.Intn(6) {
		case 0: // cut
			b = b[:i]
		case 1: // drop a piece
			j := i + 1 + rng.Intn(12)
			if j > len(b) {
				j = len(b)
			}
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 2: // insert
			b = append(append(append([]byte{}, b[:i]...), frag[rng.Intn(len(frag))]...), b[i:]...)
		case 3: // replace a number or word
			j := i
			for j < len(b) && strings.IndexByte(",[]{}:", b[j]) < 0 {
				j++
			}
			k := i
			for k > 0 && strings.IndexByte(",[]{}:", b[k-1]) < 0 {
				k--
			}
			b = append(append(append([]byte{}, b[:k]...), frag[rng.Intn(len(frag))]...), b[j:]...)
		case 4: // repeat a piece
			j := i + rng.Intn(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		default:
			b = append([]byte{}, b...)
			b[i] ^= 1 << uint(rng.Intn(8))
		}
	}
	return b
}

func runGeoJSONEndpoint(c *bodyCase, x *Ctx) error {
	rng := rand.New(rand.NewSource(c.Seed))
	geometry := shapeJSON(&c.C.S)
	gd := c.C.S.geo()
	if c.GJ != nil {
		geometry = c.GJ.json()
		gd.Geometry.Type = c.GJ.gtype()
		gd.Geometry.Coordinates = c.GJ.xy()
	}
	props := propsJSON(c.Props)
	feature := `{"type":"Feature","geometry":` + geometry + `,"properties":` + props + `}`
	if c.Pretty {
		feature = `{ "properties": ` + props + ", \n \"id\": \"7\", \"geometry\":\t" + geometry + `, "type": "Feature" }`
	}
	pad := ""
	if c.Big > 0 {
		if pad = strings.Repeat(" ", c.Big); !c.Pretty {
			pad = `"pad":"` + strings.Repeat("x", c.Big) + `",`
		}
	}
	wrap := func(fs ...string) string {
		return `{` + pad + `"type":"FeatureCollection","features":[` + strings.Join(fs, ",") + `]}`
	}
	body := wrap(feature)
	expect := "ok" // ok, refuse, any
	switch c.How {
	case "many":
		body = wrap(feature, feature)
		expect = "refuse"
	case "badgeom":
		body = wrap(`{"type":"Feature","geometry":` + badGeoms[rng.Intn(len(badGeoms))] + `,"properties":` + props + `}`)
		expect = "refuse"
	case "badfeature":
		body = wrap(badFeatures[rng.Intn(len(badFeatures))])
		expect = "refuse"
	case "badprop":
		body = wrap(`{"type":"Feature","geometry":` + geometry + `,"properties":{"ok":1,"bad":` + []string{`[]`, `{}`, `[1]`, `{"a":1}`}[rng.Intn(4)] + `}}`)
		expect = "refuse"
	case "badparam":
		expect = "refuse"
	case "badbody":
		body = badBodies[rng.Intn(len(badBodies))]
		expect = "refuse"
	case "multi":
		body = wrap(`{"type":"Feature","geometry":{"type":"MultiPolygon","coordinates":[[[` + pairs(gd.Geometry.Coordinates) + `]]]},"properties":{}}`)
		expect = "refuse"
	case "damage":
		body = string(damage([]byte(body), rng))
		expect = "any"
	case "raw":
		body = string(c.Raw)
		expect = "any"
	case "minmax":
		expect = "any"
	case "cutread":
		expect = "refuse"
	}
	if c.GJ != nil {
		if expect == "ok" && c.GJ.Type == "Polygon" {
			// arbitrary vertices need not make a ring
			if _, err := gd.Cover(c.C.coverer()); err != nil {
				expect = "refuse"
			}
		}
	}
	x.Label(c.How)
	var h http.Handler = http.HandlerFunc(s2tools.GeoJSONToCellHandler)
	u := &url.URL{Path: "/api/geojson/" + strings.Join(c.Params[:], "/")}
	in := &pieceReader{s: body, n: c.Piece}
	if c.How == "cutread" {
		// the connection breaks before the end
		in.s, in.err = body[:rng.Intn(len(body))], errors.New("connection lost")
	}
	req := &http.Request{Method: "POST", URL: u, Header: http.Header{}, ContentLength: -1, Body: in, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: u.Path}
	if c.Router {
		r := mux.NewRouter()
		r.HandleFunc("/api/geojson/{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}", s2tools.GeoJSONToCellHandler).Methods("POST")
		h = r
	} else {
		req = mux.SetURLVars(req, map[string]string{"min_level": c.Params[0], "max_level": c.Params[1], "max_cells": c.Params[2]})
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	res := w.Result()
	got, _ := io.ReadAll(res.Body)
	refused := res.StatusCode >= 400 && res.StatusCode <= 499
	ask := fmt.Sprintf("request %s with body %s", u.Path, show([]byte(body)))
	if len(body) < 1500 {
		ask = fmt.Sprintf("request %s with body %s", u.Path, body)
	}
	if !refused && res.StatusCode != 200 && res.StatusCode != 301 {
		return failf("%s is answered with status %d: %s", ask, res.StatusCode, show(got))
	}
	switch expect {
	case "refuse":
		x.NonTrivial()
		if res.StatusCode == 200 {
			return failf("%s is answered with success instead of a client error: %s", ask, show(got))
		}
	case "any":
		if res.StatusCode == 200 {
			x.Label("answered")
			fc, err := parseFC(got)
			if err != nil || len(fc.Features) == 0 {
				return failf("%s is answered with success but no cells: %v %s", ask, err, show(got))
			}
		}
	default:
		if res.StatusCode != 200 {
			return failf("%s is answered with status %d: %s", ask, res.StatusCode, show(got))
		}
		want, err := gd.Cover(c.C.coverer())
		if err != nil {
			return failf("cover of the geometry of a %s: %v", ask, err)
		}
		fc, err := parseFC(got)
		if err != nil {
			return failf("%s: no feature collection in the answer: %v", ask, err)
		}
		if err := isJSON(res); err != nil {
			return failf("%s: %v", ask, err)
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		var cells []s2.CellID
		for _, f := range fc.Features {
			id, ok := tokenOf(fmt.Sprint(f.Properties["id"]))
			if !ok {
				return failf("%s: the answer holds %v, no cell", ask, f.Properties["id"])
			}
			cells = append(cells, id)
		}
		if err := sameExport(got, cells); err != nil {
			return err
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i] < cells[j] })
		if !sameCells(cells, want) {
			return failf("%s is answered with cells %v, its cover is %v", ask, cells, want)
		}
		if len(cells) > 1 {
			x.NonTrivial()
		}
	}
	return nil
}
