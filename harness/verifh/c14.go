package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/homotopy"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/split"
	"github.com/TopoSimplify/plugin/common"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func co(pts []geom.Point, d3 bool) [][]float64 {
	var o [][]float64
	for _, p := range pts {
		if d3 {
			o = append(o, []float64{p[0], p[1], p[2]})
		} else {
			o = append(o, []float64{p[0], p[1]})
		}
	}
	return o
}

func js(v interface{}) string {
	var b, e = json.Marshal(v)
	if e != nil {
		panic(e)
	}
	return string(b)
}

type M map[string]interface{}

func (s shape) geojson() M {
	var pts = co(s.pts, false)
	if len(pts) == 1 {
		return M{"type": "Point", "coordinates": pts[0]}
	}
	if s.ring {
		return M{"type": "Polygon", "coordinates": [][][]float64{append(pts, pts[0])}}
	}
	return M{"type": "LineString", "coordinates": pts}
}

var runCount int64

// runPlugin runs the real binary in a scratch directory; returns the output lines.
func runPlugin(c *Case, cfg M, input, cons string, b64 bool) (string, error) {
	var base = os.Getenv("VERIFH_TMP")
	var dir = filepath.Join(base, fmt.Sprintf("run%d", atomic.AddInt64(&runCount, 1)))
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var w = func(name, txt string) string {
		var p = filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(txt), 0644); err != nil {
			panic(err)
		}
		return p
	}
	cfg["input"] = w("in.json", input)
	cfg["output"] = filepath.Join(dir, "out.json")
	cfg["constraints"] = ""
	if cons != "" {
		cfg["constraints"] = w("cons.json", cons)
	}
	var args = []string{"-f", w("cfg.json", js(cfg)+"\n")}
	if b64 {
		args = []string{"-b", base64.StdEncoding.EncodeToString([]byte(js(cfg)))}
	}
	var out, err = exec.Command(os.Getenv("VERIFH_PLUGIN"), args...).CombinedOutput()
	if err != nil {
		return string(out), err
	}
	var dat, e = os.ReadFile(filepath.Join(dir, "out.json"))
	if e != nil {
		return string(out), e
	}
	return strings.TrimSpace(string(dat)), nil
}

// genFeature makes one input line of a GeoJSON file; parts is nil for non-linear features.
func genFeature(c *Case, k int) (txt string, parts [][]geom.Point, multi bool, props M, d3 bool) {
	d3 = c.Chance(0.5)
	var gen = func() []geom.Point {
		var p = genGrid(c, c.Size(2, 12), 7)
		if c.Chance(0.2) {
			for i := range p {
				p[i][2] = 0
			}
			if d3 && c.Chance(0.5) {
				p[len(p)-1][2] = 3
			}
		}
		return p
	}
	var g M
	var kind = c.Intn(8)
	switch {
	case kind < 4:
		parts = [][]geom.Point{gen()}
		g = M{"type": "LineString", "coordinates": co(parts[0], d3)}
	case kind < 6:
		var cs [][][]float64
		var m = 1 + c.Intn(3)
		if c.Chance(0.2) {
			m = 10 + c.Intn(5) // part numbers of two digits
		}
		for ; m > 0; m-- {
			var p = gen()
			parts = append(parts, p)
			cs = append(cs, co(p, d3))
		}
		multi = true
		g = M{"type": "MultiLineString", "coordinates": cs}
	default:
		g = genShape(c, 0, 8).geojson()
		if g["type"] == "LineString" {
			g = M{"type": "Point", "coordinates": []float64{1, 2}}
		}
	}
	if !d3 {
		for i := range parts {
			parts[i] = flat(parts[i])
		}
	}
	if c.Chance(0.35) {
		return js(g), parts, multi, nil, d3
	}
	props = M{"name": fmt.Sprintf("f%d", k), "n": float64(k), "flag": c.Chance(0.5)}
	if c.Chance(0.15) {
		props = M{}
	}
	if c.Chance(0.3) {
		props["nested"] = M{"a": []interface{}{1.0, "x<y&z", nil}}
	}
	return js(M{"type": "Feature", "properties": props, "geometry": g}), parts, multi, props, d3
}

func genCfg(c *Case, o *opts.Opts) (M, string) {
	var st = []string{"dp", "DP", "sed", " Sed "}[c.Intn(4)]
	var cfg = M{
		"simplification_type": st, "threshold": o.Threshold, "minimum_distance": o.MinDist,
		"non_planar_displacement": o.NonPlanarDisplacement, "is_feature_class": c.Chance(0.5),
		"planar_self": o.PlanarSelf, "non_planar_self": o.NonPlanarSelf, "avoid_new_self_intersects": o.AvoidNewSelfIntersects,
		"geometric_relation": o.GeomRelation, "distance_relation": o.DistRelation, "homotopy_relation": o.DirRelation,
	}
	for k, v := range cfg {
		if v == false && c.Chance(0.5) {
			delete(cfg, k)
		}
	}
	return cfg, strings.ToLower(strings.TrimSpace(st))
}

// expected simplifies parsed lines in process with the documented meaning of every option.
func expected(lines [][]geom.Point, sh []shape, o *opts.Opts, st string, fc bool) [][]geom.Point {
	var fn = lnr.ScoreFn(offset.MaxOffset)
	if st == "sed" {
		fn = offset.MaxSEDOffset
	}
	var id = iter.NewIgen()
	var selfs []*constdp.ConstDP
	for _, l := range lines {
		selfs = append(selfs, constdp.NewConstDP(id.Next(), polyline(l), shapeGeoms(sh), o, fn))
	}
	if fc {
		constdp.SimplifyFeatureClass(id, selfs, o)
	} else {
		for _, s := range selfs {
			s.Simplify(id)
		}
	}
	var out [][]geom.Point
	for i, s := range selfs {
		var p []geom.Point
		for _, v := range simple(s) {
			p = append(p, lines[i][v])
		}
		out = append(out, p)
	}
	return out
}

type feat struct {
	Type       string                 `json:"type"`
	Properties map[string]interface{} `json:"properties"`
	Geometry   struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
}

func init() {
	reg("C14", "plugin-options", "the plugin binary with a random JSON configuration (file or base64, omitted fields) on random lines and constraints; the output against an in-process run with the documented options; non-trivial: at least two options on", func(c *Case) {
		var o = genOpts(c)
		var cfg, st = genCfg(c, o)
		var n = 1 + c.Intn(3)
		var lines [][]geom.Point
		var txt []string
		for i := 0; i < n; i++ {
			var p = genGrid(c, c.Size(2, 14), 7)
			lines = append(lines, p)
			txt = append(txt, js(M{"type": "LineString", "coordinates": co(p, true)}))
		}
		var sh = genShapes(c, c.Intn(5), -1, 8)
		var ct []string
		for _, s := range sh {
			ct = append(ct, js(s.geojson()))
		}
		var b64 = c.Chance(0.5)
		c.In("config %s base64 %v input %s constraints %s", js(cfg), b64, strings.Join(txt, " "), strings.Join(ct, " "))
		var out, err = runPlugin(c, cfg, strings.Join(txt, "\n"), strings.Join(ct, "\n"), b64)
		if err != nil {
			c.Fail("plugin fails: %v %s", err, tail(out))
			return
		}
		var fc, _ = cfg["is_feature_class"].(bool)
		var want = expected(lines, sh, o, st, fc)
		var got = strings.Split(out, "\n")
		if len(got) != n {
			c.Fail("%d output lines for %d lines", len(got), n)
			return
		}
		for i := range got {
			var f feat
			if e := json.Unmarshal([]byte(got[i]), &f); e != nil {
				c.Fail("output line %d: %v", i, e)
				return
			}
			if string(f.Geometry.Coordinates) != js(co(want[i], true)) {
				c.Fail("line %d: plugin %s, expected %s", i, f.Geometry.Coordinates, js(co(want[i], true)))
			}
		}
	})
	reg("C14", "plugin-type", "unknown simplification types are refused without output", func(c *Case) {
		var st = []string{"", "dps", "d p", "sedx", "vw", "none", "d", "s", "euclid"}[c.Intn(9)]
		c.In("type %q", st)
		var _, err = runPlugin(c, M{"simplification_type": st, "threshold": 1.0}, `{"type":"LineString","coordinates":[[0,0],[1,0],[2,0]]}`, "", c.Chance(0.5))
		if err == nil {
			c.Fail("simplification type %q is accepted", st)
		}
	})
	reg("C14", "context-verdict", "ConstDP.ValidateContextRelation with every combination of options: accepted exactly if every enabled constraint accepts; non-trivial: a context in reach", func(c *Case) {
		var pts = genGrid(c, c.Size(3, 9), 6)
		var o = genOpts(c)
		var sh = genShapes(c, 1+c.Intn(4), -1, 7)
		var _, sc = genScore(c)
		var cdp = newDP(1, pts, sh, o, sc)
		var id = iter.NewIgen()
		var n = len(pts)
		var i = c.Intn(n - 1)
		var j = i + 1 + c.Intn(n-1-i)
		var in = &inst{id: 1}
		var hull = piece(id, cdp.Polyline, i, j, in)
		c.In("piece %d-%d of %s contexts %s opts %s", i, j, ptsStr(pts), shapesStr(sh), optStr(o))
		var sel []*node.Node
		var got = cdp.ValidateContextRelation(&hull, &sel)
		var list []*ctx.ContextGeometry
		for _, nb := range knn.ContextNeighbours(cdp.ContextDB, hull.Geom, o.MinDist) {
			list = append(list, nb.Geom.(*ctx.ContextGeometry))
		}
		var cgs = ctx.NewContexts(list...)
		var want = true
		if o.GeomRelation && !relate.IsGeomRelateValid(&hull, cgs) {
			want = false
		}
		if o.DistRelation && !relate.IsDistRelateValid(o, &hull, cgs) {
			want = false
		}
		if o.DirRelation && !homotopy.Homotopy(hull.Coordinates(), cgs) {
			want = false
		}
		if got != want {
			c.Fail("verdict %v, want %v", got, want)
		}
		if got && len(sel) != 0 || !got && (len(sel) != 1 || sel[0] != &hull) {
			c.Fail("verdict %v with %d selected pieces", got, len(sel))
		}
		if len(list) == 0 {
			c.Trivial()
		}
	})

	reg("C15", "plugin-features", "a GeoJSON file mixing lines, multi-lines and other features, with or without properties, in 2 and 3 dimensions, through the plugin binary; non-trivial: at least two linear features", func(c *Case) {
		var o = genOpts(c)
		var cfg, st = genCfg(c, o)
		var n = 1 + c.Intn(6)
		if c.Chance(0.08) {
			n = 10 + c.Intn(6)
		}
		type item struct {
			parts [][]geom.Point
			multi bool
			props M
			d3    bool
			at    int
		}
		var items []item
		var txt []string
		var lines [][]geom.Point
		var coll []string
		for i := 0; i < n; i++ {
			var t, parts, multi, props, d3 = genFeature(c, i)
			if c.Chance(0.06) {
				txt = append(txt, `{"type":"Feature","properties":{},"geometry":null}`)
			}
			if props != nil && c.Chance(0.25) {
				coll = append(coll, t)
				if c.Chance(0.5) {
					txt = append(txt, `{"type":"FeatureCollection","features":[`+strings.Join(coll, ",")+`]}`)
					coll = nil
				}
			} else {
				if coll != nil {
					txt = append(txt, `{"type":"FeatureCollection","features":[`+strings.Join(coll, ",")+`]}`)
					coll = nil
				}
				txt = append(txt, t)
			}
			if c.Chance(0.1) && len(txt) > 0 {
				txt[len(txt)-1] += "\n"
			}
			if parts != nil {
				items = append(items, item{parts, multi, props, d3, len(lines)})
				lines = append(lines, parts...)
			}
		}
		if coll != nil {
			txt = append(txt, `{"type":"FeatureCollection","features":[`+strings.Join(coll, ",")+`]}`)
		}
		var sh = genShapes(c, c.Intn(3), -1, 8)
		var ct []string
		for _, s := range sh {
			ct = append(ct, js(s.geojson()))
		}
		c.In("config %s input %s constraints %s", js(cfg), strings.Join(txt, " "), strings.Join(ct, " "))
		if len(items) == 0 {
			c.Trivial()
			return
		}
		var out, err = runPlugin(c, cfg, strings.Join(txt, "\n"), strings.Join(ct, "\n"), c.Chance(0.5))
		if err != nil {
			c.Fail("plugin fails: %v %s", err, tail(out))
			return
		}
		var fc, _ = cfg["is_feature_class"].(bool)
		var want = expected(lines, sh, o, st, fc)
		var got = strings.Split(out, "\n")
		if len(got) != len(items) {
			c.Fail("%d output features for %d linear features: %s", len(got), len(items), out)
			return
		}
		for k, it := range items {
			var f feat
			if e := json.Unmarshal([]byte(got[k]), &f); e != nil {
				c.Fail("feature %d: %v", k, e)
				return
			}
			if f.Type != "Feature" || f.Properties == nil {
				c.Fail("feature %d is %s", k, got[k])
			}
			var pw = it.props
			if pw == nil {
				pw = M{}
			}
			if js(f.Properties) != js(pw) {
				c.Fail("feature %d has properties %s, want %s", k, js(f.Properties), js(pw))
			}
			var ws []string
			for q := range it.parts {
				var w = want[it.at+q]
				var d3 = false
				if it.d3 {
					for _, p := range w {
						d3 = d3 || p[2] != 0
					}
				}
				ws = append(ws, js(co(w, d3)))
			}
			var wt, wc = "LineString", ws[0]
			if it.multi && len(it.parts) > 1 {
				wt, wc = "MultiLineString", "["+strings.Join(ws, ",")+"]"
			}
			if f.Geometry.Type != wt || string(f.Geometry.Coordinates) != wc {
				c.Fail("feature %d: got %s %s, want %s %s", k, f.Geometry.Type, f.Geometry.Coordinates, wt, wc)
			}
		}
		if len(items) < 2 {
			c.Trivial()
		}
	})

	reg("C16", "instances", "2-40 independent lines through SimplifyInstances on all cores against one by one; non-trivial: some line simplified", func(c *Case) {
		var nl = 2 + c.Intn(c.Size(2, 38))
		var o = genOpts(c)
		var nm, sc = genScore(c)
		var sh = genShapes(c, c.Intn(3), 0, 8)
		c.In("opts %s metric %s contexts %s", optStr(o), nm, shapesStr(sh))
		var par, one []*constdp.ConstDP
		var junc = map[int][]int{}
		var lines [][]geom.Point
		for l := 0; l < nl; l++ {
			var pts = genPts(c, c.Size(2, 12))
			c.In("line%d %s", l, ptsStr(pts))
			lines = append(lines, pts)
			par = append(par, newDP(100+l, pts, sh, o, sc))
			one = append(one, newDP(100+l, pts, sh, o, sc))
			if c.Chance(0.5) {
				junc[100+l] = uniqSorted([]int{c.Intn(len(pts)), c.Intn(len(pts))})
			}
		}
		c.In("protected %v", junc)
		constdp.SimplifyInstances(iter.NewIgen(), par, junc)
		for l := range one {
			one[l].Simplify(iter.NewIgen(), junc[100+l])
			var a, b = simple(par[l]), simple(one[l])
			if !eqInts(a, b) {
				c.Fail("line %d: parallel %v, alone %v", l, a, b)
			}
			checkLine(c, fmt.Sprintf("line %d", l), par[l], lines[l])
			if !par[l].State().IsClean() {
				c.Fail("line %d is not marked as simplified", l)
			}
		}
	})
	reg("C16", "instances-shared", "the same lines simplified together by several goroutines calling SimplifyInstances on disjoint sets", func(c *Case) {
		var o = genOpts(c)
		var nm, sc = genScore(c)
		c.In("opts %s metric %s", optStr(o), nm)
		var id = iter.NewIgen()
		var wg sync.WaitGroup
		var sets [4][]*constdp.ConstDP
		var lines [4][][]geom.Point
		for s := range sets {
			for l := 0; l < 6; l++ {
				var pts = genPts(c, c.Size(2, 10))
				lines[s] = append(lines[s], pts)
				sets[s] = append(sets[s], newDP(10*s+l, pts, nil, o, sc))
			}
		}
		for s := range sets {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				constdp.SimplifyInstances(id, sets[s], map[int][]int{})
			}(s)
		}
		wg.Wait()
		for s := range sets {
			for l := range sets[s] {
				var a = newDP(1, lines[s][l], nil, o, sc)
				a.Simplify(iter.NewIgen())
				if !eqInts(simple(a), simple(sets[s][l])) {
					c.Fail("set %d line %d (%s): together %v, alone %v", s, l, ptsStr(lines[s][l]), simple(sets[s][l]), simple(a))
				}
			}
		}
	})

	reg("C17", "one-line", "a line with contexts all around: the refinement ends, and splits of every piece are proper; non-trivial: the constraint forces refinement", func(c *Case) {
		var n = c.Size(3, 24)
		var pts = genPts(c, n)
		if c.Chance(0.3) {
			pts = flat(pts)
		}
		var o = genOpts(c)
		o.Threshold = 50
		o.GeomRelation, o.DistRelation = true, true
		o.MinDist = 3
		var sh = genShapes(c, 2+c.Intn(6), 0, 14)
		var nm, sc = genScore(c)
		c.In("line %s contexts %s opts %s metric %s", ptsStr(pts), shapesStr(sh), optStr(o), nm)
		var cdp = newDP(3, pts, sh, o, sc)
		cdp.Simplify(iter.NewIgen())
		checkLine(c, "Simplify", cdp, pts)
		if len(cdp.Hulls) < 2 {
			c.Trivial()
		}
		var id = iter.NewIgen()
		var hull = node.CreateNode(id, cdp.Polyline.SubCoordinates(cdp.Polyline.Range()), cdp.Polyline.Range(), common.Geometry, cdp)
		var db = hdb.NewHdb().Load([]node.Node{hull})
		var ha, hb = split.AtScoreSelection(id, &hull, sc[len(sc)-1], common.Geometry)
		if ha.Range.J != hb.Range.I || ha.Range.I != 0 || hb.Range.J != n-1 || ha.Range.Size() < 1 || hb.Range.Size() < 1 {
			c.Fail("split of 0-%d into %v and %v", n-1, ha.Range, hb.Range)
		}
		_ = db
	})
	_ = sort.Ints
	_ = geometry.TypePoint
}

func tail(s string) string {
	if len(s) > 500 {
		s = s[len(s)-500:]
	}
	return s
}
