package geometry

property C15: geometry.geoJsonLineString geometry.createPolylineGeoms geometry.parseInputLinearFeatures

logic featId(i int, p int) string
logic idIndex(id string) int
logic idPos(id string) int

func composeId(index, pos) (id)
  trusted
  ensures id == featId(index, pos)

func geoJsonLineString(index, g, meta) (r)
  safe
  requires !isnil(g)
  ensures [C15] a line is one part: imp(g.Type == "LineString", len(r) == 1 && r[0].Id == featId(index, 0) && same(r[0].Coordinates, g.LineString) && r[0].Meta == meta)
  ensures [C15] one part per line: imp(g.Type == "MultiLineString", len(r) == len(g.MultiLineString))
  ensures [C15] parts in order: imp(g.Type == "MultiLineString", forall(i, 0, len(r), r[i].Id == featId(index, i) && same(r[i].Coordinates, g.MultiLineString[i]) && r[i].Meta == meta))
  ensures [C15] other geometries have no part: imp(g.Type != "LineString" && g.Type != "MultiLineString", len(r) == 0)
  ensures fresh(r)
  inv (objs []JSONLineString, I int) len(objs) == I+1
  inv (objs []JSONLineString, I int) forall(i, 0, len(objs), objs[i].Id == featId(index, i) && same(objs[i].Coordinates, g.MultiLineString[i]) && objs[i].Meta == meta)
  inv (objs []JSONLineString) fresh(objs)

func json.Marshal(v) (b, err)
  trusted

pred isLine(f *geojson.Feature) = f.Geometry.Type == "LineString"
pred isLines(f *geojson.Feature) = f.Geometry.Type == "MultiLineString"

func createPolylineGeoms(idx, feat) (r)
  maypanic
  ensures [C15] a feature without geometry has no part: imp(isnil(feat.Geometry), len(r) == 0)
  ensures [C15] a line is one part: imp(!isnil(feat.Geometry) && isLine(feat), len(r) == 1)
  ensures [C15] one part per line: imp(!isnil(feat.Geometry) && isLines(feat), len(r) == len(feat.Geometry.MultiLineString))
  ensures [C15] other geometries have no part: imp(!isnil(feat.Geometry) && !isLine(feat) && !isLines(feat), len(r) == 0)
  ensures [C15] parts in order: forall(i, 0, len(r), !isnil(r[i]) && fresh(r[i]) && r[i].Id == featId(idx, i))
  ensures fresh(r)
  inv (r []*Polyline, I int) len(r) == I+1
  inv (r []*Polyline) fresh(r)
  inv (r []*Polyline) forall(i, 0, len(r), !isnil(r[i]) && fresh(r[i]) && r[i].Id == featId(idx, i))

func geom.AsCoordinates(array) (c)
  trusted
  ensures fresh(c.Idxs) && fresh(c.Pnts)
  ensures len(c.Idxs) == len(array) && len(c.Pnts) == len(array)

func json.Unmarshal(data, v) (err)
  trusted
  modifies anyfield(geometry.JSONType, Type)

func geojson.UnmarshalGeometry(data) (g, err)
  trusted
  ensures imp(isnil(err), !isnil(g))

func geojson.UnmarshalFeature(data) (f, err)
  trusted

func geojson.UnmarshalFeatureCollection(data) (c, err)
  trusted

# the index and part number written into an id are read back (fmt and regexp are the library's)
axiom readBack: all(i, int, all(p, int, imp(0 <= i && 0 <= p, idIndex(featId(i, p)) == i && idPos(featId(i, p)) == p)))

pred ascending(r []*Polyline, i int) = idIndex(r[i-1].Id) < idIndex(r[i].Id) || (idIndex(r[i-1].Id) == idIndex(r[i].Id) && idPos(r[i-1].Id) < idPos(r[i].Id))

func parseInputLinearFeatures(inputs) (r)
  maypanic
  modifies anyfield(geometry.JSONType, Type)
  ensures [C15] features are numbered apart, in input order: forall(i, 1, len(r), ascending(r, i))
  inv (r []*Polyline) fresh(r)
  inv (r []*Polyline) forall(i, 0, len(r), !isnil(r[i]))
  inv (k int) k >= 0
  inv (r []*Polyline, k int) forall(i, 0, len(r), idIndex(r[i].Id) < k)
  inv (r []*Polyline) forall(i, 1, len(r), ascending(r, i))

func geojson.Geometry.IsLineString(g) (r)
  inline

func geojson.Geometry.IsMultiLineString(g) (r)
  inline

package main

property C15: main.isCoords3D main.extractCoords main.groupById main.indices

pred solid(p geom.Point) = !math.FloatEqual(p[2], 0.0)

func isCoords3D(coords) (r)
  safe
  ensures [C15] three dimensions exactly if some vertex has a third coordinate: iff(r, exists(i, 0, len(coords), solid(coords[i])))
  inv (I int) forall(i, 0, I+1, !solid(coords[i]))

func extractCoords(coords) (r)
  safe
  ensures [C15] every vertex: len(r) == len(coords)
  ensures [C15] in order: forall(i, 0, len(r), same(r[i][0], coords[i][0]) && same(r[i][1], coords[i][1]))
  ensures [C15] flat: imp(!exists(i, 0, len(coords), solid(coords[i])), forall(i, 0, len(r), len(r[i]) == 2))
  ensures [C15] with height: imp(exists(i, 0, len(coords), solid(coords[i])), forall(i, 0, len(r), len(r[i]) == 3 && same(r[i][2], coords[i][2])))
  inv (c [][]float64, I int) len(c) == I+1
  inv (c [][]float64) fresh(c)
  inv (c [][]float64) forall(i, 0, len(c), fresh(c[i]))
  inv (c [][]float64, I int) forall(i, 0, len(c), born(c[i]) < now())
  inv (c [][]float64, p *geom.Point) forall(i, 0, len(c), born(p) < born(c[i]))
  inv (c [][]float64) forall(i, 0, len(c), same(c[i][0], coords[i][0]) && same(c[i][1], coords[i][1]))
  inv (c [][]float64, b bool) forall(i, 0, len(c), len(c[i]) == ite(b, 3, 2))
  inv (c [][]float64, b bool) forall(i, 0, len(c), imp(b, same(c[i][2], coords[i][2])))


func indexPos(id) (i, p)
  trusted
  ensures i == idIndex(id) && p == idPos(id)

func groupById(plns) (m)
  ensures [C15] every part is in the group of its feature: forall(i, 0, len(plns), has(m, idIndex(old(plns[i].Id))) && any(g, at(m, idIndex(old(plns[i].Id))), g.geom == plns[i] && g.pos == idPos(old(plns[i].Id))))
  ensures [C15] a group holds parts of its feature: all(k, int, imp(has(m, k), len(at(m, k)) > 0 && every(g, at(m, k), occurs(g.geom, plns) && idIndex(g.geom.Id) == k && g.pos == idPos(g.geom.Id))))
  inv (m map[int][]PolyGeom) all(k, int, imp(has(m, k), len(at(m, k)) > 0 && fresh(at(m, k))))
  inv (m map[int][]PolyGeom) all(k, int, all(l, int, imp(has(m, k) && has(m, l) && k != l, base(at(m, k)) != base(at(m, l)))))
  inv (m map[int][]PolyGeom, I int) forall(i, 0, I+1, has(m, idIndex(old(plns[i].Id))) && any(g, at(m, idIndex(old(plns[i].Id))), g.geom == plns[i] && g.pos == idPos(old(plns[i].Id))))
  inv (m map[int][]PolyGeom) all(k, int, imp(has(m, k), every(g, at(m, k), occurs(g.geom, plns) && idIndex(g.geom.Id) == k && g.pos == idPos(g.geom.Id))))

func indices(dict) (r)
  safe
  ensures [C15] ascending: all(i, int, all(j, int, imp(0 <= i && i < j && j < len(r), r[i] <= r[j])))

package geom

func Coords.Clone(s) (c)
  trusted
  ensures fresh(c.Idxs) && fresh(c.Pnts)
  ensures len(c.Idxs) == len(s.Idxs) && len(c.Pnts) == len(s.Pnts)
  ensures forall(i, 0, len(c.Pnts), same(c.Pnts[i], s.Pnts[i]))

package main

property C15: main.setSimpleCoords
property C01: main.setSimpleCoords

pred holdsInts(s *sset.SSet) = forall(i, 0, valueCount(s), typeis(valueAt(s, i), int))

func setSimpleCoords(forest)
  safe
  requires forall(t, 0, len(forest), !isnil(forest[t]) && !isnil(forest[t].DouglasPeucker) && !isnil(forest[t].Polyline) && !isnil(forest[t].Polyline.LineString) && !isnil(forest[t].SimpleSet) && holdsInts(forest[t].SimpleSet))
  requires forall(t, 0, len(forest), forall(u, 0, len(forest), imp(t != u, forest[t].Polyline != forest[u].Polyline)))
  modifies anyfield(geometry.Polyline, Simple)
  ensures [C15,C01] the retained vertices are written in order: forall(t, 0, len(forest), len(forest[t].Polyline.Simple.Idxs) == valueCount(forest[t].SimpleSet) && forall(i, 0, len(forest[t].Polyline.Simple.Idxs), forest[t].Polyline.Simple.Idxs[i] == as(valueAt(forest[t].SimpleSet, i), int)))
  ensures [C15,C01] coordinates are unchanged: forall(t, 0, len(forest), len(forest[t].Polyline.Simple.Pnts) == len(forest[t].Polyline.Coordinates.Pnts) && forall(i, 0, len(forest[t].Polyline.Simple.Pnts), same(forest[t].Polyline.Simple.Pnts[i], forest[t].Polyline.Coordinates.Pnts[i])))
  inv (c *geom.Coords, I int, v []interface{}) len(c.Idxs) == I+1 && fresh(c.Idxs)
  inv (c *geom.Coords, I int, v []interface{}) forall(i, 0, I+1, c.Idxs[i] == as(v[i], int))
  inv (c *geom.Coords, I int, v []interface{}, t *constdp.ConstDP) forall(i, 0, len(c.Pnts), same(c.Pnts[i], t.Polyline.Coordinates.Pnts[i])) && fresh(c.Pnts) && len(c.Pnts) == len(t.Polyline.Coordinates.Pnts)
  inv (I int) forall(t, 0, I+1, fresh(forest[t].Polyline.Simple.Idxs) && fresh(forest[t].Polyline.Simple.Pnts))
  inv (I int) forall(t, 0, I+1, born(forest[t].Polyline.Simple.Idxs) < now() && born(forest[t].Polyline.Simple.Pnts) < now())
  inv (I int) forall(t, 0, I+1, len(forest[t].Polyline.Simple.Idxs) == valueCount(forest[t].SimpleSet))
  inv (I int) forall(t, 0, I+1, forall(i, 0, len(forest[t].Polyline.Simple.Idxs), forest[t].Polyline.Simple.Idxs[i] == as(valueAt(forest[t].SimpleSet, i), int)))
  inv (I int) forall(t, 0, I+1, len(forest[t].Polyline.Simple.Pnts) == len(forest[t].Polyline.Coordinates.Pnts) && forall(i, 0, len(forest[t].Polyline.Simple.Pnts), same(forest[t].Polyline.Simple.Pnts[i], forest[t].Polyline.Coordinates.Pnts[i])))
  inv (c *geom.Coords, k int, I int, v []interface{}) forall(t, 0, k+1, base(forest[t].Polyline.Simple.Idxs) != base(c.Idxs))
  inv (c *geom.Coords, k int, I int, v []interface{}) forall(t, 0, k+1, forall(i, 0, len(forest[t].Polyline.Simple.Idxs), forest[t].Polyline.Simple.Idxs[i] == as(valueAt(forest[t].SimpleSet, i), int)))
