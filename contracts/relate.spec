package geom

# What the geometry library answers for the segment between vertices i and j of a point array
# (p, o, l name the array) and another geometry; its arithmetic is trusted.
logic segMeets(p addr, o int, l int, i int, j int, g Geometry) bool
logic segAway(p addr, o int, l int, i int, j int, g Geometry) float64
# ... and for two such segments
logic segsMeet(p addr, o int, l int, i int, j int, q addr, r int, m int, u int, v int) bool

pred seg(c Coords, i int, j int, g Geometry) = segMeets(base(c.Pnts), off(c.Pnts), len(c.Pnts), c.Idxs[i], c.Idxs[j], g)
pred segGap(c Coords, i int, j int, g Geometry) = segAway(base(c.Pnts), off(c.Pnts), len(c.Pnts), c.Idxs[i], c.Idxs[j], g)
pred segSeg(c Coords, i int, j int, d Coords, k int, m int) = segsMeet(base(c.Pnts), off(c.Pnts), len(c.Pnts), c.Idxs[i], c.Idxs[j], base(d.Pnts), off(d.Pnts), len(d.Pnts), d.Idxs[k], d.Idxs[m])

func Segment.Intersects(self, other) (b)
  trusted
  ensures imp(!typeis(other, *Segment), b == seg(self.Coords, 0, 1, other))
  ensures imp(typeis(other, *Segment), b == segSeg(self.Coords, 0, 1, as(other, *Segment).Coords, 0, 1))

func Segment.Distance(self, other) (d)
  trusted
  ensures same(d, segGap(self.Coords, 0, 1, other))

# the predicates of lines and polygons: answers of the library, not looked into
func LineString.Intersects(self, other) (b)
  opaque
func LineString.Distance(self, other) (d)
  opaque
func LineString.Intersection(self, other) (pts)
  opaque
func Polygon.Intersects(self, other) (b)
  opaque
func Polygon.Distance(self, other) (d)
  opaque
func Polygon.Intersection(self, other) (pts)
  opaque

package ctx

func ContextGeometries.Len(self) (n)
  inline

package relate

property C06: relate.IsGeomRelateValid constrain.ByGeometricRelation
property C07: relate.IsDistRelateValid constrain.ByMinDistRelation

# the replacement segment of a piece: from its first to its last vertex
pred replacementMeets(h *node.Node, g geom.Geometry) = seg(h.Polyline.Coordinates, 0, len(h.Polyline.Coordinates.Idxs)-1, g)
pred replacementGap(h *node.Node, g geom.Geometry) = segGap(h.Polyline.Coordinates, 0, len(h.Polyline.Coordinates.Idxs)-1, g)
pred lineMeets(h *node.Node, g geom.Geometry) = h.Polyline.Geometry().Intersects(g)
pred lineGap(h *node.Node, g geom.Geometry) = h.Polyline.Geometry().Distance(g)
pred nearby(c *ctx.ContextGeometries, i int) = c.DataView()[i].Geom.Geometry()
pred goodContexts(c *ctx.ContextGeometries) = !isnil(c) && forall(i, 0, len(c.DataView()), !isnil(c.DataView()[i]) && !isnil(c.DataView()[i].Geom) && !isnil(c.DataView()[i].Geom.Geometry()) && !typeis(c.DataView()[i].Geom.Geometry(), *geom.Segment))
pred piece(h *node.Node) = !isnil(h) && !isnil(h.Polyline) && len(h.Polyline.Coordinates.Idxs) >= 2

func IsGeomRelateValid(hull, contexts) (b)
  safe
  requires piece(hull) && goodContexts(contexts)
  ensures [C06] accepted exactly if every context is met by both or by neither: iff(b, forall(i, 0, len(contexts.DataView()), iff(replacementMeets(hull, nearby(contexts, i)), lineMeets(hull, nearby(contexts, i)))))
  inv (b bool, i int) iff(b, forall(k, 0, i, iff(replacementMeets(hull, nearby(contexts, k)), lineMeets(hull, nearby(contexts, k)))))
  inv (i int) forall(k, 0, i, iff(replacementMeets(hull, nearby(contexts, k)), lineMeets(hull, nearby(contexts, k))))
  inv (i int) forall(k, 0, i+1, iff(replacementMeets(hull, nearby(contexts, k)), lineMeets(hull, nearby(contexts, k))))

func IsDistRelateValid(options, hull, contexts) (b)
  safe
  requires !isnil(options) && piece(hull) && goodContexts(contexts)
  ensures [C07] accepted exactly if no context comes closer than the minimum distance that was not: iff(b, forall(i, 0, len(contexts.DataView()), replacementGap(hull, nearby(contexts, i)) >= options.MinDist || lineGap(hull, nearby(contexts, i)) < options.MinDist))
  inv (b bool, i int) iff(b, forall(k, 0, i, replacementGap(hull, nearby(contexts, k)) >= options.MinDist || lineGap(hull, nearby(contexts, k)) < options.MinDist))
  inv (i int) forall(k, 0, i, replacementGap(hull, nearby(contexts, k)) >= options.MinDist || lineGap(hull, nearby(contexts, k)) < options.MinDist)
  inv (i int) forall(k, 0, i+1, replacementGap(hull, nearby(contexts, k)) >= options.MinDist || lineGap(hull, nearby(contexts, k)) < options.MinDist)

package constrain

func ByGeometricRelation(hull, cg) (b)
  safe
  requires piece(hull) && goodContexts(cg)
  ensures [C06] accepted exactly if every context is met by both or by neither: iff(b, forall(i, 0, len(cg.DataView()), iff(replacementMeets(hull, nearby(cg, i)), lineMeets(hull, nearby(cg, i)))))

func ByMinDistRelation(options, hull, cg) (b)
  safe
  requires !isnil(options) && piece(hull) && goodContexts(cg)
  ensures [C07] accepted exactly if no context comes closer than the minimum distance that was not: iff(b, forall(i, 0, len(cg.DataView()), replacementGap(hull, nearby(cg, i)) >= options.MinDist || lineGap(hull, nearby(cg, i)) < options.MinDist))
