package geom

# what the library answers for the line through the vertices of c, and for the triangle through three points
logic lineMeetsAt(p addr, o int, l int, q addr, r int, m int, g Geometry) bool
logic triangleMeets(ax float64, ay float64, bx float64, by float64, cx float64, cy float64, g Geometry) bool
pred lineAt(c Coords, g Geometry) = lineMeetsAt(base(c.Pnts), off(c.Pnts), len(c.Pnts), base(c.Idxs), off(c.Idxs), len(c.Idxs), g)
pred ringPt(c Coords, k int) = c.Pnts[c.Idxs[k]]

func NewPolygon(coordinates) (p)
  trusted
  ensures fresh(p) && !isnil(p)
  ensures imp(len(coordinates) == 1 && len(coordinates[0].Idxs) == 4 && same(ringPt(coordinates[0], 3)[0], ringPt(coordinates[0], 0)[0]) && same(ringPt(coordinates[0], 3)[1], ringPt(coordinates[0], 0)[1]), all(g, Geometry, p.Intersects(g) == triangleMeets(ringPt(coordinates[0], 0)[0], ringPt(coordinates[0], 0)[1], ringPt(coordinates[0], 1)[0], ringPt(coordinates[0], 1)[1], ringPt(coordinates[0], 2)[0], ringPt(coordinates[0], 2)[1], g)))

package homotopy

property C08: homotopy.filterContext homotopy.isTriangleCollapsible homotopy.collapseVertex homotopy.Homotopy constrain.BySideRelation

pred geomOf(x *ctx.ContextGeometry) = x.Geom.Geometry()
pred lineMeetsCtx(c geom.Coords, x *ctx.ContextGeometry) = lineAt(c, geomOf(x))
pred segMeetsCtx(c geom.Coords, x *ctx.ContextGeometry) = seg(c, 0, len(c.Idxs)-1, geomOf(x))
pred metByNone(c geom.Coords, x *ctx.ContextGeometry) = !lineMeetsCtx(c, x) && !segMeetsCtx(c, x)
pred metByBoth(c geom.Coords, x *ctx.ContextGeometry) = lineMeetsCtx(c, x) && segMeetsCtx(c, x)
pred metByOne(c geom.Coords, x *ctx.ContextGeometry) = !iff(lineMeetsCtx(c, x), segMeetsCtx(c, x))

func filterContext(coordinates, contexts) (disjoint, exclude, xor)
  forkappend
  requires len(coordinates.Idxs) >= 2 && goodContexts(contexts)
  ensures fresh(disjoint) && fresh(exclude) && fresh(xor)
  ensures [C08] remaining are those met by neither: all(x, *ctx.ContextGeometry, iff(occurs(x, disjoint.DataView()), occurs(x, contexts.DataView()) && metByNone(coordinates, x)))
  ensures [C08] ignored are those met by both: all(x, *ctx.ContextGeometry, iff(occurs(x, exclude.DataView()), occurs(x, contexts.DataView()) && metByBoth(coordinates, x)))
  ensures [C08] invalid are those met by one: all(x, *ctx.ContextGeometry, iff(occurs(x, xor.DataView()), occurs(x, contexts.DataView()) && metByOne(coordinates, x)))
  ensures imp(len(disjoint.DataView()) > 0, let(v, disjoint.DataView()[0], occurs(v, contexts.DataView()) && metByNone(coordinates, v)))
  ensures imp(len(xor.DataView()) > 0, let(v, xor.DataView()[0], occurs(v, contexts.DataView()) && metByOne(coordinates, v)))
  inv (D ctx.ContextGeometries, I int) all(x, *ctx.ContextGeometry, iff(occurs(x, D.list), occurs(x, contexts.DataView()[:I+1]) && metByNone(coordinates, x)))
  inv (D ctx.ContextGeometries, I int) all(x, *ctx.ContextGeometry, iff(occurs(x, D.list), occurs(x, contexts.DataView()[:I+1]) && metByBoth(coordinates, x)))
  inv (D ctx.ContextGeometries, I int) all(x, *ctx.ContextGeometry, iff(occurs(x, D.list), occurs(x, contexts.DataView()[:I+1]) && metByOne(coordinates, x)))
  inv (D ctx.ContextGeometries) fresh(D.list) || cap(D.list) == 0
  inv (D ctx.ContextGeometries, E ctx.ContextGeometries) imp(cap(D.list) > 0, base(D.list) != base(E.list))

func isTriangleCollapsible(a, b, c, neighbours) (ok)
  requires !isnil(a) && !isnil(b) && !isnil(c)
  ensures [C08] collapses exactly if no context meets the triangle: iff(ok, forall(i, 0, len(neighbours), !triangleMeets(a[0], a[1], b[0], b[1], c[0], c[1], geomOf(as(neighbours[i], *ctx.ContextGeometry)))))
  inv (B bool, I int) iff(B, forall(i, 0, I, !triangleMeets(a[0], a[1], b[0], b[1], c[0], c[1], geomOf(as(neighbours[i], *ctx.ContextGeometry)))))

package rtree

# x is held by the index; what a search of it returns
logic held(t *RTree, x BoxObject) bool

func RTree.Search(tree, query) (res)
  trusted
  ensures all(x, BoxObject, iff(occurs(x, res), held(tree, x) && boxesMeet(query, *x.BBox())))

package homotopy

# the interval from a to a, extended to b and then to c
pred extLo(lo float64, x float64) = ite(x < lo, x, lo)
pred extHi(lo float64, hi float64, x float64) = ite(x < lo, hi, ite(x > hi, x, hi))
pred lo3(a float64, b float64, c float64) = extLo(extLo(a, b), c)
pred hi3(a float64, b float64, c float64) = extHi(extLo(a, b), extHi(a, a, b), c)
# the box around three points meets the box m
pred aroundMeets(a *geom.Point, b *geom.Point, c *geom.Point, m mbr.MBR) =
  !(m.MinX > hi3(a[0], b[0], c[0]) || m.MaxX < lo3(a[0], b[0], c[0]) || m.MinY > hi3(a[1], b[1], c[1]) || m.MaxY < lo3(a[1], b[1], c[1]))
pred inTriangle(a *geom.Point, b *geom.Point, c *geom.Point, x rtree.BoxObject) = triangleMeets(a[0], a[1], b[0], b[1], c[0], c[1], geomOf(as(x, *ctx.ContextGeometry)))

func collapseVertex(v, db) (ok)
  requires !isnil(v) && !isnil(db) && imp(!isnil(v.prev) && !isnil(v.next), !isnil(v.Point) && !isnil(v.prev.Point) && !isnil(v.next.Point))
  ensures [C08] ends stay: imp(isnil(v.prev) || isnil(v.next), !ok)
  ensures [C08] collapses exactly if no context near the triangle meets it: imp(!isnil(v.prev) && !isnil(v.next), iff(ok, all(x, rtree.BoxObject, imp(held(db, x) && aroundMeets(v.prev.Point, v.Point, v.next.Point, *x.BBox()), !inTriangle(v.prev.Point, v.Point, v.next.Point, x)))))

# the collapsing itself: its effects are confined to the chain it builds (bounded check)
func chainDeformation(coordinates, contexts) (ch)
  trusted
  ensures fresh(ch) && !isnil(ch) && !isnil(ch.link)

func Homotopy(coordinates, contexts) (ok)
  requires len(coordinates.Idxs) >= 2 && goodContexts(contexts)
  ensures [C08] a context met by only one makes it invalid: imp(ok, all(x, *ctx.ContextGeometry, imp(occurs(x, contexts.DataView()), iff(lineMeetsCtx(coordinates, x), segMeetsCtx(coordinates, x)))))
  ensures [C08] accepted without remaining contexts: imp(all(x, *ctx.ContextGeometry, imp(occurs(x, contexts.DataView()), metByBoth(coordinates, x))), ok)

package constrain

func BySideRelation(hull, cgs) (ok)
  requires piece(hull) && goodContexts(cgs)
  ensures [C08] a context met by only one makes it invalid: imp(ok, all(x, *ctx.ContextGeometry, imp(occurs(x, cgs.DataView()), iff(lineMeetsCtx(hull.Polyline.Coordinates, x), segMeetsCtx(hull.Polyline.Coordinates, x)))))
  ensures [C08] accepted without remaining contexts: imp(all(x, *ctx.ContextGeometry, imp(occurs(x, cgs.DataView()), metByBoth(hull.Polyline.Coordinates, x))), ok)
