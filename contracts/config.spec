package main

property C14: main.optsFromCfg dp.New constdp.NewConstDP constdp.ConstDP.ValidateContextRelation constdp.ConstDP.ValidateMerge

func optsFromCfg(obj) (o)
  ensures [C14] threshold: same(o.Threshold, obj.Threshold)
  ensures [C14] minimum distance: same(o.MinDist, obj.MinDist)
  ensures [C14] non planar displacement: same(o.NonPlanarDisplacement, obj.NonPlanarDisplacement)
  ensures [C14] planar self: o.PlanarSelf == obj.PlanarSelf
  ensures [C14] non planar self: o.NonPlanarSelf == obj.NonPlanarSelf
  ensures [C14] avoid new self intersections: o.AvoidNewSelfIntersects == obj.AvoidNewSelfIntersects
  ensures [C14] geometric relation: o.GeomRelation == obj.GeomRelation
  ensures [C14] distance relation: o.DistRelation == obj.DistRelation
  ensures [C14] side relation: o.DirRelation == obj.SideRelation

package hdb

# loading rewrites index nodes only (what is held afterwards is bounded under C12)
func Hdb.Load(tree, items) (t)
  trusted
  requires !isnil(tree)
  modifies tree.data
  modifies anyelem(hdb.dbNode)
  ensures t == tree

package dp

func New(id, pln, options, offsetScore, squareOffsetScore) (d)
  ensures [C14] fresh(d) && !isnil(d)
  ensures [C14] the given line, options and metric: d.id == id && d.Polyline == pln && d.Opts == options && d.Score == offsetScore && len(d.Hulls) == 0
  ensures [C14] squared metric only if given: ite(len(squareOffsetScore) > 0, d.SquareScore == squareOffsetScore[0], isnil(d.SquareScore))

package constdp

func NewConstDP(id, pln, constraints, options, offsetScore, squareOffsetScore) (d)
  modifies anyelem(hdb.dbNode)
  ensures [C14] fresh(d) && !isnil(d)
  ensures [C14] the given line, options and metric: d.DouglasPeucker.id == id && d.Polyline == pln && d.Opts == options && d.Score == offsetScore
  ensures [C14] squared metric only if given: ite(len(squareOffsetScore) > 0, d.SquareScore == squareOffsetScore[0], isnil(d.SquareScore))

package knn

# the context query finds x (its predicate and score functions are verified; the ordered search is bounded)
logic contextNear(db *hdb.Hdb, g geom.Geometry, dist float64, x *node.Node) bool

func ContextNeighbours(database, query, dist) (ns)
  trusted
  ensures fresh(ns) || cap(ns) == 0
  ensures all(x, *node.Node, iff(occurs(x, ns), contextNear(database, query, dist, x)))

package constdp

pred ctxOf(x *node.Node) = as(x.Geom, *ctx.ContextGeometry)
pred isNear(s *ConstDP, h *node.Node, x *node.Node) = contextNear(s.ContextDB, h.Geom, s.Opts.MinDist, x)
pred ctxGeom(x *node.Node) = ctxOf(x).Geom.Geometry()
pred contextsHeld(s *ConstDP, h *node.Node) = all(x, *node.Node, imp(isNear(s, h, x), !isnil(x) && typeis(x.Geom, *ctx.ContextGeometry) && !isnil(ctxOf(x)) && !isnil(ctxOf(x).Geom) && !isnil(ctxGeom(x)) && !typeis(ctxGeom(x), *geom.Segment)))
pred geomAccepts(s *ConstDP, h *node.Node) = all(x, *node.Node, imp(isNear(s, h, x), iff(replacementMeets(h, ctxGeom(x)), lineMeets(h, ctxGeom(x)))))
pred distAccepts(s *ConstDP, h *node.Node) = all(x, *node.Node, imp(isNear(s, h, x), replacementGap(h, ctxGeom(x)) >= s.Opts.MinDist || lineGap(h, ctxGeom(x)) < s.Opts.MinDist))

pred sideAccepts(s *ConstDP, h *node.Node) = all(x, *node.Node, imp(isNear(s, h, x), iff(lineMeetsCtx(h.Polyline.Coordinates, ctxOf(x)), segMeetsCtx(h.Polyline.Coordinates, ctxOf(x)))))

func ConstDP.ValidateContextRelation(self, hull, selections) (ok)
  requires !isnil(self) && !isnil(self.DouglasPeucker) && !isnil(self.Opts) && piece(hull) && !isnil(selections) && contextsHeld(self, hull)
  forkappend
  modifies *selections
  modifies elems(*selections, len(*selections), cap(*selections))
  ensures [C14] nothing enabled accepts: imp(!self.Opts.GeomRelation && !self.Opts.DistRelation && !self.Opts.DirRelation, ok)
  ensures [C14] an enabled geometric relation must accept: imp(ok && self.Opts.GeomRelation, geomAccepts(self, hull))
  ensures [C14] an enabled distance relation must accept: imp(ok && self.Opts.DistRelation, distAccepts(self, hull))
  ensures [C14] an enabled side relation must accept: imp(ok && self.Opts.DirRelation, sideAccepts(self, hull))
  ensures [C14] rejected only by an enabled relation: imp(!self.Opts.DirRelation && imp(self.Opts.GeomRelation, geomAccepts(self, hull)) && imp(self.Opts.DistRelation, distAccepts(self, hull)), ok)
  ensures [C14] selects the piece exactly if rejected: ite(ok, len(*selections) == old(len(*selections)), len(*selections) == old(len(*selections)) + 1 && (*selections)[len(*selections)-1] == hull)
  inv (n []*ctx.ContextGeometry, b []*node.Node, I int) forall(k, 0, I+1, n[k] == ctxOf(b[k]))
  inv (n []*ctx.ContextGeometry, b []*node.Node) forall(k, 0, len(b), isNear(self, hull, b[k]))

func ConstDP.ValidateMerge(self, hull, hulldb) (ok)
  requires !isnil(self) && !isnil(self.DouglasPeucker) && !isnil(self.Opts) && piece(hull) && contextsHeld(self, hull)
  requires imp(self.Opts.AvoidNewSelfIntersects, !isnil(hulldb) && hasHull(hull) && areal(hull) && !isnil(hull.Instance) && sound(hulldb) && pieces(hulldb) && oneLine(hulldb, hull))
  ensures [C14] an enabled geometric relation must accept: imp(ok && self.Opts.GeomRelation, geomAccepts(self, hull))
  ensures [C14] an enabled distance relation must accept: imp(ok && self.Opts.DistRelation, distAccepts(self, hull))
  ensures [C14] an enabled side relation must accept: imp(ok && self.Opts.DirRelation, sideAccepts(self, hull))
  ensures [C14] no conflict with the line's other pieces if those are to be avoided: imp(ok && self.Opts.AvoidNewSelfIntersects, all(x, *node.Node, !lnConflict(self.Opts, hulldb, hull, x)))
  ensures [C14] rejected only by what is enabled: imp(!self.Opts.AvoidNewSelfIntersects && !self.Opts.DirRelation && imp(self.Opts.GeomRelation, geomAccepts(self, hull)) && imp(self.Opts.DistRelation, distAccepts(self, hull)), ok)
