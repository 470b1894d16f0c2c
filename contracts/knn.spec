package knn

property C13: knn.NodeNeighbours knn.PredicateFn$1 knn.ScoreFn$1 node.Neighbours

pred lower(a float64, b float64) = ite(b < a, b, a)
pred upper(a float64, b float64) = ite(b > a, b, a)
# the box b, d larger on every side
pred reach(b mbr.MBR, d float64, o mbr.MBR) = !(o.MinX > upper(b.MinX - d, b.MaxX + d) || o.MaxX < lower(b.MinX - d, b.MaxX + d) || o.MinY > upper(b.MinY - d, b.MaxY + d) || o.MaxY < lower(b.MinY - d, b.MaxY + d))
pred near2(db *hdb.Hdb, hull *node.Node, x *node.Node, d float64) = under(&db.data, x) && reach(hull.Geom.Bounds(), d, x.MBR) && x.Id != hull.Id && x.Geom.Distance(hull.Geom) <= d

func NodeNeighbours(database, hull, dist) (ns)
  requires !isnil(database) && !isnil(hull) && !isnil(hull.Geom) && dist >= 0
  ensures fresh(ns) || cap(ns) == 0
  ensures [C13] never the piece itself: all(x, *node.Node, imp(occurs(x, ns), x.Id != hull.Id && x.Geom.Distance(hull.Geom) <= dist))
  ensures [C13] exactly the other pieces within reach: imp(old(sound(database)), all(x, *node.Node, iff(occurs(x, ns), near2(database, hull, x, dist))))
  inv (n []*node.Node, s []*node.Node) all(x, *node.Node, imp(occurs(x, n), occurs(x, s) && x.Id != hull.Id && x.Geom.Distance(hull.Geom) <= dist))
  inv (n []*node.Node, s []*node.Node, i int) forall(k, 0, i+1, imp(s[k].Id != hull.Id && s[k].Geom.Distance(hull.Geom) <= dist, occurs(s[k], n)))
  inv (n []*node.Node, s []*node.Node, i int) forall(k, 0, i, imp(s[k].Id != hull.Id && s[k].Geom.Distance(hull.Geom) <= dist, occurs(s[k], n)))
  inv (n []*node.Node, s []*node.Node) base(n) != base(s)
  inv (n []*node.Node) fresh(n) || cap(n) == 0

# the functions handed to the search
func PredicateFn$1(candidate, dist) (take, stop)
  requires !isnil(candidate)
  ensures [C13] takes candidates within the distance, stops at the first beyond: take == (candidate.Distance <= *dist) && stop == !(candidate.Distance <= *dist)

func ScoreFn$1(m, item, query) (d)
  requires !isnil(item) && !isnil(item.dbNode) && !isnil(query) && !isnil(*query)
  ensures [C13] a piece counts with its distance to the query: imp(!isnil(item.dbNode.item), same(d, (*query).Distance(item.dbNode.item.Geom.Geometry())))
