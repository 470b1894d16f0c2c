package merge

property C05: merge.Range merge.ContiguousCoordinates merge.ContiguousFragmentsAtThreshold

func sort.Ints(a)
  trusted
  modifies elems(a)
  ensures all(i, int, all(j, int, imp(0 <= i && i < j && j < len(a), a[i] <= a[j])))
  ensures forall(i, 0, len(a), a[0] <= old(a[i]) && old(a[i]) <= a[len(a)-1])
  ensures imp(len(a) > 0, let(v, a[0], old(occurs(v, a))) && let(v, a[len(a)-1], old(occurs(v, a))))

pred low(a int, b int) = ite(a <= b, a, b)
pred high(a int, b int) = ite(a >= b, a, b)

func Range(ra, rb) (r)
  safe
  ensures [C05] spans exactly both ranges: r.I == low(low(ra.I, ra.J), low(rb.I, rb.J)) && r.J == high(high(ra.I, ra.J), high(rb.I, rb.J))

# the piece that ends where the other starts comes first
pred firstPiece(a *node.Node, b *node.Node) = ite(a.Range.J == b.Range.I, a, b)
pred secondPiece(a *node.Node, b *node.Node) = ite(a.Range.J == b.Range.I, b, a)
pred touching(a *node.Node, b *node.Node) = a.Range.J == b.Range.I || b.Range.J == a.Range.I
pred joins(c geom.Coords, a *node.Node, b *node.Node) =
  same(c.Pnts, a.Polyline.Coordinates.Pnts) && len(c.Idxs) == len(a.Polyline.Coordinates.Idxs) + len(b.Polyline.Coordinates.Idxs) - 1 &&
  forall(k, 0, len(a.Polyline.Coordinates.Idxs)-1, c.Idxs[k] == a.Polyline.Coordinates.Idxs[k]) &&
  forall(k, 0, len(b.Polyline.Coordinates.Idxs), c.Idxs[len(a.Polyline.Coordinates.Idxs)-1+k] == b.Polyline.Coordinates.Idxs[k])
# pieces of one line
pred sameLine(a *node.Node, b *node.Node) = same(a.Polyline.Coordinates.Pnts, b.Polyline.Coordinates.Pnts)

func ContiguousCoordinates(ha, hb) (c)
  safe
  requires wellFormed(ha) && wellFormed(hb) && touching(ha, hb) && sameLine(ha, hb)
  ensures [C05] the vertices of the first followed by those of the second: joins(c, firstPiece(ha, hb), secondPiece(ha, hb))
  ensures [C05] own storage: fresh(c.Idxs)

func ContiguousFragmentsAtThreshold(id, scoreFn, ha, hb, scoreRelation, gfn) (ok, n)
  safe
  requires wellFormed(ha) && wellFormed(hb) && touching(ha, hb) && sameLine(ha, hb)
  modifies id.current
  ensures [C05] merged piece spans exactly both pieces: imp(ok, n.Range.I == firstPiece(ha, hb).Range.I && n.Range.J == secondPiece(ha, hb).Range.J)
  ensures [C05] merged piece carries the vertices of both pieces: imp(ok, joins(n.Polyline.Coordinates, firstPiece(ha, hb), secondPiece(ha, hb)))
  ensures [C05] merged piece satisfies the threshold: imp(ok, scoreRelation(scoreFn(n.Polyline.Coordinates).r1))
  ensures [C05] merged piece belongs to the line: imp(ok, n.Instance == ha.Instance)
