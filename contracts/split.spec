package node

# a piece carries exactly the coordinates it is created from
func CreateNode(id, coordinates, rg, geomFn, instance) (n)
  requires coordinates.Len() >= 2
  modifies id.current
  ensures [C04,C01,C02] range: n.Range == rg
  ensures [C04,C05] owner: n.Instance == instance
  ensures [C04,C05] id: n.Id == old(id.current) && id.current == old(id.current) + 1
  ensures [C04,C01,C05] own line object: fresh(n.Polyline)
  ensures [C04,C01,C05] exactly the given coordinates: same(n.Polyline.Coordinates, coordinates)

func Node.Coordinates(n) (c)
  inline

package split

property C04: rng.Rng.Split split.AtIndex split.AtScoreSelection node.CreateNode

# the vertices of part p are the vertices p.I..p.J of the piece h, which starts at vertex hi
pred carries(p node.Node, h *node.Node) =
  same(p.Polyline.Coordinates.Pnts, h.Polyline.Coordinates.Pnts) &&
  len(p.Polyline.Coordinates.Idxs) == p.Range.J - p.Range.I + 1 &&
  forall(k, 0, p.Range.J - p.Range.I + 1, p.Polyline.Coordinates.Idxs[k] == h.Polyline.Coordinates.Idxs[p.Range.I - h.Range.I + k])

pred wellFormed(h *node.Node) = !isnil(h) && !isnil(h.Polyline) && h.Range.I < h.Range.J && len(h.Polyline.Coordinates.Idxs) == h.Range.J - h.Range.I + 1

func AtIndex(id, hull, indices, gfn) (subs)
  safe
  requires wellFormed(hull)
  modifies id.current
  ensures [C04] starts with the piece: imp(len(subs) > 0, subs[0].Range.I == hull.Range.I)
  ensures [C04] ends with the piece: imp(len(subs) > 0, subs[len(subs)-1].Range.J == hull.Range.J)
  ensures [C04] parts meet end to end: forall(k, 0, len(subs)-1, subs[k].Range.J == subs[k+1].Range.I)
  ensures [C04] parts are non-empty: forall(k, 0, len(subs), subs[k].Range.I < subs[k].Range.J)
  ensures [C04] cuts are requested interior indices: forall(k, 0, len(subs)-1, occurs(subs[k].Range.J, indices))
  ensures [C04] every requested interior index is a cut: all(x, int, imp(occurs(x, indices) && hull.Range.I < x && x < hull.Range.J, exists(k, 0, len(subs)-1, subs[k].Range.J == x)))
  ensures [C04] nothing to cut gives no parts: iff(len(subs) == 0, !some(x, int, occurs(x, indices) && hull.Range.I < x && x < hull.Range.J))
  ensures [C04] same owner: forall(k, 0, len(subs), subs[k].Instance == hull.Instance)
  ensures [C04] parts carry the vertices of their range: forall(k, 0, len(subs), carries(subs[k], hull))
  inv (s []node.Node) fresh(s)
  inv (s []node.Node) forall(k, 0, len(s), s[k].Instance == hull.Instance)
  inv (s []node.Node) forall(k, 0, len(s), carries(s[k], hull))
  inv (s []node.Node) forall(k, 0, len(s), fresh(s[k].Polyline))
  inv (s []node.Node, r []rng.Rng, i int) len(s) == i + 1 && forall(k, 0, len(s), s[k].Range == r[k])

func AtScoreSelection(id, hull, scoreFn, gfn) (ha, hb)
  requires wellFormed(hull) && 0 < scoreFn(hull.Polyline.Coordinates).r0 && scoreFn(hull.Polyline.Coordinates).r0 < hull.Range.J - hull.Range.I
  safe
  modifies id.current
  ensures [C04,C17] parts cover the piece: ha.Range.I == hull.Range.I && hb.Range.J == hull.Range.J
  ensures [C04,C17] parts meet at the scored vertex: ha.Range.J == hull.Range.I + scoreFn(hull.Polyline.Coordinates).r0 && hb.Range.I == ha.Range.J
  ensures [C04,C17] same owner: ha.Instance == hull.Instance && hb.Instance == hull.Instance
  ensures [C04,C17] parts carry the vertices of their range: carries(ha, hull) && carries(hb, hull)
  ensures fresh(ha.Polyline) && fresh(hb.Polyline)
  ensures base(ha.Polyline.Coordinates.Idxs) == base(hull.Polyline.Coordinates.Idxs) && off(ha.Polyline.Coordinates.Idxs) == off(hull.Polyline.Coordinates.Idxs)
  ensures base(hb.Polyline.Coordinates.Idxs) == base(hull.Polyline.Coordinates.Idxs) && off(hb.Polyline.Coordinates.Idxs) == off(hull.Polyline.Coordinates.Idxs) + ha.Range.J - ha.Range.I
