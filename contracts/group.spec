package constdp

property C18: constdp.groupHullsByFC


pred own(x *node.Node) = as(x.Instance, *ConstDP)
pred heldOwned(db *hdb.Hdb) = all(x, *node.Node, imp(under(&db.data, x), preexisting(x) && !isnil(x) && typeis(x.Instance, *ConstDP) && !isnil(own(x)) && !isnil(own(x).DouglasPeucker) && !isnil(own(x).SimpleSet) && preexisting(own(x).Hulls)))
pred linesApart(db *hdb.Hdb) = all(x, *node.Node, all(y, *node.Node, imp(under(&db.data, x) && under(&db.data, y), own(x) == own(y) || (own(x).DouglasPeucker.id != own(y).DouglasPeucker.id && own(x).DouglasPeucker != own(y).DouglasPeucker && own(x).SimpleSet != own(y).SimpleSet && base(own(x).Hulls) != base(own(y).Hulls)))))
pred wasHeld(db *hdb.Hdb, x *node.Node) = old(under(&db.data, x))
pred wasOwn(x *node.Node) = old(own(x))
pred keyOf(x *node.Node) = wasOwn(x).DouglasPeucker.id
pred endsOf(s *ConstDP, v int, n int) = exists(q, 0, n, s.Hulls[q].Range.I == v || s.Hulls[q].Range.J == v)

named holdsId(v int, l []node.Node) = any(n, l, n.Id == v)

func groupHullsByFC(hulldb)
  safe
  forkappend
  requires !isnil(hulldb) && heldOwned(hulldb) && linesApart(hulldb)
  modifies anyfield(dp.DouglasPeucker, Hulls)
  modifies anyelem(node.Node)
  modifies anyfield(sset.SSet, list)
  ensures [C18] every piece returns to its line: all(x, *node.Node, imp(wasHeld(hulldb, x), holdsId(old(x.Id), wasOwn(x).Hulls)))
  ensures [C18] a line holds only pieces of its own: all(x, *node.Node, imp(wasHeld(hulldb, x), every(n, wasOwn(x).Hulls, n.Instance == old(x.Instance))))
  inv (m map[int][]node.Node) all(k, int, imp(has(m, k), len(at(m, k)) > 0 && fresh(at(m, k))))
  inv (m map[int][]node.Node) all(k, int, all(l, int, imp(has(m, k) && has(m, l) && k != l, base(at(m, k)) != base(at(m, l)))))
  inv (ns []*node.Node, I int) every(x, ns, occurs(x, ns) && wasHeld(hulldb, x) && preexisting(x))
  inv (m map[int][]node.Node, I int) all(x, *node.Node, imp(preexisting(x), x.Id == old(x.Id) && x.Instance == old(x.Instance)))
  inv (m map[int][]node.Node, ns []*node.Node, I int) every(x, ns[:I+1], has(m, keyOf(x)))
  inv (m map[int][]node.Node, ns []*node.Node, I int) every(x, ns[:I+1], holdsId(old(x.Id), at(m, keyOf(x))))
  inv (m map[int][]node.Node) all(k, int, imp(has(m, k), every(n, at(m, k), n.Instance == at(m, k)[0].Instance)))
  inv (m map[int][]node.Node, ns []*node.Node) all(k, int, imp(has(m, k), any(x, ns, keyOf(x) == k && at(m, k)[0].Instance == old(x.Instance))))
  inv (m map[int][]node.Node, ns []*node.Node) every(x, ns, all(k, int, imp(has(m, k), base(at(m, k)) != base(wasOwn(x).Hulls))))
  inv (m map[int][]node.Node, ns []*node.Node) every(x, ns, born(wasOwn(x).Hulls) < now())
  inv (m map[int][]node.Node, ns []*node.Node) every(x, ns, every(y, ns, wasOwn(x) == wasOwn(y) || base(wasOwn(x).Hulls) != base(wasOwn(y).Hulls)))
  inv (m map[int][]node.Node, ns []*node.Node, S []*ConstDP) every(x, ns, has(m, keyOf(x)) && holdsId(old(x.Id), at(m, keyOf(x))))
  inv (m map[int][]node.Node, ns []*node.Node, S []*ConstDP) every(x, ns, imp(visited(m, keyOf(x)), holdsId(old(x.Id), wasOwn(x).Hulls)))
  inv (m map[int][]node.Node, ns []*node.Node, S []*ConstDP) every(x, ns, imp(visited(m, keyOf(x)), every(n, wasOwn(x).Hulls, n.Instance == old(x.Instance))))
  inv (s *ConstDP, m map[int][]node.Node, ns []*node.Node, I int) every(x, ns, has(m, keyOf(x)) && holdsId(old(x.Id), at(m, keyOf(x))))
  inv (s *ConstDP, m map[int][]node.Node, ns []*node.Node, I int) every(x, ns, imp(visited(m, keyOf(x)) && wasOwn(x) != s, holdsId(old(x.Id), wasOwn(x).Hulls)))
  inv (s *ConstDP, m map[int][]node.Node, ns []*node.Node, I int) every(x, ns, imp(visited(m, keyOf(x)) && wasOwn(x) != s, every(n, wasOwn(x).Hulls, n.Instance == old(x.Instance))))
  inv (s *ConstDP, lst []node.Node, m map[int][]node.Node, ns []*node.Node, I int) any(x, ns, wasOwn(x) == s && base(at(m, keyOf(x))) == base(lst) && has(m, keyOf(x)))
  inv (s *ConstDP, lst []node.Node, I int) base(lst) != base(s.Hulls)
  inv (s *ConstDP, I int) len(s.Hulls) == I+1
  inv (s *ConstDP, lst []node.Node, I int) forall(q, 0, I+1, s.Hulls[q].Id == lst[q].Id)
  inv (s *ConstDP, lst []node.Node, I int) forall(q, 0, I+1, s.Hulls[q].Instance == lst[q].Instance)
  inv (s *ConstDP, m map[int][]node.Node, I int) all(k, int, imp(has(m, k), base(at(m, k)) != base(s.Hulls)))
  inv (s *ConstDP, ns []*node.Node, I int) every(x, ns, wasOwn(x) == s || base(wasOwn(x).Hulls) != base(s.Hulls))
  inv (s *ConstDP, ns []*node.Node, I int) every(x, ns, wasOwn(x) == s || wasOwn(x).DouglasPeucker != s.DouglasPeucker)
  inv (m map[int][]node.Node, S []*ConstDP) every(s, S, !isnil(s) && !isnil(s.DouglasPeucker) && !isnil(s.SimpleSet))
