package constdp

property C17: constdp.deformNodes state.State.MarkDirty state.State.MarkClean state.State.IsDirty state.State.IsClean

pred owner(x *node.Node) = as(x.Instance, *ConstDP)
pred splittable(x *node.Node) = x.Range.J - x.Range.I > 1
# the owner's score names an interior vertex of every piece that has one
pred scored(x *node.Node) =
  imp(isnil(owner(x).SquareScore), 0 < owner(x).Score(x.Polyline.Coordinates).r0 && owner(x).Score(x.Polyline.Coordinates).r0 < x.Range.J - x.Range.I) &&
  imp(!isnil(owner(x).SquareScore), 0 < owner(x).SquareScore(x.Polyline.Coordinates).r0 && owner(x).SquareScore(x.Polyline.Coordinates).r0 < x.Range.J - x.Range.I)
pred stored(x *node.Node) = preexisting(x) && preexisting(x.Polyline) && preexisting(owner(x)) && preexisting(owner(x).DouglasPeucker) && preexisting(x.Polyline.Coordinates.Idxs) && preexisting(x.Polyline.Coordinates.Pnts)
pred piecesToSplit(nodes map[*node.Node]struct{}) = all(x, *node.Node, imp(has(nodes, x), stored(x) && wellFormed(x) && typeis(x.Instance, *ConstDP) && !isnil(owner(x)) && !isnil(owner(x).DouglasPeucker) && imp(splittable(x), scored(x))))
# a and b are the two parts of x
pred halves(x *node.Node, a node.Node, b node.Node) =
  a.Range.I == x.Range.I && b.Range.J == x.Range.J && a.Range.J == b.Range.I && a.Range.I < a.Range.J && b.Range.I < b.Range.J &&
  a.Instance == x.Instance && b.Instance == x.Instance
pred handedOn(x *node.Node, out []node.Node) =
  imp(splittable(x), exists(k, 0, len(out)-1, halves(x, out[k], out[k+1]))) &&
  imp(!splittable(x), exists(k, 0, len(out), same(out[k], *x)))
pred comesFrom(p node.Node, x *node.Node) = p.Instance == x.Instance && x.Range.I <= p.Range.I && p.Range.I < p.Range.J && p.Range.J <= x.Range.J && imp(splittable(x), p.Range.J - p.Range.I < x.Range.J - x.Range.I)

func deformNodes(id, nodes) (out)
  safe
  requires !isnil(id) && piecesToSplit(nodes)
  modifies id.current
  modifies anyelem(state.State)
  ensures [C17] every rejected piece is split in two or handed on: all(x, *node.Node, imp(has(nodes, x), handedOn(x, out)))
  ensures [C17] nothing else is made: forall(k, 0, len(out), some(x, *node.Node, has(nodes, x) && comesFrom(out[k], x)))
  ensures [C17] the line of a split piece is marked changed: all(x, *node.Node, imp(has(nodes, x) && splittable(x), x.Instance.State().IsDirty()))
  ensures [C17] no line is marked unchanged: all(p, *state.State, imp(old(p.IsDirty()), p.IsDirty()))
  inv (S []node.Node) fresh(S)
  inv (S []node.Node, m map[*node.Node]struct{}) all(x, *node.Node, imp(visited(m, x), handedOn(x, S)))
  inv (S []node.Node) forall(k, 0, len(S), some(x, *node.Node, has(nodes, x) && comesFrom(S[k], x)))
  inv (m map[*node.Node]struct{}) all(x, *node.Node, imp(visited(m, x), has(m, x)))
  inv (m map[*node.Node]struct{}) all(x, *node.Node, imp(visited(m, x) && splittable(x), x.Instance.State().IsDirty()))
  inv (m map[*node.Node]struct{}) all(p, *state.State, imp(old(p.IsDirty()), p.IsDirty()))

package state

func State.MarkDirty(s)
  modifies *s
  ensures [C17] marked changed: s.IsDirty() && !s.IsClean()

func State.MarkClean(s)
  modifies *s
  ensures [C17] marked unchanged: s.IsClean() && !s.IsDirty()
