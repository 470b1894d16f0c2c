package hdb

# piece x is held below the index node nd
logic under(nd *dbNode, x *node.Node) bool reads hdb.dbNode.children, hdb.dbNode.item, hdb.dbNode.leaf
axiom under unfolds: each(nd, *dbNode, x, *node.Node, trig(under(nd, x), nd.leaf),
  iff(under(nd, x), ite(nd.leaf, exists(i, 0, len(nd.children), nd.children[i].item == x), exists(i, 0, len(nd.children), under(&nd.children[i], x)))))
# the index node and all below it are in order: its box covers the pieces below
logic inOrder(nd *dbNode) bool reads hdb.dbNode.children, hdb.dbNode.item, hdb.dbNode.leaf, mbr.MBR.MinX, mbr.MBR.MinY, mbr.MBR.MaxX, mbr.MBR.MaxY
pred covers(a mbr.MBR, b mbr.MBR) = a.MinX <= b.MinX && b.MinX <= b.MaxX && b.MaxX <= a.MaxX && a.MinY <= b.MinY && b.MinY <= b.MaxY && b.MaxY <= a.MaxY
axiom order unfolds: each(nd, *dbNode, trig(inOrder(nd), nd.leaf), iff(inOrder(nd),
  all(x, *node.Node, imp(under(nd, x), !isnil(x) && covers(nd.bbox, x.MBR))) &&
  ite(nd.leaf, forall(i, 0, len(nd.children), !isnil(nd.children[i].item) && same(nd.children[i].bbox, nd.children[i].item.MBR)),
      forall(i, 0, len(nd.children), inOrder(&nd.children[i]) && some(x, *node.Node, under(&nd.children[i], x))))))
pred sound(t *Hdb) = inOrder(&t.data)
pred boxesMeet(a mbr.MBR, b mbr.MBR) = !(b.MinX > a.MaxX || b.MaxX < a.MinX || b.MinY > a.MaxY || b.MaxY < a.MinY)

property C12: hdb.all hdb.Hdb.All hdb.Hdb.Search hdb.Hdb.Collides hdb.intersects hdb.contains hdb.popNode

func all(nd, result) (out)
  forkappend
  requires !isnil(nd)
  modifies elems(result, len(result), cap(result))
  ensures fresh(out) || (base(out) == base(result) && off(out) == off(result) && cap(out) == cap(result) && len(out) >= len(result))
  ensures [C12] lists exactly what is below: all(x, *node.Node, iff(occurs(x, out), old(occurs(x, result)) || old(under(nd, x))))
  inv (N *dbNode, W []*dbNode, R []*node.Node) all(x, *node.Node, iff(old(occurs(x, result)) || old(under(nd, x)), occurs(x, R) || under(N, x) || exists(k, 0, len(W), under(W[k], x))))
  inv (R []*node.Node, n *dbNode, w []*dbNode, I int) all(x, *node.Node, iff(old(occurs(x, result)) || old(under(nd, x)), occurs(x, R) || exists(j, I+1, len(n.children), n.children[j].item == x) || exists(k, 0, len(w), under(w[k], x))))
  inv (r []*node.Node, n *dbNode, W []*dbNode, I int) all(x, *node.Node, iff(old(occurs(x, result)) || old(under(nd, x)), occurs(x, r) || exists(j, I+1, len(n.children), under(&n.children[j], x)) || exists(k, 0, len(W), under(W[k], x))))
  inv (R []*node.Node) fresh(R) || (base(R) == base(result) && off(R) == off(result) && cap(R) == cap(result) && len(R) >= len(result))
  inv (N *dbNode) !isnil(N)
  inv (W []*dbNode) forall(k, 0, len(W), !isnil(W[k]))
  inv (W []*dbNode) fresh(W) || cap(W) == 0
func Hdb.All(tree) (res)
  ensures fresh(res) || cap(res) == 0
  ensures [C12] lists exactly what is held: all(x, *node.Node, iff(occurs(x, res), under(&tree.data, x)))

named touched(a float64, b float64, c float64, d float64, x *node.Node) = !(x.MBR.MinX > c || x.MBR.MaxX < a || x.MBR.MinY > d || x.MBR.MaxY < b)

func Hdb.Search(tree, query) (res)
  forkappend
  requires !isnil(tree)
  ensures all(x, *node.Node, imp(sound(tree) && occurs(x, res), !isnil(x)))
  ensures fresh(res) || cap(res) == 0
  ensures [C12] returns what is held and meets the box: imp(sound(tree), all(x, *node.Node, iff(occurs(x, res), under(&tree.data, x) && touched(query.MinX, query.MinY, query.MaxX, query.MaxY, x))))
  inv (N *dbNode, W []*dbNode, R []*node.Node) imp(old(sound(tree)), all(x, *node.Node, imp(old(under(&tree.data, x)) && touched(query.MinX, query.MinY, query.MaxX, query.MaxY, x), occurs(x, R) || under(N, x) || exists(k, 0, len(W), under(W[k], x)))))
  inv (R []*node.Node, n *dbNode, W []*dbNode, I int) imp(old(sound(tree)), all(x, *node.Node, imp(old(under(&tree.data, x)) && touched(query.MinX, query.MinY, query.MaxX, query.MaxY, x), occurs(x, R) || (n.leaf && exists(j, I, len(n.children), n.children[j].item == x)) || (!n.leaf && exists(j, I, len(n.children), under(&n.children[j], x))) || exists(k, 0, len(W), under(W[k], x)))))
  inv (R []*node.Node) imp(old(sound(tree)), all(x, *node.Node, imp(occurs(x, R), old(under(&tree.data, x)) && touched(query.MinX, query.MinY, query.MaxX, query.MaxY, x))))
  inv (R []*node.Node) fresh(R) || cap(R) == 0
  inv (N *dbNode) !isnil(N)
  inv (N *dbNode) imp(old(sound(tree)), inOrder(N))
  inv (N *dbNode) all(x, *node.Node, imp(under(N, x), old(under(&tree.data, x))))
  inv (I int, n *dbNode) forall(j, 0, len(n.children), imp(n.leaf, let(v, n.children[j].item, old(under(&tree.data, v)))))
  inv (I int, n *dbNode) forall(j, 0, len(n.children), imp(!n.leaf, all(x, *node.Node, imp(under(&n.children[j], x), old(under(&tree.data, x))))))
  inv (W []*dbNode) imp(old(sound(tree)), forall(k, 0, len(W), inOrder(W[k])))
  inv (W []*dbNode) forall(k, 0, len(W), all(x, *node.Node, imp(under(W[k], x), old(under(&tree.data, x)))))
  inv (W []*dbNode) forall(k, 0, len(W), !isnil(W[k]))
  inv (W []*dbNode) fresh(W) || cap(W) == 0

# some piece below the index node meets the box
named someTouched(a float64, b float64, c float64, d float64, nd *dbNode) = some(x, *node.Node, under(nd, x) && touched(a, b, c, d, x))

func Hdb.Collides(tree, query) (hit)
  forkappend
  requires !isnil(tree)
  ensures [C12] true exactly if a piece meets the box: imp(sound(tree), iff(hit, someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, &tree.data)))
  inv (N *dbNode, W []*dbNode, B bool) imp(old(sound(tree)) && !B && old(someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, &tree.data)), (!isnil(N) && someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, N)) || exists(k, 0, len(W), someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, W[k])))
  inv (W []*dbNode, I int, B bool, n *dbNode) imp(old(sound(tree)) && !B && old(someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, &tree.data)), (n.leaf && exists(j, I, len(n.children), touched(query.MinX, query.MinY, query.MaxX, query.MaxY, n.children[j].item))) || (!n.leaf && exists(j, I, len(n.children), someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, &n.children[j]))) || exists(k, 0, len(W), someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, W[k])))
  inv (B bool) imp(old(sound(tree)) && B, old(someTouched(query.MinX, query.MinY, query.MaxX, query.MaxY, &tree.data)))
  inv (N *dbNode, B bool) imp(old(sound(tree)) && !B && !isnil(N), inOrder(N))
  inv (N *dbNode, B bool) imp(!B && !isnil(N), all(x, *node.Node, imp(under(N, x), old(under(&tree.data, x)))))
  inv (W []*dbNode, B bool) imp(old(sound(tree)) && !B, forall(k, 0, len(W), inOrder(W[k])))
  inv (W []*dbNode, B bool) imp(!B, forall(k, 0, len(W), all(x, *node.Node, imp(under(W[k], x), old(under(&tree.data, x))))))
  inv (W []*dbNode) forall(k, 0, len(W), !isnil(W[k]))
  inv (W []*dbNode) fresh(W) || cap(W) == 0
  inv (N *dbNode, W []*dbNode) imp(isnil(N), len(W) == 0)
  inv (I int, B bool, n *dbNode) imp(!B, forall(j, 0, len(n.children), imp(n.leaf, let(v, n.children[j].item, old(under(&tree.data, v))))))
  inv (I int, B bool, n *dbNode) imp(!B, forall(j, 0, len(n.children), imp(!n.leaf, all(x, *node.Node, imp(under(&n.children[j], x), old(under(&tree.data, x)))))))

property C12: hdb.sliceIndex hdb.removeNode hdb.splitAtIndex hdb.popNode hdb.popIndex hdb.makeChildren hdb.newLeafNode hdb.createDBNode hdb.distBBox hdb.calcBBox hdb.nodeSiblingAtIndex hdb.nodeAtIndex hdb.Hdb.Clear hdb.Hdb.IsEmpty hdb.dbNode.addChild hdb.swapItem

func sliceIndex(limit, predicate) (index)
  ensures [C12] finds the first: imp(index != -1, 0 <= index && index < limit && predicate(index) && forall(k, 0, index, !predicate(k)))
  ensures [C12] finds one if there is one: imp(index == -1, forall(k, 0, limit, !predicate(k)))
  inv (I int) forall(k, 0, I, !predicate(k))

func removeNode(a, i) (out)
  inline
  safe
  requires 0 <= i
  modifies elems(a)
  ensures [C12] nothing to remove: imp(i >= len(a), same(out, a) && forall(k, 0, len(a), same(a[k], old(a[k]))))
  ensures [C12] one less: imp(i < len(a), base(out) == base(a) && off(out) == off(a) && len(out) == len(a) - 1)
  ensures [C12] those before stay: imp(i < len(a), forall(k, 0, i, same(out[k], old(a[k]))))
  ensures [C12] those after move up: imp(i < len(a), forall(k, i, len(a)-1, same(out[k], old(a[k+1]))))

func splitAtIndex(nodes, index) (head, tail)
  safe
  requires 0 <= index && index <= len(nodes)
  modifies elems(nodes, index, len(nodes))
  ensures [C12] the first part: len(head) == index && forall(k, 0, index, same(head[k], old(nodes[k])))
  ensures [C12] the second part: len(tail) == len(nodes) - index && forall(k, 0, len(tail), same(tail[k], old(nodes[index+k])))
  ensures fresh(tail)
  inv (T []dbNode, I int) fresh(T) && len(T) == I - index && I >= index
  inv (T []dbNode, I int) forall(k, 0, len(T), same(T[k], old(nodes[index+k])))
  inv (I int) forall(k, I, len(nodes), same(nodes[k], old(nodes[k])))

func popNode(a) (v, rest)
  inline
  safe
  modifies elems(a)
  ensures [C12] empty: imp(len(a) == 0, isnil(v) && len(rest) == 0)
  ensures [C12] takes the last: imp(len(a) > 0, v == old(a[len(a)-1]) && len(rest) == len(a) - 1 && forall(k, 0, len(rest), rest[k] == old(a[k])))

func popIndex(indxs) (v)
  inline
  safe
  requires !isnil(indxs)
  modifies *indxs
  modifies elems(*indxs)
  ensures [C12] empty: imp(old(len(*indxs)) == 0, v == 0 && len(*indxs) == 0)
  ensures [C12] takes the last: imp(old(len(*indxs)) > 0, v == old((*indxs)[len(*indxs)-1]) && len(*indxs) == old(len(*indxs)) - 1 && forall(k, 0, len(*indxs), (*indxs)[k] == old((*indxs)[k])))

pred leafFor(n dbNode, x *node.Node) = n.item == x && n.leaf && n.height == 1 && same(n.bbox, x.MBR) && len(n.children) == 0

func newLeafNode(item) (n)
  inline
  requires !isnil(item)
  ensures [C12] leaf of the piece: leafFor(n, item)

func createDBNode(item, height, leaf, children) (n)
  inline
  ensures [C12] as given: same(n.children, children) && n.item == item && n.height == height && n.leaf == leaf
  ensures [C12] box of the piece: imp(!isnil(item), same(n.bbox, item.MBR))

func makeChildren(items) (chs)
  requires forall(k, 0, len(items), !isnil(items[k]))
  ensures fresh(chs)
  ensures [C12] one leaf per piece: len(chs) == len(items) && forall(k, 0, len(chs), leafFor(chs[k], items[k]))
  inv (S []dbNode, I int) fresh(S) && len(S) == I + 1
  inv (S []dbNode) forall(k, 0, len(S), leafFor(S[k], items[k]))

# a box that is not empty is covered by a
pred regular(b mbr.MBR) = b.MinX <= b.MaxX && b.MinY <= b.MaxY
pred encloses(a mbr.MBR, b mbr.MBR) = a.MinX <= b.MinX && b.MaxX <= a.MaxX && a.MinY <= b.MinY && b.MaxY <= a.MaxY

func distBBox(nd, k, p) (box)
  safe
  requires !isnil(nd) && 0 <= k && p <= len(nd.children)
  ensures [C12] encloses the children: imp(forall(i, k, p, regular(nd.children[i].bbox)), forall(i, k, p, encloses(box, nd.children[i].bbox)))
  inv (B mbr.MBR) imp(forall(i, k, p, regular(nd.children[i].bbox)), !isnan(B.MinX) && !isnan(B.MinY) && !isnan(B.MaxX) && !isnan(B.MaxY))
  inv (B mbr.MBR, I int) imp(forall(i, k, p, regular(nd.children[i].bbox)), !isnan(B.MinX) && !isnan(B.MinY) && !isnan(B.MaxX) && !isnan(B.MaxY) && forall(i, k, I, encloses(B, nd.children[i].bbox)))

func calcBBox(nd)
  safe
  requires !isnil(nd)
  modifies nd.bbox
  ensures [C12] encloses the children: imp(old(forall(i, 0, len(nd.children), regular(nd.children[i].bbox) && &nd.children[i] != nd)), forall(i, 0, len(nd.children), encloses(nd.bbox, nd.children[i].bbox)))

func Hdb.Clear(tree) (t)
  safe
  requires !isnil(tree)
  modifies tree.data
  ensures [C12] nothing is held: t == tree && len(tree.data.children) == 0 && tree.data.leaf && tree.data.height == 1
  ensures [C12] lists nothing: all(x, *node.Node, !under(&tree.data, x))

func Hdb.IsEmpty(tree) (b)
  requires !isnil(tree)
  ensures [C12] empty: iff(b, len(tree.data.children) == 0)

func dbNode.addChild(nd, child)
  inline
  forkappend
  requires !isnil(nd) && forall(k, 0, cap(nd.children), &nd.children[k] != nd)
  modifies nd.children
  modifies elems(nd.children, len(nd.children), cap(nd.children))
  ensures [C12] appended: len(nd.children) == old(len(nd.children)) + 1 && same(nd.children[len(nd.children)-1], child)

func intersects(a, b) (r)
  inline
  requires !isnil(a) && !isnil(b)
  ensures [C12] boxes meet: iff(r, !(b.MinX > a.MaxX || b.MaxX < a.MinX || b.MinY > a.MaxY || b.MaxY < a.MinY))

func contains(a, b) (r)
  inline
  requires !isnil(a) && !isnil(b)
  ensures [C12] b lies in a: iff(r, b.MinX >= a.MinX && b.MaxX <= a.MaxX && b.MinY >= a.MinY && b.MaxY <= a.MaxY)

func nodeSiblingAtIndex(a, i) (n)
  inline
  safe
  ensures [C12] the child at i: ite(0 <= i && i < len(a), n == &a[i], isnil(n))

func nodeAtIndex(a, i) (n)
  inline
  safe
  ensures [C12] the node at i: ite(0 <= i && i < len(a), n == a[i], isnil(n))

func swapItem(arr, i, j)
  inline
  requires 0 <= i && i < len(arr) && 0 <= j && j < len(arr)
  safe
  modifies elems(arr)
  ensures [C12] exchanged: arr[i] == old(arr[j]) && arr[j] == old(arr[i])
  ensures [C12] others stay: forall(k, 0, len(arr), imp(k != i && k != j, arr[k] == old(arr[k])))

package math

func Inf(sign) (r)
  trusted
  ensures imp(sign >= 0, all(x, float64, imp(!isnan(x), x <= r))) && imp(sign < 0, all(x, float64, imp(!isnan(x), r <= x))) && !isnan(r)
