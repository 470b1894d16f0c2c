package sset

# the sorted values of a set (its representation is the library's)
logic valueAt(s *sset.SSet, i int) interface{} reads sset.SSet.list
logic valueCount(s *sset.SSet) int reads sset.SSet.list

func SSet.Size(s) (n)
  trusted
  ensures n == valueCount(s) && n >= 0

func SSet.Values(s) (r)
  trusted
  ensures fresh(r) && len(r) == valueCount(s)
  ensures forall(i, 0, len(r), r[i] == valueAt(s, i))

func NewSSet(cmp, initSize) (s)
  trusted
  ensures fresh(s) && !isnil(s)

# the whole numbers a set holds
logic inSet(s *sset.SSet, v int) bool reads sset.SSet.list

func SSet.Empty(s) (r)
  trusted
  requires !isnil(s)
  modifies s.list
  ensures r == s && all(v, int, !inSet(s, v))

func SSet.Extend(s, values) (r)
  trusted
  requires !isnil(s)
  modifies s.list
  ensures r == s && all(v, int, iff(inSet(s, v), old(inSet(s, v)) || occurs(iface(v), values)))

func SSet.ForEach(s, fn)
  trusted
  modifies anyelem(int)

package dp

property C01: dp.DouglasPeucker.Simple

pred isEnd(d *DouglasPeucker, v int) = exists(q, 0, len(d.Hulls), d.Hulls[q].Range.I == v || d.Hulls[q].Range.J == v)

func DouglasPeucker.Simple(d) (r)
  requires !isnil(d) && !isnil(d.SimpleSet)
  modifies anyfield(sset.SSet, list)
  modifies anyelem(int)
  ensures [C01] exactly the ends of the pieces are retained: all(v, int, iff(inSet(d.SimpleSet, v), isEnd(d, v)))
  inv (I int) all(v, int, imp(inSet(d.SimpleSet, v), exists(q, 0, I+1, d.Hulls[q].Range.I == v || d.Hulls[q].Range.J == v)))
  inv (I int) forall(q, 0, I+1, inSet(d.SimpleSet, d.Hulls[q].Range.I) && inSet(d.SimpleSet, d.Hulls[q].Range.J))
