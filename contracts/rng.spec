package rng

property C04: rng.Rng.Split

# a strictly increasing slice
pred incr(s []int) = forall(i, 0, len(s)-1, s[i] < s[i+1])
# consecutive ranges meet end to end
pred chained(s []Rng) = forall(i, 0, len(s)-1, s[i].J == s[i+1].I)
pred proper(s []Rng) = forall(i, 0, len(s), s[i].I < s[i].J)
pred rngIs(r Rng, i int, j int) = r.I == i && r.J == j

func iter.SortedIntsSet(values) (r)
  trusted
  ensures fresh(r) || cap(r) == 0
  ensures all(i, int, all(j, int, imp(0 <= i && i < j && j < len(r), r[i] < r[j])))
  ensures all(x, int, iff(occurs(x, r), occurs(x, values)))
  ensures forall(i, 0, len(r), occurs(r[i], values))

func Range(i, j) (r)
  inline
func Rng.Size(o) (n)
  inline
func Rng.Contiguous(o, r) (b)
  inline
func Rng.AsArray(o) (a)
  inline

func Rng.Split(o, idxs) (sub)
  safe
  ensures [C04] first part starts with the range: imp(len(sub) > 0, sub[0].I == o.I)
  ensures [C04] last part ends with the range: imp(len(sub) > 0, sub[len(sub)-1].J == o.J)
  ensures [C04] parts meet end to end: chained(sub)
  ensures [C04] parts are non-empty: proper(sub)
  ensures [C04] parts lie in the range: forall(k, 0, len(sub), o.I <= sub[k].I && sub[k].J <= o.J)
  ensures [C04] cuts are requested interior indices: forall(k, 0, len(sub)-1, occurs(sub[k].J, idxs) && o.I < sub[k].J && sub[k].J < o.J)
  ensures [C04] every requested interior index is a cut: all(x, int, imp(occurs(x, idxs) && o.I < x && x < o.J, exists(k, 0, len(sub)-1, sub[k].J == x)))
  ensures [C04] nothing to cut gives no parts: iff(len(sub) == 0, !some(x, int, occurs(x, idxs) && o.I < x && x < o.J))
  inv (s []Rng) forall(k, 0, len(s)-1, s[k].J == s[k+1].I)
  inv (s []Rng) proper(s)
  inv (s []Rng) imp(len(s) > 0, s[0].I == o.I)
  inv (s []Rng) forall(k, 0, len(s), o.I <= s[k].I)
  inv (s []Rng) forall(k, 0, len(s), occurs(s[k].J, idxs) && o.I < s[k].J && s[k].J < o.J)
  inv (s []Rng, q []int, i int) imp(len(s) > 0, exists(j, 0, i+1, q[j] == s[len(s)-1].J))
  inv (s []Rng, q []int, i int) forall(j, 0, i+1, imp(o.I < q[j] && q[j] < o.J, exists(k, 0, len(s), s[k].J == q[j])))
