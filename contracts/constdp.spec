package constdp

property C16: constdp.chunkTasks constdp.chunkInstances

# c chunks of n items
logic times(c int, n int) int
axiom no chunk: each(c, int, n, int, trig(times(c, n)), imp(c == 0, times(c, n) == 0))
axiom one more chunk: each(c, int, d, int, n, int, trig(times(c, n), times(d, n)), imp(d == c + 1, times(d, n) == times(c, n) + n))

# the chunks contain every item once, in order: chunk c starts where the chunks before it end
func chunkTasks(vals, concurrency) (chunks)
  safe
  requires concurrency > 0
  ensures [C16] every chunk holds something: forall(c, 0, len(chunks), len(chunks[c]) > 0)
  ensures [C16] nothing to do gives no chunks: iff(len(chunks) == 0, len(vals) == 0)
  ensures [C16] chunks have one size but the last: forall(c, 0, len(chunks)-1, len(chunks[c]) == len(chunks[0]) && len(chunks[len(chunks)-1]) <= len(chunks[0]))
  ensures [C16] the chunks hold every item: imp(len(chunks) > 0, times(len(chunks)-1, len(chunks[0])) + len(chunks[len(chunks)-1]) == len(vals))
  ensures [C16] items in order: forall(c, 0, len(chunks), forall(k, 0, len(chunks[c]), chunks[c][k] == vals[times(c, len(chunks[0])) + k]))
  inv (S [][]*node.Node, I int) forall(c, 0, len(S), len(S[c]) > 0)
  inv (S [][]*node.Node, n int) forall(c, 0, len(S)-1, len(S[c]) == n)
  inv (S [][]*node.Node, n int) imp(len(S) > 0, len(S[len(S)-1]) <= n)
  inv (S [][]*node.Node, n int, I int) I == times(len(S), n) || I == len(vals)
  inv (S [][]*node.Node, n int, I int) imp(len(S) > 0, I == times(len(S)-1, n) + len(S[len(S)-1]))
  inv (S [][]*node.Node, n int) forall(c, 0, len(S), forall(k, 0, len(S[c]), S[c][k] == vals[times(c, n) + k]))
  inv (S [][]*node.Node) forall(c, 0, len(S), fresh(S[c]))
  inv (T []*node.Node, v []*node.Node, I int) len(T) == I + 1 && forall(k, 0, len(T), T[k] == v[k])
  inv (T []*node.Node) fresh(T) || cap(T) == 0
  inv (s [][]*node.Node, T []*node.Node) forall(c, 0, len(s), base(s[c]) != base(T))
  inv (S [][]*node.Node, I int) iff(len(S) == 0, I == 0)

# the chunks contain every item once, in order: chunk c starts where the chunks before it end
func chunkInstances(vals, concurrency) (chunks)
  safe
  requires concurrency > 0
  ensures [C16] every chunk holds something: forall(c, 0, len(chunks), len(chunks[c]) > 0)
  ensures [C16] nothing to do gives no chunks: iff(len(chunks) == 0, len(vals) == 0)
  ensures [C16] chunks have one size but the last: forall(c, 0, len(chunks)-1, len(chunks[c]) == len(chunks[0]) && len(chunks[len(chunks)-1]) <= len(chunks[0]))
  ensures [C16] the chunks hold every item: imp(len(chunks) > 0, times(len(chunks)-1, len(chunks[0])) + len(chunks[len(chunks)-1]) == len(vals))
  ensures [C16] items in order: forall(c, 0, len(chunks), forall(k, 0, len(chunks[c]), chunks[c][k] == vals[times(c, len(chunks[0])) + k]))
  inv (S [][]*ConstDP, I int) forall(c, 0, len(S), len(S[c]) > 0)
  inv (S [][]*ConstDP, n int) forall(c, 0, len(S)-1, len(S[c]) == n)
  inv (S [][]*ConstDP, n int) imp(len(S) > 0, len(S[len(S)-1]) <= n)
  inv (S [][]*ConstDP, n int, I int) I == times(len(S), n) || I == len(vals)
  inv (S [][]*ConstDP, n int, I int) imp(len(S) > 0, I == times(len(S)-1, n) + len(S[len(S)-1]))
  inv (S [][]*ConstDP, n int) forall(c, 0, len(S), forall(k, 0, len(S[c]), S[c][k] == vals[times(c, n) + k]))
  inv (S [][]*ConstDP) forall(c, 0, len(S), fresh(S[c]))
  inv (T []*ConstDP, v []*ConstDP, I int) len(T) == I + 1 && forall(k, 0, len(T), T[k] == v[k])
  inv (T []*ConstDP) fresh(T) || cap(T) == 0
  inv (s [][]*ConstDP, T []*ConstDP) forall(c, 0, len(s), base(s[c]) != base(T))
  inv (S [][]*ConstDP, I int) iff(len(S) == 0, I == 0)
