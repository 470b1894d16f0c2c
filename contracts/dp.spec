package dp

property C02: dp.DouglasPeucker.ScoreRelation dp.DouglasPeucker.SquareScoreRelation constdp.ConstDP.Decompose dp.DouglasPeucker.Decompose

func DouglasPeucker.ScoreRelation(dp, val) (b)
  safe
  requires !isnil(dp) && !isnil(dp.Opts)
  ensures [C02] plain score against the threshold: b == (val <= dp.Opts.Threshold)

func DouglasPeucker.SquareScoreRelation(dp, val) (b)
  safe
  requires !isnil(dp) && !isnil(dp.Opts)
  ensures [C02] squared score against the squared threshold: b == (val <= dp.Opts.Threshold * dp.Opts.Threshold)

# the pieces of a line for its metric: the squared one if there is one
pred plainPieces(s *DouglasPeucker, out []node.Node) = forall(k, 0, len(out), rangecall(s.Score, s.Polyline.Coordinates.Pnts, out[k].Range.I, out[k].Range.J).r1 <= s.Opts.Threshold)
pred squarePieces(s *DouglasPeucker, out []node.Node) = forall(k, 0, len(out), rangecall(s.SquareScore, s.Polyline.Coordinates.Pnts, out[k].Range.I, out[k].Range.J).r1 <= s.Opts.Threshold * s.Opts.Threshold)
pred lineOk(s *DouglasPeucker) = !isnil(s) && !isnil(s.Opts) && !isnil(s.Polyline) && imp(!isnil(s.Polyline.LineString), len(s.Polyline.Coordinates.Idxs) >= 1 && firstOf(s.Polyline) < lastOf(s.Polyline))
# the metrics divide at interior vertices whatever the threshold refuses
pred metricOk(s *DouglasPeucker) =
  all(i, int, all(j, int, imp(i < j && !(rangecall(s.Score, s.Polyline.Coordinates.Pnts, i, j).r1 <= s.Opts.Threshold), 0 < rangecall(s.Score, s.Polyline.Coordinates.Pnts, i, j).r0 && rangecall(s.Score, s.Polyline.Coordinates.Pnts, i, j).r0 < j - i))) &&
  imp(!isnil(s.SquareScore), all(i, int, all(j, int, imp(i < j && !(rangecall(s.SquareScore, s.Polyline.Coordinates.Pnts, i, j).r1 <= s.Opts.Threshold * s.Opts.Threshold), 0 < rangecall(s.SquareScore, s.Polyline.Coordinates.Pnts, i, j).r0 && rangecall(s.SquareScore, s.Polyline.Coordinates.Pnts, i, j).r0 < j - i))))

pred tiles(pln *geometry.Polyline, out []node.Node) =
  len(out) > 0 && out[0].Range.I == firstOf(pln) && out[len(out)-1].Range.J == lastOf(pln) &&
  forall(k, 0, len(out)-1, out[k].Range.J == out[k+1].Range.I) &&
  forall(k, 0, len(out), out[k].Range.I < out[k].Range.J && carriesLine(out[k], pln))

func DouglasPeucker.Decompose(dp, id) (out)
  safe
  requires lineOk(dp) && metricOk(dp)
  modifies id.current
  ensures [C02] pieces satisfy the threshold: imp(isnil(dp.SquareScore), plainPieces(dp, out))
  ensures [C02] pieces satisfy the squared threshold: imp(!isnil(dp.SquareScore), squarePieces(dp, out))
  ensures [C01,C02] pieces tile the line: imp(!isnil(dp.Polyline.LineString), tiles(dp.Polyline, out))

package constdp

func ConstDP.Decompose(self, id) (out)
  safe
  requires !isnil(self) && lineOk(self.DouglasPeucker) && metricOk(self.DouglasPeucker)
  modifies id.current
  ensures [C02] pieces satisfy the threshold: imp(isnil(self.SquareScore), plainPieces(self.DouglasPeucker, out))
  ensures [C02] pieces satisfy the squared threshold: imp(!isnil(self.SquareScore), squarePieces(self.DouglasPeucker, out))
  ensures [C01,C02] pieces tile the line: imp(!isnil(self.Polyline.LineString), tiles(self.Polyline, out))
  ensures [C01,C18] pieces belong to the line: forall(k, 0, len(out), typeis(out[k].Instance, *ConstDP) && as(out[k].Instance, *ConstDP) == self)
