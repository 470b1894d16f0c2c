package offset

property C03: offset.maxOffset offset.MaxOffset offset.SquareMaxOffset offset.maxSEDOffset offset.MaxSEDOffset offset.SqureMaxSEDOffset

# every index of the sequence points into its points
pred indexed(c geom.Coords) = forall(j, 0, len(c.Idxs), 0 <= c.Idxs[j] && c.Idxs[j] < len(c.Pnts))

func maxOffset(coordinates, distFn) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, distFn(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == distFn(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k)))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, distFn(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) <= d)
  inv (k int, d float64, i int) forall(j, 1, i, distFn(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) <= d)
  inv (k int, d float64, i int) imp(i > 1, 0 < k && k < i)
  inv (k int, d float64, i int) imp(i > 1, d == distFn(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k)))
  inv (i int, d float64) imp(i <= 1, d == 0.0)

# the deviation of the interior vertices is a number and not negative (finite coordinates)
func MaxOffset(coordinates) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, geom.DistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == geom.DistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k)))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, geom.DistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) <= d)

func SquareMaxOffset(coordinates) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, geom.SquareDistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == geom.SquareDistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k)))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, geom.SquareDistanceToPoint(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) <= d)

# position of the synchronised point on the chord a-b for the vertex p, as direction and distance from a
pred sedDx(a *geom.Point, b *geom.Point, p *geom.Point) = p[0] - (a[0] + sedRun(a, b, p) * math.Cos(sedDir(a, b)))
pred sedDy(a *geom.Point, b *geom.Point, p *geom.Point) = p[1] - (a[1] + sedRun(a, b, p) * math.Sin(sedDir(a, b)))
pred sedAt(a *geom.Point, b *geom.Point, p *geom.Point, f func(float64, float64) float64) = f(sedDx(a, b, p), sedDy(a, b, p))
pred sedSqr(a *geom.Point, b *geom.Point, p *geom.Point) = sedDx(a, b, p) * sedDx(a, b, p) + sedDy(a, b, p) * sedDy(a, b, p)
# the run along the chord is proportional to the elapsed time; a chord without duration has no run
pred sedRun(a *geom.Point, b *geom.Point, p *geom.Point) = ite(b[2] - a[2] == 0.0, 0.0, vect.NewVector(*a, *b).Magnitude() / (b[2] - a[2])) * (p[2] - a[2])
pred sedDir(a *geom.Point, b *geom.Point) = ite(math.Atan2(b[1] - a[1], b[0] - a[0]) < 0.0, math.Atan2(b[1] - a[1], b[0] - a[0]) + math.Tau, math.Atan2(b[1] - a[1], b[0] - a[0]))

func maxSEDOffset(coordinates, hypotFn) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j), hypotFn) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k), hypotFn))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j), hypotFn) <= d)
  inv (k int, d float64, i int) forall(j, 1, i, sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j), hypotFn) <= d)
  inv (k int, d float64, i int) imp(i > 1, 0 < k && k < i)
  inv (k int, d float64, i int) imp(i > 1, d == sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k), hypotFn))
  inv (i int, d float64) imp(i <= 1, d == 0.0)

func MaxSEDOffset(coordinates) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j), hypot) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k), hypot))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, sedAt(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j), hypot) <= d)

func SqureMaxSEDOffset(coordinates) (k, d)
  safe
  requires coordinates.Len() >= 1 && indexed(coordinates)
  requires forall(j, 1, coordinates.Len()-1, sedSqr(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) >= 0.0)
  ensures [C03] no interior vertex gives the last index and no deviation: imp(coordinates.Len() <= 2, k == coordinates.Len()-1 && d == 0.0)
  ensures [C03] the reported vertex is strictly interior: imp(coordinates.Len() > 2, 0 < k && k < coordinates.Len()-1)
  ensures [C03] the deviation is attained at the reported vertex: imp(coordinates.Len() > 2, d == sedSqr(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(k)))
  ensures [C03] no interior vertex deviates more: forall(j, 1, coordinates.Len()-1, sedSqr(coordinates.Pt(0), coordinates.Pt(coordinates.Len()-1), coordinates.Pt(j)) <= d)
