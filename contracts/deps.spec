# Assumed contracts of the dependencies (github.com/intdxdt/...).  Bodies are
# outside /repo: they are trusted, and listed as such in the evidence.
package geom

func NewLineString(coordinates) (ln)
  trusted
  requires coordinates.Len() >= 2
  ensures fresh(ln) && !isnil(ln)
  ensures same(ln.Coordinates, coordinates)
  ensures all(g, Geometry, ln.Intersects(g) == lineAt(coordinates, g))

func Coordinates(c) (r)
  trusted
  ensures base(r.Pnts) == base(c) && off(r.Pnts) == off(c) && len(r.Pnts) == len(c) && cap(r.Pnts) == len(c)
  ensures len(r.Idxs) == len(c) && forall(k, 0, len(c), r.Idxs[k] == k) && (fresh(r.Idxs) || cap(r.Idxs) == 0)

# sorts a copy of the index list; writes nothing that existed before
func ConvexHull(points) (h)
  trusted

package rng
