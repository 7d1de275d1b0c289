// Package props holds the monitors, one per property of ../../properties.jsonl.
package props

import (
	"math/rand"

	"github.com/RH12503/Triangula/normgeom"

	"verif/harness/geo"
	"verif/harness/wl"
)

// normPoints draws n normalised points and the pixel positions they stand for.
func normPoints(r *rand.Rand, pl *wl.Placer, n, w, h int) (normgeom.NormPointGroup, []geo.P) {
	np := make(normgeom.NormPointGroup, 0, n)
	pts := make([]geo.P, 0, n)
	jit := r.Intn(2) == 0
	for len(np) < n {
		p := wl.Norm(r, pl.Next(), w, h, jit)
		if wl.Ambiguous(p, w, h) {
			continue
		}
		np = append(np, p)
		pts = append(pts, wl.Pix(p, w, h))
	}
	return np, pts
}
