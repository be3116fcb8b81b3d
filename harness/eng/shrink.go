package eng

import "time"

// shrink simplifies a failing choice sequence. try regenerates a case from the
// choices and reports whether it still fails, along with the choices actually
// consumed.
func shrink(rec []uint64, try func([]uint64) (bool, []uint64), budget time.Duration, maxTries int) []uint64 {
	deadline := time.Now().Add(budget)
	tries := 0
	best := append([]uint64{}, rec...)
	attempt := func(c []uint64) bool {
		if tries >= maxTries || time.Now().After(deadline) {
			return false
		}
		tries++
		ok, used := try(c)
		if !ok {
			return false
		}
		if less(used, best) {
			best = append([]uint64{}, used...)
			return true
		}
		return false
	}
	done := func() bool { return tries >= maxTries || time.Now().After(deadline) }
	for improved := true; improved && !done(); {
		improved = false
		// delete chunks
		for size := len(best) / 2; size >= 1 && !done(); size /= 2 {
			for i := len(best) - size; i >= 0 && !done(); {
				if i+size > len(best) {
					i = len(best) - size
					if i < 0 {
						break
					}
				}
				c := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if attempt(c) {
					improved = true
				}
				i -= size
			}
		}
		// zero chunks
		for size := 8; size >= 1 && !done(); size /= 2 {
			for i := 0; i+size <= len(best) && !done(); i += size {
				nz := false
				for _, v := range best[i : i+size] {
					nz = nz || v != 0
				}
				if !nz {
					continue
				}
				c := append([]uint64{}, best...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if attempt(c) {
					improved = true
				}
			}
		}
		// lower single choices
		for i := 0; i < len(best) && !done(); i++ {
			lo, hi := uint64(0), best[i]
			for k := 0; k < 12 && lo < hi && !done(); k++ {
				mid := lo + (hi-lo)/2
				if i >= len(best) {
					break
				}
				c := append([]uint64{}, best...)
				c[i] = mid
				if attempt(c) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
