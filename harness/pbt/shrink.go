package pbt

import "time"

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// shrink minimises a failing choice sequence in shortlex order.
func shrink(c []uint64, fails func([]uint64) ([]uint64, bool), maxRuns int, maxTime time.Duration) []uint64 {
	deadline := time.Now().Add(maxTime)
	runs := 0
	best := append([]uint64(nil), c...)
	try := func(cand []uint64) bool {
		if runs >= maxRuns || time.Now().After(deadline) {
			return false
		}
		if !less(cand, best) {
			return false
		}
		runs++
		used, bad := fails(cand)
		if !bad {
			return false
		}
		if less(used, cand) {
			cand = used
		}
		best = append([]uint64(nil), cand...)
		return true
	}
	for improved := true; improved && runs < maxRuns && time.Now().Before(deadline); {
		improved = false
		// drop blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				cand := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(cand) {
					improved = true
				} else {
					i += size
				}
			}
			if size > 16 {
				continue
			}
		}
		// zero blocks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				cand := append([]uint64(nil), best...)
				z := true
				for k := i; k < i+size; k++ {
					z = z && cand[k] == 0
					cand[k] = 0
				}
				if !z && try(cand) {
					improved = true
				}
			}
		}
		// lower single choices
		for i := 0; i < len(best); i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				cand := append([]uint64(nil), best...)
				cand[i] = mid
				if try(cand) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}
