package mc

import "math"

// Close tells if a and b agree within relative-and-absolute tolerance tol.
// NaNs and infinities only agree with themselves.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// CloseV is Close for vectors, relative to the largest component.
func CloseV(a, b [3]float64, tol float64) bool {
	m := 0.0
	for i := range a {
		if math.IsNaN(a[i]) || math.IsNaN(b[i]) {
			return false
		}
		m = math.Max(m, math.Max(math.Abs(a[i]), math.Abs(b[i])))
	}
	if math.IsInf(m, 0) {
		return a == b
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > tol*(1+m) {
			return false
		}
	}
	return true
}
