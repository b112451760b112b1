// Package ft is an offline stand-in for github.com/indigo-web/utils/ft.
package ft

func Map[I, O any](f func(I) O, in []I) []O {
	out := make([]O, 0, len(in))
	for _, el := range in {
		out = append(out, f(el))
	}
	return out
}

func Sum[T int | uint | int64 | float64 | string](in []T) (sum T) {
	for _, el := range in {
		sum += el
	}
	return sum
}
