// Package vstep counts the steps of the library in the counting build (see cmd/stepgen): one per function entry and
// loop iteration, and one per element moved by copy or a variadic append.
package vstep

// N is the number of steps so far. Measured code runs on one goroutine.
var N int64

// Mode is "step" in the counting build.
var Mode = ""

// Copy counts the elements a copy moved.
func Copy(n int) int {
	N += int64(n)
	return n
}

// App counts the elements a variadic append moved.
func App[S any](s S, n int) S {
	N += int64(n)
	return s
}
