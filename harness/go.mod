module verif

go 1.23.0

require (
	github.com/alexander-yu/stream v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/gammazero/deque v0.2.1 // indirect
	github.com/hashicorp/errwrap v1.0.0 // indirect
	github.com/hashicorp/go-multierror v1.0.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/workiva/go-datastructures v1.0.50 // indirect
)

replace github.com/alexander-yu/stream => /repo
