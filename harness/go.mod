module verif/harness

go 1.23

require (
	github.com/rossmerr/graphblas v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/rossmerr/graphblas => /repo
