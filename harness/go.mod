module verif/harness

go 1.23

require (
	github.com/lkmio/avformat v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/lkmio/avformat => /repo
