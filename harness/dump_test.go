package harness

import (
	"os"
	"runtime/pprof"
)

func panicDump() { _ = pprof.Lookup("goroutine").WriteTo(os.Stderr, 2) }
