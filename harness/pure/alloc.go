package main

import "runtime/metrics"

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is the number of bytes allocated so far (exact for large objects, which is what matters here).
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}
