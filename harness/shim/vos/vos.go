// Package vos turns the end of the process into the end of the goroutine that asks for it.
package vos

import "verif.local/harness/shim/vrt"

// Exit unwinds the calling goroutine with the exit code.
func Exit(code int) { panic(vrt.SimExit{Code: code}) }
