package sess

import (
	"os"
	"testing"

	"verif.local/harness/mc"
)

// TestMC runs one child of the explorer; every execution of it is a bubble with its own time.
func TestMC(t *testing.T) {
	top = t
	for i := range Checks {
		Checks[i].Drivers = append(Checks[i].Drivers, more[Checks[i].ID]...)
	}
	os.Exit(mc.Child(Checks))
}
