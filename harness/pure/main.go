// Command pure holds the checks that drive exported functions of the packages directly.
package main

import (
	"os"

	"verif.local/harness/mc"
)

var checks []mc.Check

func add(c mc.Check) { checks = append(checks, c) }

// more holds further drivers of checks, by id.
var more = map[string][]mc.Driver{}

func extend(id string, ds ...mc.Driver) { more[id] = append(more[id], ds...) }

func main() {
	for i := range checks {
		checks[i].Drivers = append(checks[i].Drivers, more[checks[i].ID]...)
	}
	os.Exit(mc.Child(checks))
}
