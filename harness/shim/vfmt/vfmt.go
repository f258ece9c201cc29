// Package vfmt formats what the code prints and hands it to the record.
package vfmt

import (
	"fmt"

	"verif.local/harness/shim/vrt"
)

func Print(a ...interface{}) (int, error)            { return say(fmt.Sprint(a...)) }
func Println(a ...interface{}) (int, error)          { return say(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) (int, error) { return say(fmt.Sprintf(f, a...)) }

func say(s string) (int, error) {
	vrt.SimPrint(s)
	return len(s), nil
}
