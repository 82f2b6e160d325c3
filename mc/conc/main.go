// Command conc is mc for the properties of concurrent code. It is built with the overlay written by xform.
package main

import (
	"verif/mc/cli"
	"verif/mc/cprops"
)

// instrumented is set to "no" by the linker when the sources could not be rewritten.
var instrumented = "yes"

func main() {
	cprops.Instrumented = instrumented == "yes"
	cli.Main()
}
