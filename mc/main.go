// Command mc runs the model-checking jobs of one property; see package cli.
package main

import (
	"verif/mc/cli"
	_ "verif/mc/props"
)

func main() { cli.Main() }
