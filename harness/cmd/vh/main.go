// Command vh runs the property checks.
package main

import (
	"verif/harness/pbt"
	_ "verif/harness/props"
)

func main() { pbt.Main() }
