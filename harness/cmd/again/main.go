// Command again runs one replay file many times in one process and counts the
// outcomes, for failures that depend on map order or on pooled memory.
package main

import (
	"flag"
	"fmt"

	"verif/harness/pbt"
	_ "verif/harness/props"
)

func main() {
	n := flag.Int("n", 10000, "runs")
	flag.Parse()
	for k, v := range pbt.Again(flag.Arg(0), *n) {
		fmt.Println(v, k)
	}
}
