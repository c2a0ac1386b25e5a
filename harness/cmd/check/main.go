// Command check decides one property of alexander-yu/stream by generated-input search.
package main

import (
	"verif/engine"
	_ "verif/props"
)

func main() { engine.Main() }
