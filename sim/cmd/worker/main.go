package main

import (
	"verifsim/harness"
	_ "verifsim/props"
)

func main() { harness.Main() }
