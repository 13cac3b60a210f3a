//go:debug panicnil=1

// Command vrun runs the checks, see package run
package main

import (
	"vh/checks"
	"vh/run"
)

func main() { run.Main(checks.All) }
