package main

import (
	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func main() { mc.Main(checks.All) }
