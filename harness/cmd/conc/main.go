package main

import (
	"github.com/flowchartsman/aql/zz_verif/conc/check"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func main() { mc.Main(check.All) }
