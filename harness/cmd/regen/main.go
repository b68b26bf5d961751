package main

import (
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/regen"
)

func main() { mc.Main(regen.All) }
