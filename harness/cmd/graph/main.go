package main

import (
	"github.com/flowchartsman/aql/zz_verif/graphs"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func main() { mc.Main(graphs.All) }
