package main

import (
	"github.com/flowchartsman/aql/zz_verif/cli"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func main() { mc.Main(cli.All) }
