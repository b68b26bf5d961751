package main

import (
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/server"
)

func main() { mc.Main(server.All) }
