package main

import (
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/wasm"
)

func main() { mc.Main(wasm.All) }
