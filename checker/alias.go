package main

import "golang.org/x/tools/go/ssa"

type (
	ssaInstr     = ssa.Instruction
	ssaFunc      = ssa.Function
	ssaFieldAddr = ssa.FieldAddr
	ssaStore     = ssa.Store
	ssaGlobal    = ssa.Global
	ssaCall      = ssa.CallInstruction
)
