package main

import (
	"go/types"
)

func types_error() types.Type { return types.Universe.Lookup("error").Type() }
func types_bool() types.Type  { return types.Typ[types.Bool] }
