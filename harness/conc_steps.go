// +build verif

package main

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

func init() {
	onStep = func(f func()) {
		if f == nil {
			hclsyntax.VerifStep = nil
			return
		}
		hclsyntax.VerifStep = func(string, *hcl.EvalContext) { f() }
	}
}
