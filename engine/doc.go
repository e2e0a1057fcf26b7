package main

import (
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func funcDoc(fn *ssa.Function) string {
	fd, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return ""
	}
	return strings.Join(strings.Fields(fd.Doc.Text()), " ")
}
