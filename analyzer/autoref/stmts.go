package main

import (
	"go/ast"

	"golang.org/x/tools/go/ast/astutil"
)

// astutilStmts rewrites simple statements wherever they occur (loop posts included).
func astutilStmts(t *T, f func(s ast.Stmt) ast.Stmt) {
	astutil.Apply(t.fd.Body, nil, func(c *astutil.Cursor) bool {
		if s, ok := c.Node().(ast.Stmt); ok && s != nil {
			if r := f(s); r != s {
				c.Replace(r)
			}
		}
		return true
	})
}
