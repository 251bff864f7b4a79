package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// Loop invariants and hooks name local variables of the code they were written for; contracts/baseline.json lists
// the locals of each function then. When a variable was renamed, or a loop moved to a helper function, the names are
// mapped to the variables of the current code by type and order. A wrong guess costs a proof, never soundness:
// requires and ensures name parameters and results by position only.

type local struct {
	Name string
	Type string
}

func (P *Prog) typeText(t types.Type) string {
	return types.TypeString(t, types.RelativeTo(P.pkg))
}

// isNewHelper: a function without contract that the code the contracts were written for does not have.
func (P *Prog) isNewHelper(key string) bool {
	if P.baseline == nil || P.S.contracts[key] != nil || P.S.ifaces[key] != nil || P.funcs[key] == nil {
		return false
	}
	_, old := P.baseline[key]
	return !old
}

// locals lists the variables declared in a function in order, with those of new helpers where they are called.
func (P *Prog) locals(decl *ast.FuncDecl, helpers bool, depth int) []local {
	var r []local
	def := func(n ast.Node) {
		ast.Inspect(n, func(a ast.Node) bool {
			switch c := a.(type) {
			case *ast.Ident:
				if v, ok := P.info.Defs[c].(*types.Var); ok && !v.IsField() && c.Name != "_" {
					r = append(r, local{c.Name, P.typeText(v.Type())})
				}
			case *ast.CallExpr:
				if !helpers || depth > 3 {
					return true
				}
				if k := P.calleeKey(c); k != "" && P.isNewHelper(k) {
					r = append(r, P.helperLocals(k, depth)...)
				}
			}
			return true
		})
	}
	if depth > 0 {
		if decl.Recv != nil {
			def(decl.Recv)
		}
		def(decl.Type)
	}
	if decl.Body != nil {
		def(decl.Body)
	}
	return r
}

func (P *Prog) helperLocals(k string, depth int) []local {
	d := P.funcs[k]
	if d == nil || d.Body == nil {
		return nil
	}
	return P.locals(d, true, depth+1)
}

func (P *Prog) calleeKey(c *ast.CallExpr) string {
	var o types.Object
	switch f := c.Fun.(type) {
	case *ast.Ident:
		o = P.info.ObjectOf(f)
	case *ast.SelectorExpr:
		o = P.info.ObjectOf(f.Sel)
	}
	if f, ok := o.(*types.Func); ok && f.Pkg() == P.pkg {
		return funcKey(f)
	}
	return ""
}

// outline is what is recorded of a function: its local variables, what those are that are set once, and for each
// loop the variables that it assigns.
type outline struct {
	Locals []local
	Loops  [][]string
	Defs   map[string]string `json:",omitempty"` // variables that are set once
	Starts map[string]string `json:",omitempty"` // loop variables that do not start from zero: by loop and name
}

func (P *Prog) writeBaseline(verif string) error {
	m := map[string]*outline{}
	for k, d := range P.funcs {
		o := &outline{Locals: P.locals(d, false, 0), Loops: [][]string{}}
		if o.Locals == nil {
			o.Locals = []local{}
		}
		o.Defs = P.setOnce(d)
		if d.Body != nil {
			n := 0
			t := P.numberLoops(d.Body, &n, 0)
			o.Loops = make([][]string, n)
			for l, i := range t.ords {
				as := map[string]bool{}
				for v := range P.assigned(l) {
					as[v.Name()] = true
				}
				o.Loops[i-1] = sortedSet(as)
				if o.Loops[i-1] == nil {
					o.Loops[i-1] = []string{}
				}
				if f, ok := l.(*ast.ForStmt); ok {
					if a, ok := f.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
						if e := types.ExprString(a.Rhs[0]); e != "0" && parseSE(e) != nil {
							if o.Starts == nil {
								o.Starts = map[string]string{}
							}
							o.Starts[fmt.Sprintf("%d %s", i, types.ExprString(a.Lhs[0]))] = e
						}
					}
				}
			}
		}
		m[k] = o
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "contracts", "baseline.json"), append(b, '\n'), 0644)
}

func (P *Prog) readBaseline(verif string) {
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "baseline.json"))
	if err != nil {
		return
	}
	m := map[string]*outline{}
	if json.Unmarshal(b, &m) == nil {
		P.baseline = m
	}
}

// setOnce gives the expressions of variables that are defined in one place and not assigned elsewhere.
func (P *Prog) setOnce(d *ast.FuncDecl) map[string]string {
	if d.Body == nil {
		return nil
	}
	def := map[string]string{}
	count := map[string]int{}
	ast.Inspect(d.Body, func(a ast.Node) bool {
		switch c := a.(type) {
		case *ast.AssignStmt:
			for i, e := range c.Lhs {
				id, ok := e.(*ast.Ident)
				if !ok {
					continue
				}
				count[id.Name]++
				if c.Tok != token.DEFINE {
					count[id.Name]++
					continue
				}
				if len(c.Lhs) == len(c.Rhs) {
					def[id.Name] = types.ExprString(c.Rhs[i])
				} else if call, ok := c.Rhs[0].(*ast.CallExpr); ok && len(c.Lhs) == 2 {
					if se, ok := call.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Dims" {
						def[id.Name] = []string{"rows", "cols"}[i] + "(" + types.ExprString(se.X) + ")"
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := c.X.(*ast.Ident); ok {
				count[id.Name] += 2
			}
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{c.Key, c.Value} {
				if id, ok := e.(*ast.Ident); ok {
					count[id.Name] += 2
				}
			}
		case *ast.ValueSpec:
			for i, id := range c.Names {
				count[id.Name]++
				if len(c.Values) == len(c.Names) {
					def[id.Name] = types.ExprString(c.Values[i])
				}
			}
		}
		return true
	})
	r := map[string]string{}
	for n, e := range def {
		if count[n] == 1 && n != "_" && parseSE(e) != nil {
			r[n] = e
		}
	}
	return r
}

// parseSE reads a Go expression as one of the specification language, if it is one.
func parseSE(src string) (e SE) {
	defer func() {
		if recover() != nil {
			e = nil
		}
	}()
	p := &parser_{file: "baseline", src: src, toks: lexSpec("baseline", src)}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil
	}
	return e
}

// assigned gives the variables that a loop assigns, its own variables included.
func (P *Prog) assigned(loop ast.Node) map[types.Object]bool {
	r := map[types.Object]bool{}
	def := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if v, ok := P.info.ObjectOf(id).(*types.Var); ok {
				r[v] = true
			}
		}
	}
	ast.Inspect(loop, func(a ast.Node) bool {
		switch c := a.(type) {
		case *ast.AssignStmt:
			for _, e := range c.Lhs {
				def(e)
			}
		case *ast.IncDecStmt:
			def(c.X)
		case *ast.RangeStmt:
			if c.Key != nil {
				def(c.Key)
			}
			if c.Value != nil {
				def(c.Value)
			}
		case *ast.ValueSpec:
			for _, id := range c.Names {
				def(id)
			}
		}
		return true
	})
	return r
}

// renamed gives the names that a variable of a function of the baseline may have now.
func (x *Exec) renamed(key, name string) []string {
	if x.renames == nil {
		x.renames = map[string]map[string][]string{}
	}
	if x.renames[key] == nil {
		x.renames[key] = x.P.renames(key)
	}
	return x.renames[key][name]
}

func (P *Prog) renames(key string) map[string][]string {
	m := map[string][]string{}
	base := P.baseline[key]
	decl := P.funcs[key]
	if base == nil || decl == nil {
		return m
	}
	cur := P.locals(decl, true, 0)
	has := func(l []local, n string) bool {
		for _, v := range l {
			if v.Name == n {
				return true
			}
		}
		return false
	}
	add := func(a, b string) {
		if a != b && !inList(m[a], b) {
			m[a] = append(m[a], b)
		}
	}
	ts := map[string]bool{}
	for _, v := range base.Locals {
		ts[v.Type] = true
	}
	for _, t := range sortedSet(ts) {
		var b, c, mb, mc []string
		for _, v := range base.Locals {
			if v.Type == t {
				b = append(b, v.Name)
				if !has(cur, v.Name) && !inList(mb, v.Name) {
					mb = append(mb, v.Name)
				}
			}
		}
		for _, v := range cur {
			if v.Type == t {
				c = append(c, v.Name)
				if !has(base.Locals, v.Name) && !inList(mc, v.Name) {
					mc = append(mc, v.Name)
				}
			}
		}
		if len(b) == len(c) {
			for i := range b {
				add(b[i], c[i])
			}
		}
		if len(mb) == len(mc) {
			for i := range mb {
				add(mb[i], mc[i])
			}
		}
		for _, p := range mb {
			for _, q := range mc {
				add(p, q)
			}
		}
	}
	return m
}

// reshaped reports whether a function has other locals or loops than when its contract was written.
func (P *Prog) reshaped(key string) bool {
	base, decl := P.baseline[key], P.funcs[key]
	if base == nil || decl == nil || decl.Body == nil {
		return false
	}
	n := 0
	t := P.numberLoops(decl.Body, &n, 0)
	if n != len(base.Loops) || len(t.calls) > 0 {
		return true
	}
	cur := P.locals(decl, true, 0)
	if len(cur) != len(base.Locals) {
		return true
	}
	for i := range cur {
		if cur[i] != base.Locals[i] {
			return true
		}
	}
	return false
}

func inList(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

// ordTree numbers the loops of a function, counting those of new helpers where they are called.
type ordTree struct {
	ords  map[ast.Node]int
	calls map[*ast.CallExpr]*ordTree
}

func (P *Prog) numberLoops(body ast.Node, n *int, depth int) *ordTree {
	t := &ordTree{ords: map[ast.Node]int{}, calls: map[*ast.CallExpr]*ordTree{}}
	ast.Inspect(body, func(a ast.Node) bool {
		switch c := a.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			*n++
			t.ords[a] = *n
		case *ast.CallExpr:
			if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Shuffle" {
				*n++
				t.ords[a] = *n
			}
			if k := P.calleeKey(c); k != "" && depth < 4 && P.isNewHelper(k) && P.funcs[k].Body != nil {
				t.calls[c] = P.numberLoops(P.funcs[k].Body, n, depth+1)
			}
		}
		return true
	})
	return t
}

// adopt makes the frame of a new helper part of the function that calls it.
func (x *Exec) adopt(fr, caller *frame, c *ast.CallExpr) {
	if caller == nil || c == nil || caller.tree == nil {
		return
	}
	t := caller.tree.calls[c]
	if t == nil {
		return
	}
	fr.tree = t
	fr.ords = t.ords
	fr.adopted = caller
	fr.callPos = c.Pos()
	fr.spec = caller.spec
	fr.path = caller.path
	fr.hook = caller.hook
}

// owner is the frame whose contract a frame works under.
func (fr *frame) owner() *frame {
	for fr.adopted != nil {
		fr = fr.adopted
	}
	return fr
}

// resolve looks a local name up at a position, then where the enclosing helpers were called.
func (x *Exec) resolve(name string, pos token.Pos, fr *frame, st *State) types.Object {
	at := pos
	for f := x.frameAt(pos, fr); ; f = f.adopted {
		if sc := x.P.pkg.Scope().Innermost(at); sc != nil {
			if _, o := sc.LookupParent(name, at); o != nil {
				if _, ok := st.vars[o]; ok || o.Parent() == x.P.pkg.Scope() || o.Parent() == types.Universe {
					if ok || f == nil || f.adopted == nil {
						return o
					}
				} else if f == nil || f.adopted == nil {
					return o
				}
			}
		}
		if f == nil || f.adopted == nil {
			return nil
		}
		at = f.callPos
	}
}

// frameAt finds the frame of the running code that pos lies in.
func (x *Exec) frameAt(pos token.Pos, fr *frame) *frame {
	for i := len(x.frames) - 1; i >= 0; i-- {
		f := x.frames[i]
		if f.body != nil && f.body.Pos() <= pos && pos <= f.body.End() {
			return f
		}
	}
	return fr
}

// missingHelper: an unexported function that the code no longer has.
func (P *Prog) missingHelper(key string) bool {
	if P.funcs[key] != nil {
		return false
	}
	n := key
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n != "" && !ast.IsExported(n)
}
