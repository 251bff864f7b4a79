package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string // symbol or operator
	args []*Term
	sort string
	id   int
	// quantifiers: op "forall"/"exists", binders are constants, args[0] is the body
	bound []*Term
	pats  [][]*Term
	fv    []*Term // bound variables (constants with bvar flag) occurring free, sorted by id
	isVar bool    // a bound variable
	lit   bool    // literal
	seq   int     // creation sequence of fresh constants (0: global)
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SReal = "Real"
	SStr  = "Str"
	SBV8  = "(_ BitVec 8)"
)

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	rest := s[len("(Array ") : len(s)-1]
	// split the index sort
	d := 0
	for i, c := range rest {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return rest[i+1:]
		}
	}
	panic("bad sort " + s)
}
func indexSort(s string) string {
	rest := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range rest {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return rest[:i]
		}
	}
	panic("bad sort " + s)
}

var (
	termTab   = map[string]*Term{}
	termCount = 0
	freshSeq  = 0
	// declared uninterpreted function symbols: name -> signature
	funSigs = map[string]funSig{}
)

type funSig struct {
	args []string
	res  string
}

func mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: srt}
	termCount++
	t.id = termCount
	t.fv = unionFV(args)
	termTab[k] = t
	return t
}

func unionFV(args []*Term) []*Term {
	var res []*Term
	for _, a := range args {
		if len(a.fv) == 0 {
			continue
		}
		if res == nil {
			res = a.fv
			continue
		}
		m := map[int]*Term{}
		for _, v := range res {
			m[v.id] = v
		}
		ch := false
		for _, v := range a.fv {
			if m[v.id] == nil {
				m[v.id] = v
				ch = true
			}
		}
		if ch {
			r := make([]*Term, 0, len(m))
			for _, v := range m {
				r = append(r, v)
			}
			sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
			res = r
		}
	}
	return res
}

func mkLit(s, srt string) *Term {
	t := mk(s, srt)
	t.lit = true
	return t
}

func mkInt(n int64) *Term { return mkBigInt(big.NewInt(n)) }
func mkBigInt(n *big.Int) *Term {
	if n.Sign() < 0 {
		return mkLit("(- "+new(big.Int).Neg(n).String()+")", SInt)
	}
	return mkLit(n.String(), SInt)
}
func intVal(t *Term) (*big.Int, bool) {
	if !t.lit || t.sort != SInt {
		return nil, false
	}
	s := t.op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		r.Neg(r)
	}
	return r, true
}
func mkRat(r *big.Rat) *Term {
	a := new(big.Rat).Abs(r)
	s := a.Num().String() + ".0"
	if !a.IsInt() {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	t := mkLit(s, SReal)
	ratVals[t.id] = new(big.Rat).Set(r)
	return t
}

var ratVals = map[int]*big.Rat{}

func ratVal(t *Term) (*big.Rat, bool) {
	if t.sort != SReal {
		return nil, false
	}
	r, ok := ratVals[t.id]
	return r, ok
}

var tTrue = mkLit("true", SBool)
var tFalse = mkLit("false", SBool)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!@%&*-+<>=?/~^", c) {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	r := b.String()
	if r == "" || r[0] >= '0' && r[0] <= '9' {
		r = "_" + r
	}
	return r
}

// fresh creates a new constant.
func fresh(prefix, srt string) *Term {
	freshSeq++
	t := mk(fmt.Sprintf("%s!%d", sanitize(prefix), freshSeq), srt)
	t.seq = freshSeq
	return t
}

// global returns a named constant that always denotes the same thing.
func global(name, srt string) *Term { return mk(sanitize(name), srt) }

func freshVar(prefix, srt string) *Term {
	freshSeq++
	t := mk(fmt.Sprintf("%s?%d", sanitize(prefix), freshSeq), srt)
	t.isVar = true
	t.fv = []*Term{t}
	return t
}

func app(name, res string, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := funSigs[name]; !ok {
		sg := funSig{res: res}
		for _, a := range args {
			sg.args = append(sg.args, a.sort)
		}
		funSigs[name] = sg
	}
	sg := funSigs[name]
	if len(sg.args) != len(args) {
		panic("arity mismatch for " + name)
	}
	for i := range args {
		if args[i].sort != sg.args[i] {
			panic(fmt.Sprintf("sort mismatch for %s arg %d: %s vs %s", name, i, args[i].sort, sg.args[i]))
		}
	}
	return mk(name, res, args...)
}

func not(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", SBool, a)
}
func and(ts ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t.id] {
			return true
		}
		if t.op == "and" && len(t.bound) == 0 {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		r = append(r, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range r {
		if t.op == "not" && seen[t.args[0].id] {
			return tFalse
		}
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("and", SBool, r...)
}
func or(ts ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse || seen[t.id] {
			continue
		}
		seen[t.id] = true
		r = append(r, t)
	}
	for _, t := range r {
		if t.op == "not" && seen[t.args[0].id] {
			return tTrue
		}
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("or", SBool, r...)
}
func implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return mk("=>", SBool, a, b)
}
func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			return eq(toReal(a), b)
		}
		if b.sort == SInt && a.sort == SReal {
			return eq(a, toReal(b))
		}
		panic(fmt.Sprintf("eq: sorts %s and %s: %s ; %s", a.sort, b.sort, show(a), show(b)))
	}
	if a.lit && b.lit {
		if x, ok := intVal(a); ok {
			if y, ok := intVal(b); ok {
				return mkBool(x.Cmp(y) == 0)
			}
		}
		if x, ok := ratVal(a); ok {
			if y, ok := ratVal(b); ok {
				return mkBool(x.Cmp(y) == 0)
			}
		}
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	return mk("=", SBool, a, b)
}
func ne(a, b *Term) *Term { return not(eq(a, b)) }
func ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			a = toReal(a)
		} else if b.sort == SInt && a.sort == SReal {
			b = toReal(b)
		} else {
			panic("ite sorts " + a.sort + " " + b.sort)
		}
	}
	if a.sort == SBool {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}
func toReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if n, ok := intVal(a); ok {
		return mkRat(new(big.Rat).SetInt(n))
	}
	return mk("to_real", SReal, a)
}
func numPair(a, b *Term) (*Term, *Term) {
	if a.sort == SReal || b.sort == SReal {
		return toReal(a), toReal(b)
	}
	return a, b
}
func add(a, b *Term) *Term {
	a, b = numPair(a, b)
	if a.sort == SInt {
		x, ok1 := intVal(a)
		y, ok2 := intVal(b)
		if ok1 && ok2 {
			return mkBigInt(new(big.Int).Add(x, y))
		}
		if ok1 && x.Sign() == 0 {
			return b
		}
		if ok2 && y.Sign() == 0 {
			return a
		}
		// (x + c1) + c2
		if ok2 && a.op == "+" && len(a.args) == 2 {
			if z, ok := intVal(a.args[1]); ok {
				return add(a.args[0], mkBigInt(new(big.Int).Add(z, y)))
			}
		}
	} else {
		x, ok1 := ratVal(a)
		y, ok2 := ratVal(b)
		if ok1 && ok2 {
			return mkRat(new(big.Rat).Add(x, y))
		}
		if ok1 && x.Sign() == 0 {
			return b
		}
		if ok2 && y.Sign() == 0 {
			return a
		}
	}
	return mk("+", a.sort, a, b)
}
func neg(a *Term) *Term {
	if x, ok := intVal(a); ok {
		return mkBigInt(new(big.Int).Neg(x))
	}
	if x, ok := ratVal(a); ok {
		return mkRat(new(big.Rat).Neg(x))
	}
	if a.op == "-" && len(a.args) == 1 {
		return a.args[0]
	}
	return mk("-", a.sort, a)
}
func sub(a, b *Term) *Term {
	a, b = numPair(a, b)
	if a == b {
		if a.sort == SInt {
			return mkInt(0)
		}
		return mkRat(new(big.Rat))
	}
	if y, ok := intVal(b); ok {
		return add(a, mkBigInt(new(big.Int).Neg(y)))
	}
	if y, ok := ratVal(b); ok && y.Sign() == 0 {
		return a
	}
	if x, ok := ratVal(a); ok {
		if y, ok := ratVal(b); ok {
			return mkRat(new(big.Rat).Sub(x, y))
		}
	}
	return mk("-", a.sort, a, b)
}
func mul(a, b *Term) *Term {
	a, b = numPair(a, b)
	if a.sort == SInt {
		x, ok1 := intVal(a)
		y, ok2 := intVal(b)
		if ok1 && ok2 {
			return mkBigInt(new(big.Int).Mul(x, y))
		}
		if ok2 && !ok1 {
			a, b = b, a
			x, ok1 = y, true
			ok2 = false
		}
		if ok1 {
			if x.Sign() == 0 {
				return mkInt(0)
			}
			if x.IsInt64() && x.Int64() == 1 {
				return b
			}
			return mk("*", SInt, a, b)
		}
		return app("imul", SInt, a, b)
	}
	x, ok1 := ratVal(a)
	y, ok2 := ratVal(b)
	if ok1 && ok2 {
		return mkRat(new(big.Rat).Mul(x, y))
	}
	if ok2 && !ok1 {
		a, b = b, a
		x, ok1 = y, true
	}
	if ok1 {
		if x.Sign() == 0 {
			return a
		}
		if x.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		return mk("*", SReal, a, b)
	}
	return app("rmul", SReal, a, b)
}
func rdiv(a, b *Term) *Term {
	a, b = toReal(a), toReal(b)
	if y, ok := ratVal(b); ok && y.Sign() != 0 {
		if x, ok := ratVal(a); ok {
			return mkRat(new(big.Rat).Quo(x, y))
		}
		return mul(mkRat(new(big.Rat).Inv(y)), a)
	}
	return app("rdiv", SReal, a, b)
}

// truncated integer division as in Go
func idiv(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && y.Sign() != 0 {
		return mkBigInt(new(big.Int).Quo(x, y))
	}
	if ok2 && y.Sign() > 0 {
		return ite(le(mkInt(0), a), mk("div", SInt, a, b), neg(mk("div", SInt, neg(a), b)))
	}
	return app("idivt", SInt, a, b)
}
func imod(a, b *Term) *Term {
	y, ok2 := intVal(b)
	if ok2 && y.Sign() > 0 {
		return sub(a, mul(b, idiv(a, b)))
	}
	return app("imodt", SInt, a, b)
}
func cmpLit(a, b *Term) (int, bool) {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return x.Cmp(y), true
		}
	}
	if x, ok := ratVal(a); ok {
		if y, ok := ratVal(b); ok {
			return x.Cmp(y), true
		}
	}
	return 0, false
}
func lt(a, b *Term) *Term {
	a, b = numPair(a, b)
	if a == b {
		return tFalse
	}
	if c, ok := cmpLit(a, b); ok {
		return mkBool(c < 0)
	}
	return mk("<", SBool, a, b)
}
func le(a, b *Term) *Term {
	a, b = numPair(a, b)
	if a == b {
		return tTrue
	}
	if c, ok := cmpLit(a, b); ok {
		return mkBool(c <= 0)
	}
	return mk("<=", SBool, a, b)
}
func gt(a, b *Term) *Term { return lt(b, a) }
func ge(a, b *Term) *Term { return le(b, a) }

func sel(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctLits(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", elemSort(a.sort), a, i)
}
func distinctLits(a, b *Term) bool {
	if a.lit && b.lit {
		return eq(a, b) == tFalse
	}
	return false
}
func store(a, i, v *Term) *Term {
	if v.sort != elemSort(a.sort) {
		if v.sort == SInt && elemSort(a.sort) == SReal {
			v = toReal(v)
		} else {
			panic("store sorts: " + a.sort + " " + v.sort)
		}
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", a.sort, a, i, v)
}
func constArr(srt string, v *Term) *Term {
	return mk("constarr", srt, v)
}

func quant(kind string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if len(vars) == 0 {
		return body
	}
	if body == tTrue || body == tFalse {
		return body
	}
	var b strings.Builder
	b.WriteString(kind)
	for _, v := range vars {
		fmt.Fprintf(&b, "|%d", v.id)
	}
	fmt.Fprintf(&b, "#%d", body.id)
	for _, p := range pats {
		b.WriteString(";")
		for _, t := range p {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: kind, args: []*Term{body}, sort: SBool, bound: vars, pats: pats}
	termCount++
	t.id = termCount
	bs := map[int]bool{}
	for _, v := range vars {
		bs[v.id] = true
	}
	for _, v := range body.fv {
		if !bs[v.id] {
			t.fv = append(t.fv, v)
		}
	}
	termTab[k] = t
	return t
}
func forall(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", vars, pats, body) }
func exists(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("exists", vars, pats, body) }

// subst replaces constants/variables by terms (by id).
func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if len(t.bound) > 0 {
			body := rec(t.args[0])
			ps := make([][]*Term, len(t.pats))
			for i, p := range t.pats {
				for _, x := range p {
					ps[i] = append(ps[i], rec(x))
				}
			}
			r = quant(t.op, t.bound, ps, body)
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				switch t.op {
				case "select":
					r = sel(as[0], as[1])
				default:
					r = mk(t.op, t.sort, as...)
				}
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func show(t *Term) string {
	var p printer
	p.names = map[int]string{}
	s := p.str(t)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

type printer struct {
	names map[int]string
}

func (p *printer) str(t *Term) string {
	var b strings.Builder
	p.write(&b, t)
	return b.String()
}

func (p *printer) write(b *strings.Builder, t *Term) {
	if n, ok := p.names[t.id]; ok {
		b.WriteString(n)
		return
	}
	p.writeBody(b, t)
}
func (p *printer) writeBody(b *strings.Builder, t *Term) {
	if len(t.bound) > 0 {
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + v.op + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		p.write(b, t.args[0])
		for _, pt := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					b.WriteString(" ")
				}
				p.write(b, x)
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	if t.op == "constarr" {
		b.WriteString("((as const " + t.sort + ") ")
		p.write(b, t.args[0])
		b.WriteString(")")
		return
	}
	b.WriteString("(" + t.op)
	for _, a := range t.args {
		b.WriteString(" ")
		p.write(b, a)
	}
	b.WriteString(")")
}
