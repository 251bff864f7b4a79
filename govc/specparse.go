package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- AST of specification expressions ----
type SE interface{}
type sId struct{ name string }
type sNum struct{ text string }
type sStr struct{ text string }
type sBin struct {
	op   string
	l, r SE
}
type sUn struct {
	op string
	x  SE
}
type sCall struct {
	fn   string
	args []SE
}
type sIdx struct{ x, i SE }
type sSel struct {
	x SE
	f string
}
type sVar struct{ name, typ string }
type sQuant struct {
	kind string
	vars []sVar
	pats [][]SE
	body SE
}
type sIf struct{ c, a, b SE }
type sLet struct {
	name string
	v, b SE
}

type Clause struct {
	name string
	e    SE
	src  string
}

type LoopSpec struct {
	paths bool // each way through the body is looked at on its own
	inv   []Clause
	step  []Clause // hold at the end of each iteration (proved there, then used for the invariants)
	brk   []Clause // hold wherever the loop is left by break
	after []Clause // hold behind the loop (proved there, then used)
	hooks []Hook
}

// Hook is proved, then used, behind each statement of the loop body (the function body, for the hooks of a
// contract) that calls the function with this name.
type Hook struct {
	callee string
	use    bool // an instance of a lemma
	Clause
}

type Contract struct {
	kind     string // func, extern, iface
	key      string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	panics   []SE
	hasPanic bool
	modifies []SE
	modAny   bool
	loops    map[int]*LoopSpec
	assumed  []Clause
	asserts  []Clause
	hooks    []Hook
	hide     map[string]bool // definitions that are not unfolded in the proof of the function
	flags    map[string]bool
	file     string
	chans    map[string]Clause
	uses     []Clause
	ghosts   []sVar // logical parameters, bound where the function is spawned
	relays   []Relay
	spawns   map[string]*Spawn
	fork     *Fork
	rely     *Rely
}

// Fork: each message received on in for which when holds is answered by n messages on the channels of gives, in order:
// k is the number of an answer. Nothing is said about messages on other channels.
type Fork struct {
	in    string
	n     int
	when  SE
	gives map[string]Clause
}

// Rely: while the lock of the parameter is free, other goroutines may change the list behind it; the clause relates
// what was (old) to what is.
type Rely struct {
	param, field, lock string
	Clause
}

// Relay: each message received on in is answered by one message on out, and the clause relates the two. With a key
// field, both carry the same key.
type Relay struct {
	in, out, key string
	owned        []string // fields of the message that the goroutine writes
	Clause
}

// Spawn: what the function says about the goroutines it starts that run callee: the logical parameters and what
// each message sent to them satisfies.
type Spawn struct {
	ghosts map[string]SE
	sends  []Clause
}

type SpecFun struct {
	name     string
	params   []sVar
	res      string
	body     SE
	uninterp bool
}
type DefMacro struct {
	name   string
	params []sVar
	body   SE
}
type Lemma struct {
	name     string
	params   []sVar
	requires []SE
	ensures  []SE
	induct   string
	trigger  [][]SE
	uses     []SE
	noauto   bool
	idx      int
}
type AxiomDecl struct {
	name string
	e    SE
	note string
}
type ViewDecl struct {
	typ        string
	v          string
	rows, cols SE
	i, j       string
	at         SE
}

// MonitorDecl: the fields of a type guarded by its lock and what they satisfy whenever the lock is free.
type MonitorDecl struct {
	typ, v, lock string
	fields       []string
	inv          SE
}
type PropDecl struct {
	id      string
	funcs   []string
	lemmas  []string
	notes   []string
	level   string
	standin []string
}

type Specs struct {
	contracts map[string]*Contract
	ifaces    map[string]*Contract
	funs      map[string]*SpecFun
	funOrder  []string
	defs      map[string]*DefMacro
	lemmas    []*Lemma
	axioms    []*AxiomDecl
	views     map[string]*ViewDecl
	props     map[string]*PropDecl
	refines   map[string][]string
	guards    map[string]string       // Type.field -> lock field
	monitors  map[string]*MonitorDecl // Type.lock
	order     []interface{}           // axioms and lemmas in textual order
}

type tok struct {
	k    string // id num str op eof
	s    string
	line int
	pos  int
}
type parser_ struct {
	file string
	src  string
	toks []tok
	p    int
}

func lexSpec(file, src string) []tok {
	var r []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			r = append(r, tok{"str", src[i+1 : j], line, i})
			i = j + 1
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1])) || src[j] == 'e' || src[j] == '-' && src[j-1] == 'e') {
				j++
			}
			r = append(r, tok{"num", src[i:j], line, i})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			r = append(r, tok{"id", src[i:j], line, i})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					r = append(r, tok{"op", o, line, i})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				r = append(r, tok{"op", string(c), line, i})
				i++
			}
		}
	}
	return append(r, tok{"eof", "", line, i})
}

func (p *parser_) peek() tok { return p.toks[p.p] }
func (p *parser_) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser_) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, msg, p.peek().s))
}
func (p *parser_) is(s string) bool {
	t := p.peek()
	return t.s == s && t.k != "str"
}
func (p *parser_) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser_) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser_) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

func (p *parser_) typeText() string {
	if p.accept("*") {
		return "*" + p.typeText()
	}
	if p.accept("[") {
		p.expect("]")
		return "[]" + p.typeText()
	}
	n := p.ident()
	if n == "seq" {
		return "seq " + p.typeText()
	}
	if n == "map" {
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "map[" + k + "]" + p.typeText()
	}
	if p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *parser_) params() []sVar {
	var r []sVar
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		p.expect(":")
		r = append(r, sVar{n, p.typeText()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

func (p *parser_) expr() SE { return p.iff() }
func (p *parser_) iff() SE {
	l := p.impl()
	for p.accept("<==>") {
		l = sBin{"<==>", l, p.impl()}
	}
	return l
}
func (p *parser_) impl() SE {
	l := p.or()
	if p.accept("==>") {
		return sBin{"==>", l, p.impl()}
	}
	return l
}
func (p *parser_) or() SE {
	l := p.and()
	for p.accept("||") {
		l = sBin{"||", l, p.and()}
	}
	return l
}
func (p *parser_) and() SE {
	l := p.cmp()
	for p.accept("&&") {
		l = sBin{"&&", l, p.cmp()}
	}
	return l
}
func (p *parser_) cmp() SE {
	l := p.add()
	var res SE
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.p++
			r := p.add()
			var c SE = sBin{t.s, l, r}
			if res == nil {
				res = c
			} else {
				res = sBin{"&&", res, c}
			}
			l = r
			continue
		}
		break
	}
	if res == nil {
		return l
	}
	return res
}
func (p *parser_) add() SE {
	l := p.mulE()
	for p.is("+") || p.is("-") {
		o := p.next().s
		l = sBin{o, l, p.mulE()}
	}
	return l
}
func (p *parser_) mulE() SE {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		l = sBin{o, l, p.unary()}
	}
	return l
}
func (p *parser_) unary() SE {
	if p.accept("!") {
		return sUn{"!", p.unary()}
	}
	if p.accept("-") {
		return sUn{"-", p.unary()}
	}
	return p.postfix()
}
func (p *parser_) postfix() SE {
	x := p.primary()
	for {
		if p.accept(".") {
			x = sSel{x, p.ident()}
		} else if p.accept("[") {
			i := p.expr()
			p.expect("]")
			x = sIdx{x, i}
		} else {
			return x
		}
	}
}
func (p *parser_) primary() SE {
	t := p.peek()
	switch {
	case t.k == "num":
		p.p++
		return sNum{t.s}
	case t.k == "str":
		p.p++
		return sStr{t.s}
	case t.s == "(":
		p.p++
		e := p.expr()
		p.expect(")")
		return e
	case t.s == "if":
		p.p++
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return sIf{c, a, b}
	case t.s == "let":
		p.p++
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		return sLet{n, v, p.expr()}
	case t.s == "forall" || t.s == "exists":
		p.p++
		q := sQuant{kind: t.s}
		for {
			n := p.ident()
			names := []string{n}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			p.expect(":")
			ty := p.typeText()
			for _, n := range names {
				q.vars = append(q.vars, sVar{n, ty})
			}
			if !p.accept(";") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var pt []SE
			for {
				pt = append(pt, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			q.pats = append(q.pats, pt)
		}
		q.body = p.expr()
		return q
	case t.k == "id":
		p.p++
		if p.accept("(") {
			c := sCall{fn: t.s}
			if t.s == "heap" || t.s == "fieldheap" {
				// heap(T): contents of all slices of T; fieldheap(T, f.comp): a field of all T
				c.args = append(c.args, sStr{p.typeText()})
				if p.accept(",") {
					f := p.ident()
					for p.accept(".") {
						f += "." + p.ident()
					}
					c.args = append(c.args, sStr{f})
				}
				p.expect(")")
				return c
			}
			if t.s == "as" || t.s == "newref" {
				c.args = append(c.args, sStr{p.typeText()})
				if !p.accept(",") {
					p.expect(")")
					return c
				}
			}
			for !p.is(")") {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return c
		}
		return sId{t.s}
	}
	p.fail("expression expected")
	return nil
}

func (p *parser_) clause() Clause {
	name := ""
	if p.peek().k == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == "op" {
		name = p.ident()
		p.expect(":")
	}
	st := p.peek().pos
	e := p.expr()
	src := strings.Join(strings.Fields(p.src[st:p.peek().pos]), " ")
	p.expect(";")
	return Clause{name, e, src}
}

func (p *parser_) nameList() []string {
	var r []string
	p.expect("(")
	for !p.is(")") {
		r = append(r, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

func (p *parser_) key() string {
	k := p.ident()
	for p.accept(".") {
		k += "." + p.ident()
	}
	if p.accept("@") {
		k += "@" + p.ident()
	}
	return k
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, ifaces: map[string]*Contract{}, funs: map[string]*SpecFun{}, defs: map[string]*DefMacro{},
		views: map[string]*ViewDecl{}, props: map[string]*PropDecl{}, refines: map[string][]string{}, guards: map[string]string{}, monitors: map[string]*MonitorDecl{}}
}

func loadSpecs(dir string) (*Specs, error) {
	S := newSpecs()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		d, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := S.parse(filepath.Base(f), string(d)); err != nil {
			return nil, err
		}
	}
	return S, nil
}

func (S *Specs) parse(file, src string) (err error) {
	p := &parser_{file: file, src: src, toks: lexSpec(file, src)}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	for p.peek().k != "eof" {
		switch kw := p.ident(); kw {
		case "spec", "uninterp":
			f := &SpecFun{name: p.ident()}
			f.params = p.params()
			p.expect(":")
			f.res = p.typeText()
			if kw == "spec" {
				p.expect("=")
				f.body = p.expr()
			} else {
				f.uninterp = true
			}
			p.expect(";")
			if S.funs[f.name] != nil {
				p.fail("duplicate spec " + f.name)
			}
			S.funs[f.name] = f
			S.funOrder = append(S.funOrder, f.name)
		case "def":
			d := &DefMacro{name: p.ident()}
			d.params = p.params()
			p.expect("=")
			d.body = p.expr()
			p.expect(";")
			if S.defs[d.name] != nil {
				p.fail("duplicate def " + d.name)
			}
			S.defs[d.name] = d
		case "axiom":
			a := &AxiomDecl{name: p.ident()}
			if p.peek().k == "str" {
				a.note = p.next().s
			}
			p.expect("=")
			a.e = p.expr()
			p.expect(";")
			S.axioms = append(S.axioms, a)
			S.order = append(S.order, a)
		case "lemma":
			l := &Lemma{name: p.ident()}
			l.params = p.params()
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "requires":
					l.requires = append(l.requires, p.expr())
				case "ensures":
					l.ensures = append(l.ensures, p.expr())
				case "induct":
					l.induct = p.ident()
				case "noauto":
					l.noauto = true
				case "use":
					l.uses = append(l.uses, p.expr())
				case "trigger":
					p.expect("{")
					var pt []SE
					for {
						pt = append(pt, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect("}")
					l.trigger = append(l.trigger, pt)
				default:
					p.fail("bad lemma item " + k)
				}
				p.expect(";")
			}
			l.idx = len(S.lemmas)
			S.lemmas = append(S.lemmas, l)
			S.order = append(S.order, l)
		case "view":
			v := &ViewDecl{typ: p.ident()}
			p.expect("(")
			v.v = p.ident()
			p.expect(")")
			p.expect("{")
			p.expect("rows")
			p.expect("=")
			v.rows = p.expr()
			p.expect(";")
			p.expect("cols")
			p.expect("=")
			v.cols = p.expr()
			p.expect(";")
			p.expect("at")
			p.expect("(")
			v.i = p.ident()
			p.expect(",")
			v.j = p.ident()
			p.expect(")")
			p.expect("=")
			v.at = p.expr()
			p.expect(";")
			p.expect("}")
			S.views[v.typ] = v
		case "monitor":
			// monitor Type(v) by lock { field, ...; invariant e; }
			m := &MonitorDecl{typ: p.ident()}
			p.expect("(")
			m.v = p.ident()
			p.expect(")")
			p.expect("by")
			m.lock = p.ident()
			p.expect("{")
			for {
				f := p.ident()
				m.fields = append(m.fields, f)
				S.guards[m.typ+"."+f] = m.lock
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
			p.expect("invariant")
			m.inv = p.expr()
			p.expect(";")
			p.expect("}")
			S.monitors[m.typ+"."+m.lock] = m
		case "guard":
			// guard Type.field by lock;
			k := p.key()
			p.expect("by")
			S.guards[k] = p.ident()
			p.expect(";")
		case "refines":
			// refines Iface.Method : Impl.Method, ... ;
			k := p.key()
			p.expect(":")
			for {
				S.refines[k] = append(S.refines[k], p.key())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "property":
			pd := &PropDecl{id: p.ident()}
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "verify":
					for {
						pd.funcs = append(pd.funcs, p.key())
						if !p.accept(",") {
							break
						}
					}
				case "lemmas":
					for {
						pd.lemmas = append(pd.lemmas, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "note":
					pd.notes = append(pd.notes, p.next().s)
				case "level":
					pd.level = p.ident()
				case "standin":
					// what the bounded run of the replay harness stands in for
					pd.standin = append(pd.standin, p.next().s)
				default:
					p.fail("bad property item " + k)
				}
				p.expect(";")
			}
			if o := S.props[pd.id]; o != nil {
				o.funcs = append(o.funcs, pd.funcs...)
				o.lemmas = append(o.lemmas, pd.lemmas...)
				o.notes = append(o.notes, pd.notes...)
				o.standin = append(o.standin, pd.standin...)
				if pd.level != "" {
					o.level = pd.level
				}
			} else {
				S.props[pd.id] = pd
			}
		case "func", "extern", "iface":
			c := &Contract{kind: kw, key: p.key(), loops: map[int]*LoopSpec{}, flags: map[string]bool{}, file: file, chans: map[string]Clause{}}
			c.params = p.nameList()
			if p.is("(") {
				c.results = p.nameList()
			}
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "requires":
					c.requires = append(c.requires, p.clause())
				case "ensures":
					c.ensures = append(c.ensures, p.clause())
				case "assumed":
					// told to callers, not proved of the body
					c.assumed = append(c.assumed, p.clause())
				case "assert":
					c.asserts = append(c.asserts, p.clause())
				case "behind":
					callee := p.ident()
					c.hooks = append(c.hooks, Hook{callee, p.accept("use"), p.clause()})
				case "hide":
					c.hide = map[string]bool{}
					for {
						f := p.ident()
						c.hide[f] = true
						c.hide[f+" (unfold)"] = true
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				case "use":
					c.uses = append(c.uses, p.clause())
				case "panics":
					c.hasPanic = true
					if p.accept("any") {
						c.flags["panicsAny"] = true
					} else {
						p.expect("when")
						c.panics = append(c.panics, p.expr())
					}
					p.expect(";")
				case "modifies":
					for {
						if p.accept("anything") {
							c.modAny = true
						} else if p.accept("nothing") {
						} else {
							c.modifies = append(c.modifies, p.expr())
						}
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				case "chan":
					n := p.ident()
					c.chans[n] = p.clause()
				case "ghostparam":
					n := p.ident()
					p.expect(":")
					c.ghosts = append(c.ghosts, sVar{n, p.typeText()})
					p.expect(";")
				case "relay":
					r := Relay{in: p.ident(), out: p.ident()}
					if p.accept("key") {
						r.key = p.ident()
					}
					if p.accept("owned") {
						for {
							r.owned = append(r.owned, p.ident())
							if !p.accept(",") {
								break
							}
						}
					}
					r.Clause = p.clause()
					c.relays = append(c.relays, r)
				case "fork":
					f := &Fork{in: p.ident(), gives: map[string]Clause{}}
					fmt.Sscan(p.next().s, &f.n)
					p.expect("when")
					f.when = p.expr()
					p.expect(";")
					c.fork = f
				case "gives":
					n := p.ident()
					c.fork.gives[n] = p.clause()
				case "rely":
					r := &Rely{param: p.ident()}
					p.expect(".")
					r.field = p.ident()
					p.expect("under")
					r.lock = p.ident()
					r.Clause = p.clause()
					c.rely = r
				case "spawn":
					sp := &Spawn{ghosts: map[string]SE{}}
					if c.spawns == nil {
						c.spawns = map[string]*Spawn{}
					}
					c.spawns[p.ident()] = sp
					p.expect("{")
					for !p.accept("}") {
						if p.accept("ghost") {
							n := p.ident()
							p.expect("=")
							sp.ghosts[n] = p.expr()
							p.expect(";")
						} else {
							p.expect("sends")
							sp.sends = append(sp.sends, p.clause())
						}
					}
				case "flag":
					for {
						c.flags[p.ident()] = true
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				case "loop":
					n := 0
					fmt.Sscan(p.next().s, &n)
					ls := c.loops[n]
					if ls == nil {
						ls = &LoopSpec{}
					}
					p.expect("{")
					for !p.accept("}") {
						switch {
						case p.accept("step"):
							ls.step = append(ls.step, p.clause())
						case p.accept("paths"):
							p.expect(";")
							ls.paths = true
						case p.accept("onbreak"):
							ls.brk = append(ls.brk, p.clause())
						case p.accept("after"):
							ls.after = append(ls.after, p.clause())
						case p.accept("behind"):
							callee := p.ident()
							ls.hooks = append(ls.hooks, Hook{callee, p.accept("use"), p.clause()})
						default:
							p.expect("invariant")
							ls.inv = append(ls.inv, p.clause())
						}
					}
					c.loops[n] = ls
				default:
					p.fail("bad contract item " + k)
				}
			}
			m := S.contracts
			if kw == "iface" {
				m = S.ifaces
			}
			if m[c.key] != nil {
				p.fail("duplicate contract " + c.key)
			}
			m[c.key] = c
		default:
			p.p--
			p.fail("unknown declaration")
		}
	}
	return nil
}
