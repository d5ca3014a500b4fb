package main

// Contract language: lexer, parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Node struct {
	Op   string // ident,int,num,call,field,index,old,un,bin,forall,exists,ite
	Name string
	Kids []*Node
	Vars []SVar
	Pats [][]*Node
	Pos  string
}
type SVar struct{ Name, Type string }

type tok struct{ k, s string }

var lexRe = regexp.MustCompile(`^(\s+|//[^\n]*|<==>|==>|::|:=|==|!=|<=|>=|&&|\|\||[A-Za-z_][A-Za-z0-9_']*|[0-9]+(\.[0-9]+)?|[-+*/%<>!(){}\[\],.?:@])`)

func lex(s string) ([]tok, error) {
	var out []tok
	for len(s) > 0 {
		m := lexRe.FindString(s)
		if m == "" {
			return nil, fmt.Errorf("lex error at %.30q", s)
		}
		s = s[len(m):]
		t := strings.TrimSpace(m)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		k := "op"
		if c := t[0]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' {
			k = "id"
		} else if c >= '0' && c <= '9' {
			k = "int"
		}
		out = append(out, tok{k, t})
	}
	return out, nil
}

type parser struct {
	t   []tok
	i   int
	pos string
}

func (p *parser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i].s
	}
	return ""
}
func (p *parser) next() tok {
	if p.i >= len(p.t) {
		panic(perr(p.pos + ": unexpected end of expression"))
	}
	p.i++
	return p.t[p.i-1]
}
func (p *parser) accept(s string) bool {
	if p.peek() == s {
		p.i++
		return true
	}
	return false
}

type perr string

func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(perr(fmt.Sprintf("%s: expected %q, got %q", p.pos, s, p.peek())))
	}
}

func parseExpr(s, pos string) (n *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", pos, err)
	}
	p := &parser{t: ts, pos: pos}
	n = p.expr()
	if p.i != len(p.t) {
		return nil, fmt.Errorf("%s: trailing %q", pos, p.peek())
	}
	return n, nil
}

func (p *parser) mk(op, name string, kids ...*Node) *Node {
	return &Node{Op: op, Name: name, Kids: kids, Pos: p.pos}
}

func (p *parser) expr() *Node {
	if p.peek() == "forall" || p.peek() == "exists" {
		op := p.next().s
		n := p.mk(op, "")
		for {
			nm := p.next().s
			ty := p.next().s
			for p.accept(".") {
				ty += "." + p.next().s
			}
			n.Vars = append(n.Vars, SVar{nm, ty})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var pt []*Node
			for {
				pt = append(pt, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			n.Pats = append(n.Pats, pt)
		}
		n.Kids = []*Node{p.expr()}
		return n
	}
	return p.iff()
}
func (p *parser) iff() *Node {
	l := p.imp()
	for p.accept("<==>") {
		l = p.mk("bin", "<==>", l, p.imp())
	}
	return l
}
func (p *parser) imp() *Node {
	l := p.or()
	if p.accept("==>") {
		var r *Node
		if p.peek() == "forall" || p.peek() == "exists" {
			r = p.expr()
		} else {
			r = p.imp()
		}
		return p.mk("bin", "==>", l, r)
	}
	return l
}
func (p *parser) qor(f func() *Node) *Node {
	if p.peek() == "forall" || p.peek() == "exists" {
		return p.expr()
	}
	return f()
}
func (p *parser) or() *Node {
	l := p.and()
	for p.accept("||") {
		l = p.mk("bin", "||", l, p.qor(p.and))
	}
	return l
}
func (p *parser) and() *Node {
	l := p.cmp()
	for p.accept("&&") {
		l = p.mk("bin", "&&", l, p.qor(p.cmp))
	}
	return l
}
func (p *parser) cmp() *Node {
	l := p.sum()
	var res *Node
	for {
		op := p.peek()
		switch op {
		case "==", "!=", "<", "<=", ">", ">=":
			p.i++
			r := p.sum()
			c := p.mk("bin", op, l, r)
			if res == nil {
				res = c
			} else {
				res = p.mk("bin", "&&", res, c)
			}
			l = r
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return l
}
func (p *parser) sum() *Node {
	l := p.prod()
	for {
		op := p.peek()
		if op == "+" || op == "-" {
			p.i++
			l = p.mk("bin", op, l, p.prod())
			continue
		}
		return l
	}
}
func (p *parser) prod() *Node {
	l := p.unary()
	for {
		op := p.peek()
		if op == "*" || op == "/" || op == "%" {
			p.i++
			l = p.mk("bin", op, l, p.unary())
			continue
		}
		return l
	}
}
func (p *parser) unary() *Node {
	if p.accept("!") {
		return p.mk("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mk("un", "-", p.unary())
	}
	return p.postfix()
}
func (p *parser) postfix() *Node {
	var n *Node
	if p.accept("(") {
		n = p.expr()
		p.expect(")")
	} else {
		t := p.next()
		switch t.k {
		case "int":
			n = p.mk("int", t.s)
		case "id":
			n = p.mk("ident", t.s)
			if p.peek() == "(" {
				p.i++
				var as []*Node
				if !p.accept(")") {
					for {
						as = append(as, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect(")")
				}
				n = p.mk("call", t.s, as...)
			}
		default:
			panic(perr(fmt.Sprintf("%s: unexpected %q", p.pos, t.s)))
		}
	}
	for {
		if p.accept(".") {
			n = p.mk("field", p.next().s, n)
			continue
		}
		if p.accept("[") {
			i := p.expr()
			p.expect("]")
			n = p.mk("index", "", n, i)
			continue
		}
		if p.accept("@") {
			ty := p.next().s
			for p.accept(".") {
				ty += "." + p.next().s
			}
			n = p.mk("cast", ty, n)
			continue
		}
		return n
	}
}

// ---- contract files ----

type Clause struct {
	Label string
	E     *Node
	Text  string
}
type ModItem struct {
	Key  string
	Ref  *Node // nil = everything
	Var  string
	Cond *Node
}
type CandT struct {
	Vars []SVar
	E    *Node
	Text string
	Pos  string
}
type GhostAsg struct {
	Key string
	E   *Node
}
type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []ModItem
	Cands    []CandT
	Props    []string
	Uses     []string
	GhostEx  []GhostAsg
	Opaque   []string
	Implements []string
	Mode     string
	Trusted  string
	Advisory bool // failing proof => inline in callers, not reported on its own
	Iface    bool
	Inline   bool
	Bounded  string // why the function is only checked by bounded replay
	NoVerify bool
	Assumes  []Clause // documented assumptions on entry (reported)
	Pos      string
	Opts     map[string]string
}
type SpecFun struct {
	Kind   string // fun rec pred arrdef
	Name   string
	Params []SVar
	Res    string
	Idx    string // arrdef index variable
	Body   *Node
	Pos    string
}
type Lemma struct {
	Name  string
	Vars  []SVar
	Pats  [][]*Node
	E     *Node
	By    string // nia, auto, induct <var>, axiom
	Ind   *Node
	Uses  []string
	Props []string
	Hints []*Node
	Local bool
	Pos   string
}
type Macro struct {
	Params []string
	Body   *Node
}
type Spec struct {
	Contracts map[string]*Contract
	Order     []string
	Funs      []*SpecFun
	Lemmas    []*Lemma
	Macros    map[string]*Macro
	IfaceRep  map[string]string
	Groups    map[string][]string // lemma groups
	GhostKeys map[string]string
	Assume    []string
}

func parseVars(s string) []SVar {
	var out []SVar
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, f := range strings.Split(s, ",") {
		p := strings.Fields(strings.TrimSpace(f))
		if len(p) != 2 {
			panic("bad variable list: " + s)
		}
		out = append(out, SVar{p[0], p[1]})
	}
	return out
}

func loadSpec(dir string) (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, IfaceRep: map[string]string{}, Groups: map[string][]string{}, GhostKeys: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gc"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

var fnHdr = regexp.MustCompile(`^func\s+(\S+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)
var fnHdrM = regexp.MustCompile(`^func\s+(\w+\.\(\*?\w+\)\.\w+)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func splitNames(s string) []string {
	var o []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			o = append(o, x)
		}
	}
	return o
}

func (sp *Spec) loadFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	base := filepath.Base(path)
	// logical lines: a line starting with whitespace+"|" continues the previous
	type ll struct {
		s string
		n int
	}
	var lines []ll
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "|") && !strings.HasPrefix(t, "||") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + t[1:]
			continue
		}
		lines = append(lines, ll{t, i + 1})
	}
	var cur *Contract
	mustE := func(s, pos string) *Node {
		n, e := parseExpr(s, pos)
		if e != nil {
			err = e
			return &Node{Op: "ident", Name: "true"}
		}
		return n
	}
	for _, l := range lines {
		pos := fmt.Sprintf("%s:%d", base, l.n)
		w := strings.Fields(l.s)[0]
		rest := strings.TrimSpace(l.s[len(w):])
		switch w {
		case "func", "iface":
			s := l.s
			if w == "iface" {
				s = "func" + s[5:]
			}
			m := fnHdrM.FindStringSubmatch(s)
			if m == nil {
				m = fnHdr.FindStringSubmatch(s)
			}
			if m == nil {
				return fmt.Errorf("%s: bad function header %q", pos, l.s)
			}
			cur = &Contract{Key: m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Pos: pos, Iface: w == "iface", Opts: map[string]string{}}
			if sp.Contracts[cur.Key] != nil {
				return fmt.Errorf("%s: duplicate contract %s", pos, cur.Key)
			}
			sp.Contracts[cur.Key] = cur
			sp.Order = append(sp.Order, cur.Key)
		case "prop":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "requires", "ensures", "assumes":
			lab := ""
			if strings.HasPrefix(rest, "[") {
				j := strings.Index(rest, "]")
				lab = rest[1:j]
				rest = strings.TrimSpace(rest[j+1:])
			}
			c := Clause{lab, mustE(rest, pos), rest}
			if w == "requires" {
				cur.Requires = append(cur.Requires, c)
			} else if w == "ensures" {
				cur.Ensures = append(cur.Ensures, c)
			} else {
				cur.Assumes = append(cur.Assumes, c)
			}
		case "modifies":
			if rest == "none" {
				break
			}
			mi := ModItem{}
			if j := strings.Index(rest, "["); j >= 0 {
				mi.Key = strings.TrimSpace(rest[:j])
				// find matching ]
				d := 0
				k := j
				for ; k < len(rest); k++ {
					if rest[k] == '[' {
						d++
					}
					if rest[k] == ']' {
						d--
						if d == 0 {
							break
						}
					}
				}
				in := rest[j+1 : k]
				tail := strings.TrimSpace(rest[k+1:])
				if strings.HasPrefix(tail, "if ") {
					mi.Var = strings.TrimSpace(in)
					mi.Cond = mustE(tail[3:], pos)
				} else {
					mi.Ref = mustE(in, pos)
				}
			} else {
				mi.Key = rest
			}
			cur.Modifies = append(cur.Modifies, mi)
		case "cand":
			c := CandT{Text: rest, Pos: pos}
			if strings.HasPrefix(rest, "(") {
				j := strings.Index(rest, ")")
				c.Vars = parseVars(rest[1:j])
				rest = strings.TrimSpace(rest[j+1:])
			}
			c.E = mustE(rest, pos)
			cur.Cands = append(cur.Cands, c)
		case "ghost":
			p := strings.SplitN(rest, ":=", 2)
			cur.GhostEx = append(cur.GhostEx, GhostAsg{strings.TrimSpace(p[0]), mustE(p[1], pos)})
		case "implements": // the interface method's contract is part of this one
			ic := sp.Contracts[strings.TrimSpace(rest)]
			if ic == nil {
				return fmt.Errorf("%s: implements unknown %s", pos, rest)
			}
			if strings.Join(ic.Params, ",") != strings.Join(cur.Params, ",") || strings.Join(ic.Results, ",") != strings.Join(cur.Results, ",") {
				return fmt.Errorf("%s: implements %s with other parameter names", pos, rest)
			}
			cur.Implements = append(cur.Implements, strings.TrimSpace(rest))
			cur.Requires = append(cur.Requires, ic.Requires...)
			cur.Ensures = append(cur.Ensures, ic.Ensures...)
			cur.Modifies = append(cur.Modifies, ic.Modifies...)
		case "opaque": // hide definitions or lemmas from this function's queries
			cur.Opaque = append(cur.Opaque, strings.Fields(rest)...)
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "mode":
			cur.Mode = rest
		case "trusted":
			cur.Trusted = rest
			if rest == "" {
				cur.Trusted = "trusted"
			}
		case "advisory":
			cur.Advisory = true
		case "inline":
			cur.Inline = true
		case "bounded":
			cur.Bounded = rest
			cur.NoVerify = true
		case "noverify":
			cur.NoVerify = true
		case "opt":
			f := strings.Fields(rest)
			v := "1"
			if len(f) > 1 {
				v = f[1]
			}
			cur.Opts[f[0]] = v
		case "fun", "rec", "pred", "arrdef":
			hdr, body := rest, ""
			if j := strings.Index(rest, ":="); j >= 0 {
				hdr, body = strings.TrimSpace(rest[:j]), rest[j+2:]
			}
			a := strings.Index(hdr, "(")
			z := strings.LastIndex(hdr, ")")
			sf := &SpecFun{Kind: w, Name: strings.TrimSpace(hdr[:a]), Params: parseVars(hdr[a+1 : z]), Pos: pos}
			tail := strings.TrimSpace(hdr[z+1:])
			if w == "arrdef" {
				k := strings.Index(tail, "]")
				sf.Idx = strings.TrimSpace(tail[1:k])
				tail = strings.TrimSpace(tail[k+1:])
			}
			sf.Res = tail
			if w == "pred" {
				sf.Res = "bool"
			}
			if body != "" {
				sf.Body = mustE(body, pos)
			}
			sp.Funs = append(sp.Funs, sf)
		case "macro":
			j := strings.Index(rest, ":=")
			hdr := strings.TrimSpace(rest[:j])
			a := strings.Index(hdr, "(")
			z := strings.LastIndex(hdr, ")")
			sp.Macros[strings.TrimSpace(hdr[:a])] = &Macro{splitNames(hdr[a+1 : z]), mustE(rest[j+2:], pos)}
		case "lemma", "axiom":
			// lemma name(vars) {pats} by X [uses a b] [prop C01] := expr
			j := strings.Index(rest, ":=")
			hdr, body := strings.TrimSpace(rest[:j]), rest[j+2:]
			a := strings.Index(hdr, "(")
			z := strings.Index(hdr, ")")
			lm := &Lemma{Name: strings.TrimSpace(hdr[:a]), Vars: parseVars(hdr[a+1 : z]), Pos: pos, By: "auto"}
			tail := strings.TrimSpace(hdr[z+1:])
			for strings.HasPrefix(tail, "{") {
				k := strings.Index(tail, "}")
				var ps []*Node
				depth := 0
				st := 1
				for q := 1; q <= k; q++ {
					c := tail[q]
					if c == '(' || c == '[' {
						depth++
					}
					if c == ')' || c == ']' {
						depth--
					}
					if c == ',' && depth == 0 || q == k {
						ps = append(ps, mustE(tail[st:q], pos))
						st = q + 1
					}
				}
				lm.Pats = append(lm.Pats, ps)
				tail = strings.TrimSpace(tail[k+1:])
			}
			fs := strings.Fields(tail)
			sec := ""
			if w == "lemma" && len(fs) > 0 && fs[0] == "local" {
				lm.Local = true
				fs = fs[1:]
			}
			for _, f := range fs {
				if f == "by" || f == "uses" || f == "prop" || f == "hint" {
					sec = f
					continue
				}
				switch sec {
				case "by":
					if lm.By == "induct" && lm.Ind == nil {
						lm.Ind = mustE(f, pos)
					} else {
						lm.By = f
					}
				case "hint":
					lm.Hints = append(lm.Hints, mustE(f, pos))
				case "uses":
					lm.Uses = append(lm.Uses, f)
				case "prop":
					lm.Props = append(lm.Props, f)
				}
			}
			if w == "axiom" {
				lm.By = "axiom"
			}
			lm.E = mustE(body, pos)
			sp.Lemmas = append(sp.Lemmas, lm)
		case "ifacerep":
			f := strings.Fields(rest)
			sp.IfaceRep[f[0]] = f[1]
		case "heapkey":
			f := strings.Fields(rest)
			sp.GhostKeys[f[0]] = f[1]
		case "group":
			f := strings.Fields(rest)
			sp.Groups[f[0]] = append(sp.Groups[f[0]], f[1:]...)
		default:
			return fmt.Errorf("%s: unknown directive %q", pos, w)
		}
		if err != nil {
			return err
		}
	}
	return nil
}
