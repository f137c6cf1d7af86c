package main

// Multivariate polynomials over Z (or, when a modulus is given, over Z/m) in
// the symbols of a Ctx.  They are the value component of the abstract domain.

import (
	"encoding/binary"
	"math/big"
	"sort"
	"strings"
)

type Sym int32

// Poly is immutable once published.  terms maps monomial key -> non-zero coefficient.
type Poly struct {
	terms map[string]*big.Int
	key   string // memoised canonical key
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
)

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bigOne, k) }

func newPoly() *Poly { return &Poly{terms: map[string]*big.Int{}} }

func constPoly(c *big.Int) *Poly {
	p := newPoly()
	if c.Sign() != 0 {
		p.terms[""] = new(big.Int).Set(c)
	}
	return p
}
func intPoly(c int64) *Poly { return constPoly(big.NewInt(c)) }

// A factor of a monomial.
type factor struct {
	s Sym
	e *big.Int
}

func symKey(s Sym) string {
	var b [6]byte
	binary.BigEndian.PutUint32(b[:4], uint32(s))
	b[4] = 1
	b[5] = 1
	return string(b[:])
}

func symPoly(s Sym) *Poly {
	p := newPoly()
	p.terms[symKey(s)] = bigOne
	return p
}

func parseMono(k string) []factor {
	if len(k) == 0 {
		return nil
	}
	fs := make([]factor, 0, len(k)/6)
	for i := 0; i < len(k); {
		s := Sym(uint32(k[i])<<24 | uint32(k[i+1])<<16 | uint32(k[i+2])<<8 | uint32(k[i+3]))
		n := int(k[i+4])
		var e *big.Int
		if n == 1 && k[i+5] == 1 {
			e = bigOne
		} else {
			e = new(big.Int).SetBytes([]byte(k[i+5 : i+5+n]))
		}
		fs = append(fs, factor{s, e})
		i += 5 + n
	}
	return fs
}

func monoKey(fs []factor) string {
	var sb strings.Builder
	sb.Grow(len(fs) * 6)
	for _, f := range fs {
		if f.e.Sign() == 0 {
			continue
		}
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(f.s))
		sb.Write(b[:])
		eb := f.e.Bytes()
		sb.WriteByte(byte(len(eb)))
		sb.Write(eb)
	}
	return sb.String()
}

// symsOf calls f for each symbol of monomial k.
func monoSyms(k string, f func(Sym)) {
	for i := 0; i < len(k); {
		f(Sym(uint32(k[i])<<24 | uint32(k[i+1])<<16 | uint32(k[i+2])<<8 | uint32(k[i+3])))
		i += 5 + int(k[i+4])
	}
}

func monoHas(k string, s Sym) bool {
	r := false
	monoSyms(k, func(t Sym) {
		if t == s {
			r = true
		}
	})
	return r
}

func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	ks := make([]string, 0, len(p.terms))
	for k := range p.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteByte('P')
	for _, k := range ks {
		c := p.terms[k]
		b := c.Bytes()
		var h [6]byte
		h[0] = 0
		if c.Sign() < 0 {
			h[0] = 1
		}
		h[1] = byte(len(b))
		binary.BigEndian.PutUint32(h[2:], uint32(len(k)))
		sb.Write(h[:])
		sb.WriteString(k)
		sb.Write(b)
	}
	p.key = sb.String()
	return p.key
}

func (p *Poly) IsZero() bool { return len(p.terms) == 0 }

func (p *Poly) IsConst() (*big.Int, bool) {
	if len(p.terms) == 0 {
		return bigZero, true
	}
	if len(p.terms) == 1 {
		if c, ok := p.terms[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func (p *Poly) isInt(v int64) bool {
	c, ok := p.IsConst()
	return ok && c.IsInt64() && c.Int64() == v
}

func (p *Poly) Const() *big.Int {
	if c, ok := p.terms[""]; ok {
		return c
	}
	return bigZero
}

func (p *Poly) Equal(q *Poly) bool {
	if p == q {
		return true
	}
	if len(p.terms) != len(q.terms) {
		return false
	}
	for k, c := range p.terms {
		d, ok := q.terms[k]
		if !ok || d.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

func (p *Poly) Syms() map[Sym]bool {
	m := map[Sym]bool{}
	for k := range p.terms {
		monoSyms(k, func(s Sym) { m[s] = true })
	}
	return m
}

func sortedSyms(m map[Sym]bool) []Sym {
	r := make([]Sym, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (p *Poly) clone() *Poly {
	q := &Poly{terms: make(map[string]*big.Int, len(p.terms))}
	for k, c := range p.terms {
		q.terms[k] = c
	}
	return q
}

// addTerm mutates p (only during construction).
func (p *Poly) addTerm(k string, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if o, ok := p.terms[k]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(p.terms, k)
		} else {
			p.terms[k] = n
		}
	} else {
		p.terms[k] = c
	}
}

func (p *Poly) Add(q *Poly) *Poly {
	if len(p.terms) < len(q.terms) {
		p, q = q, p
	}
	r := p.clone()
	for k, c := range q.terms {
		r.addTerm(k, c)
	}
	return r
}

func (p *Poly) Neg() *Poly {
	r := &Poly{terms: make(map[string]*big.Int, len(p.terms))}
	for k, c := range p.terms {
		r.terms[k] = new(big.Int).Neg(c)
	}
	return r
}

func (p *Poly) Sub(q *Poly) *Poly {
	r := p.clone()
	for k, c := range q.terms {
		r.addTerm(k, new(big.Int).Neg(c))
	}
	return r
}

func (p *Poly) AddInt(c int64) *Poly { return p.Add(intPoly(c)) }

func (p *Poly) Scale(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return newPoly()
	}
	if c.Cmp(bigOne) == 0 {
		return p
	}
	r := &Poly{terms: make(map[string]*big.Int, len(p.terms))}
	for k, d := range p.terms {
		r.terms[k] = new(big.Int).Mul(c, d)
	}
	return r
}

func (p *Poly) ScaleInt(c int64) *Poly { return p.Scale(big.NewInt(c)) }

// Mod reduces coefficients into [0, m).
func (p *Poly) Mod(m *big.Int) *Poly {
	r := &Poly{terms: make(map[string]*big.Int, len(p.terms))}
	for k, d := range p.terms {
		v := d
		if d.Sign() < 0 || d.Cmp(m) >= 0 {
			v = new(big.Int).Mod(d, m)
		}
		if v.Sign() != 0 {
			r.terms[k] = v
		}
	}
	return r
}

// DivExact divides all coefficients by c; ok=false if not divisible.
func (p *Poly) DivExact(c *big.Int) (*Poly, bool) {
	r := &Poly{terms: make(map[string]*big.Int, len(p.terms))}
	var q, m big.Int
	for k, d := range p.terms {
		q.QuoRem(d, c, &m)
		if m.Sign() != 0 {
			return nil, false
		}
		r.terms[k] = new(big.Int).Set(&q)
	}
	return r, true
}

func (p *Poly) linearCoef(s Sym) *big.Int {
	if c, ok := p.terms[symKey(s)]; ok {
		return c
	}
	return bigZero
}

// linear: every monomial has degree at most one.
func (p *Poly) linear() bool {
	for k := range p.terms {
		fs := parseMono(k)
		if len(fs) > 1 || len(fs) == 1 && fs[0].e.Cmp(bigOne) != 0 {
			return false
		}
	}
	return true
}

// Has: the symbol occurs.
func (p *Poly) Has(s Sym) bool {
	for k := range p.terms {
		if monoHas(k, s) {
			return true
		}
	}
	return false
}
