package main

// The format, as terms.

import "fmt"

// encSpec is the canonical encoding of n differences d[i].
type encSpec struct {
	n     int
	x     []*Term // 32-bit inputs
	prev  *Term
	d     []*Term // what is encoded
	code  []*Term // 2 bits
	ctrl  []*Term // 8 bits
	off   []*Term // off[i]: data offset of value i, 64 bits; off[n] is the total
	sum8  []*Term
	group []*Term
}

func lenCode(c *Ctx, d *Term) *Term {
	r := c.Const(2, 3)
	for k := 3; k >= 1; k-- {
		r = c.Ite(c.Ult(d, c.Const(32, 1<<uint(8*k))), c.Const(2, uint64(k-1)), r)
	}
	return r
}

// regWord registers the pieces of a value that code tends to recompute.
func regCtrl(c *Ctx, code []*Term) *Term {
	ps := make([]*Term, 4)
	for j := range ps {
		ps[3-j] = c.Const(2, 0)
		if j < len(code) {
			ps[3-j] = code[j]
		}
	}
	t := c.Concat(ps...)
	c.Register(t)
	return t
}

func lenSum(c *Ctx, w int, code []*Term, k uint64) *Term {
	t := c.Const(w, k)
	for _, x := range code {
		t = c.Add(t, c.Zext(x, w))
	}
	return t
}

// newEnc builds the spec for symbolic x (and prev when delta).
// Sequences of more than bigN values are fixed except for the last bigFree values.
const bigFree = 9

var bigN = 2100

// bigValue are the fixed values: all lengths and length combinations, three quarters of them long.
func bigValue(i int) uint32 {
	h := uint32(i+1) * 2654435761
	h ^= h >> 15
	h *= 2246822519
	h ^= h >> 13
	switch h >> 28 {
	case 0:
		return h & 0xff
	case 1, 2:
		return h & 0xffff
	case 3:
		return h & 0xffffff
	}
	return h | 1<<31
}

// bigCtrl are the fixed control bytes.
func bigCtrl(g int) uint64 {
	h := bigValue(g ^ 0x5a5a5a)
	return uint64(h>>3|h>>11) & 0xff
}

func newEnc(c *Ctx, n int, delta bool) *encSpec {
	s := &encSpec{n: n}
	for i := 0; i < n; i++ {
		if n > bigN && i < n-bigFree {
			s.x = append(s.x, c.Const(32, uint64(bigValue(i))))
		} else {
			s.x = append(s.x, c.Var(fmt.Sprintf("x%d", i), 32))
		}
	}
	p := c.Var("prev", 32)
	if n > bigN {
		p = c.Const(32, 1<<20)
	}
	s.prev = p
	for i := 0; i < n; i++ {
		if delta {
			s.d = append(s.d, c.Sub(s.x[i], p))
			p = s.x[i]
		} else {
			s.d = append(s.d, s.x[i])
		}
	}
	s.finish(c)
	return s
}

func (s *encSpec) finish(c *Ctx) {
	n := s.n
	for i := 0; i < n; i++ {
		cd := lenCode(c, s.d[i])
		s.code = append(s.code, cd)
		c.Register(s.d[i])
		c.Register(cd)
		for k := 1; k < 4; k++ {
			c.Register(c.Ult(s.d[i], c.Const(32, 1<<uint(8*k))))
		}
	}
	regLens(c, s.code)
	o := c.Const(64, 0)
	s.off = append(s.off, o)
	for i := 0; i < n; i++ {
		o = c.Add(o, c.AddC(c.Zext(s.code[i], 64), 1))
		s.off = append(s.off, o)
	}
	for g := 0; g < (n+3)/4; g++ {
		s.ctrl = append(s.ctrl, regCtrl(c, s.code[4*g:min(n, 4*g+4)]))
	}
	for g := 0; g+1 < len(s.ctrl); g++ {
		c.Register(c.Concat(s.ctrl[g+1], s.ctrl[g]))
	}
}

// regLens registers the lengths, partial sums and guards that follow from 2-bit codes.
func regLens(c *Ctx, code []*Term) {
	n := len(code)
	for i, cd := range code {
		for _, w := range []int{8, 16, 32, 64} {
			c.Register(c.Zext(cd, w))
			c.Register(c.AddC(c.Zext(cd, w), 1))
		}
		for k := uint64(0); k < 4; k++ {
			c.Register(c.Eq(cd, c.Const(2, k)))
			if k > 0 {
				c.Register(c.Ule(c.Const(2, k), cd))
			}
		}
		if i%4 == 0 {
			for _, w := range []int{8, 16, 32, 64} {
				for k := 2; k <= 4 && i+k <= n; k++ {
					c.Register(lenSum(c, w, code[i:i+k], uint64(k)))
				}
				// the length table counts the unused fields of a partial group as one byte each
				if i+4 > n {
					c.Register(lenSum(c, w, code[i:n], 4))
				}
				if i+8 <= n {
					c.Register(lenSum(c, w, code[i:i+8], 8))
				}
			}
		}
	}
}

// decSpec describes n values read from given control bytes and data.
type decSpec struct {
	n     int
	ctrl  []*Term
	code  []*Term
	off   []*Term // data offset of value i relative to the data; off[n]: total
	d     []*Term // stored numbers
	v     []*Term // decoded values (running sums for delta)
	prev  *Term
	bytes [][]*Term // stored bytes of value i (before masking by its length)
}

// newDec builds the spec; at(o) is the data byte at offset o. Offsets count from base.
func newDec(c *Ctx, n int, delta bool, ctrl []*Term, base uint64, at func(o *Term) *Term) *decSpec {
	s := &decSpec{n: n, ctrl: ctrl}
	for i := 0; i < n; i++ {
		s.code = append(s.code, c.Extract(ctrl[i/4], 2*(i%4)+1, 2*(i%4)))
	}
	s.off = append(s.off, c.Const(64, 0))
	for i := 0; i < n; i++ {
		s.off = append(s.off, c.Add(s.off[i], c.AddC(c.Zext(s.code[i], 64), 1)))
	}
	s.prev = c.Var("prev", 32)
	if n > bigN {
		s.prev = c.Const(32, 1<<20)
	}
	p := s.prev
	for i := 0; i < n; i++ {
		var bs, parts []*Term
		for k := 0; k < 4; k++ {
			bs = append(bs, at(c.AddC(s.off[i], int64(base)+int64(k))))
		}
		for k := 3; k > 0; k-- {
			parts = append(parts, c.Ite(c.Ule(c.Const(2, uint64(k)), s.code[i]), bs[k], c.Const(8, 0)))
		}
		parts = append(parts, bs[0])
		s.bytes = append(s.bytes, bs)
		s.d = append(s.d, c.Concat(parts...))
		if delta {
			p = c.Add(p, s.d[i])
			s.v = append(s.v, p)
		} else {
			s.v = append(s.v, s.d[i])
		}
	}
	return s
}

func (s *decSpec) register(c *Ctx) {
	regLens(c, s.code)
	for i := range s.d {
		c.Register(s.d[i])
		if len(s.v[i].args) <= 12 {
			c.Register(s.v[i])
		}
	}
}
