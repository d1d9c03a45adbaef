package main

// Vector instructions (SSE to AVX2) over byte terms, and the instruction-set extension each
// executed instruction belongs to.

import (
	"regexp"
	"strings"
)

var evexText = regexp.MustCompile(`zmm|[xy]mm(1[6-9]|2[0-9]|3[01])|\{k[1-7]\}|\bk[0-7]\b|\{1to`)

// isaNeed is the extension an instruction belongs to ("" for baseline x86-64).
func isaNeed(i inst) string {
	op := i.op
	ymm := false
	vecMem := false
	for _, o := range i.ops {
		if o.kind == 'x' && o.size == 32 {
			ymm = true
		}
		if o.kind == 'm' {
			vecMem = true
		}
	}
	if evexText.MatchString(i.text) {
		if strings.Contains(i.text, "zmm") {
			return "AVX512F"
		}
		return "AVX512VL"
	}
	switch op {
	case "crc32":
		return "SSE42"
	case "movbe":
		return "MOVBE"
	case "adcx", "adox":
		return "ADX"
	case "popcnt":
		return "POPCNT"
	case "lzcnt":
		return "LZCNT"
	case "andn", "tzcnt", "bextr", "blsi", "blsr", "blsmsk":
		return "BMI1"
	case "shlx", "shrx", "sarx", "pext", "pdep", "bzhi", "rorx", "mulx":
		return "BMI2"
	case "verr", "verw":
		return ""
	}
	if strings.HasPrefix(op, "vfm") || strings.HasPrefix(op, "vfnm") {
		return "FMA"
	}
	if strings.HasPrefix(op, "v") {
		b := op[1:]
		switch {
		case b == "broadcastss" || b == "broadcastsd":
			if !vecMem {
				return "AVX2"
			}
			return "AVX"
		case strings.HasPrefix(b, "pbroadcast"), b == "broadcasti128", b == "permd", b == "permq", b == "permps", b == "permpd",
			b == "perm2i128", b == "inserti128", b == "extracti128", b == "pblendd", strings.HasPrefix(b, "psllv"),
			strings.HasPrefix(b, "psrlv"), strings.HasPrefix(b, "psrav"), strings.HasPrefix(b, "pgather"), strings.HasPrefix(b, "pmaskmov"):
			return "AVX2"
		case ymm && strings.HasPrefix(b, "p") && b != "permilps" && b != "permilpd" && b != "perm2f128" && b != "ptest":
			return "AVX2"
		case ymm && b == "mpsadbw":
			return "AVX2"
		}
		return "AVX"
	}
	switch {
	case op == "lddqu" || op == "movshdup" || op == "movsldup" || op == "movddup":
		return "SSE3"
	case op == "pshufb" || op == "palignr" || strings.HasPrefix(op, "pabs") || strings.HasPrefix(op, "phadd") || strings.HasPrefix(op, "phsub") || op == "pmaddubsw" || op == "pmulhrsw" || strings.HasPrefix(op, "psign"):
		return "SSSE3"
	case strings.HasPrefix(op, "pmovzx") || strings.HasPrefix(op, "pmovsx") || op == "ptest" || op == "pblendw" || op == "pblendvb" ||
		op == "pextrb" || op == "pextrd" || op == "pextrq" || op == "pinsrb" || op == "pinsrd" || op == "pinsrq" ||
		op == "packusdw" || op == "pmulld" || op == "pcmpeqq" || op == "pminsb" || op == "pminuw" || op == "pminud" || op == "pminsd" ||
		op == "pmaxsb" || op == "pmaxuw" || op == "pmaxud" || op == "pmaxsd" || op == "movntdqa" || op == "mpsadbw" || op == "blendps" || op == "insertps" || op == "extractps":
		return "SSE41"
	case op == "pcmpgtq" || strings.HasPrefix(op, "pcmpistr") || strings.HasPrefix(op, "pcmpestr"):
		return "SSE42"
	case strings.HasPrefix(op, "aes"):
		return "AES"
	case strings.HasPrefix(op, "pclmul"):
		return "PCLMULQDQ"
	}
	return ""
}

func (r *asmRun) isa(m *mach, i inst) {
	ext := isaNeed(i)
	if ext == "" {
		return
	}
	ex := r.ex
	if ex.needs == nil {
		ex.needs = map[string]*Term{}
	}
	if g, ok := ex.needs[ext]; ok {
		if g != m.st.pc {
			ex.needs[ext] = ex.c.BOr(g, m.st.pc)
		}
	} else {
		ex.needs[ext] = m.st.pc
	}
	if ex.isaLog != nil {
		ex.isaLog(ext, r.where(i), m.st.pc)
	}
}

func (r *asmRun) vreg(m *mach, k, n int) []*Term {
	out := make([]*Term, n)
	for j := range out {
		if m.v[k][j] == nil {
			m.v[k][j] = r.ex.fresh("vreg", 8)
		}
		out[j] = m.v[k][j]
	}
	return out
}

// vsrc reads a vector source operand of n bytes.
func (r *asmRun) vsrc(m *mach, o operand, n int, i inst) []*Term {
	switch o.kind {
	case 'x':
		return r.vreg(m, o.reg, n)
	case 'm':
		return r.readMem(m, r.addr(m, o), n, i)
	case 'r':
		v := r.gpv(m, o)
		if v.obj != nil {
			unsup("pointer in %s", r.where(i))
		}
		b := r.ex.intBytes(v.t)
		if n < len(b) {
			b = b[:n]
		}
		return b
	}
	unsup("operand in %s", r.where(i))
	return nil
}

// vset writes a vector register; canon tries to recognise the 32-bit lanes.
func (r *asmRun) vset(m *mach, o operand, b []*Term, vex, canon bool) {
	c := r.ex.c
	if canon && len(c.reg) > 0 {
		nb := make([]*Term, len(b))
		copy(nb, b)
		for k := 0; k+4 <= len(b); k += 4 {
			l := joinBytes(c, b[k:k+4])
			if l.isConst() {
				continue
			}
			if l.op == OpAdd && len(l.args) > 12 {
				continue
			}
			q := c.Canon(l)
			if q != l {
				copy(nb[k:k+4], r.ex.intBytes(q))
			}
		}
		b = nb
	}
	for k := range b {
		m.v[o.reg][k] = b[k]
	}
	if vex {
		for k := len(b); k < 32; k++ {
			m.v[o.reg][k] = c.Const(8, 0)
		}
	}
}

func laneJoin(c *Ctx, b []*Term, w int) []*Term {
	n := w / 8
	out := make([]*Term, len(b)/n)
	for k := range out {
		out[k] = joinBytes(c, b[k*n:(k+1)*n])
	}
	return out
}

func laneSplit(ex *Exec, l []*Term) []*Term {
	var out []*Term
	for _, t := range l {
		out = append(out, ex.intBytes(t)...)
	}
	return out
}

var laneW = map[byte]int{'b': 8, 'w': 16, 'd': 32, 'q': 64}

func satU(c *Ctx, x *Term, w int) *Term { // signed x to unsigned w
	hi := c.Const(x.w, mask(w))
	v := c.Ite(c.Slt(hi, x), c.Const(w, mask(w)), c.Extract(x, w-1, 0))
	return c.Ite(c.Slt(x, c.Const(x.w, 0)), c.Const(w, 0), v)
}

func satS(c *Ctx, x *Term, w int) *Term { // signed x to signed w
	hi := c.Const(x.w, mask(w)>>1)
	lo := c.Const(x.w, ^(mask(w) >> 1))
	v := c.Ite(c.Slt(hi, x), c.Const(w, mask(w)>>1), c.Extract(x, w-1, 0))
	return c.Ite(c.Slt(x, lo), c.Const(w, 1<<uint(w-1)), v)
}

// binary lane operations: result, lane width
func (r *asmRun) laneOp(op string) (w int, f func(c *Ctx, a, b *Term) *Term) {
	if len(op) < 4 {
		return 0, nil
	}
	last := op[len(op)-1]
	lw := laneW[last]
	stem := op[:len(op)-1]
	sat := func(signed, sub bool) func(c *Ctx, a, b *Term) *Term {
		return func(c *Ctx, a, b *Term) *Term {
			if signed {
				x, y := c.Sext(a, a.w+8), c.Sext(b, a.w+8)
				if sub {
					return satS(c, c.Sub(x, y), a.w)
				}
				return satS(c, c.Add(x, y), a.w)
			}
			if sub {
				return c.Ite(c.Ult(a, b), c.Const(a.w, 0), c.Sub(a, b))
			}
			s := c.Add(c.Zext(a, a.w+8), c.Zext(b, a.w+8))
			return c.Ite(c.Ult(c.Const(a.w+8, mask(a.w)), s), c.Const(a.w, mask(a.w)), c.Extract(s, a.w-1, 0))
		}
	}
	switch stem {
	case "padd":
		return lw, (*Ctx).Add
	case "psub":
		return lw, (*Ctx).Sub
	case "paddus":
		return lw, sat(false, false)
	case "padds":
		return lw, sat(true, false)
	case "psubus":
		return lw, sat(false, true)
	case "psubs":
		return lw, sat(true, true)
	case "pminu":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Ite(c.Ult(a, b), a, b) }
	case "pmaxu":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Ite(c.Ult(a, b), b, a) }
	case "pmins":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Ite(c.Slt(a, b), a, b) }
	case "pmaxs":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Ite(c.Slt(a, b), b, a) }
	case "pcmpeq":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Sext(c.B2BV(c.Eq(a, b), 1), a.w) }
	case "pcmpgt":
		return lw, func(c *Ctx, a, b *Term) *Term { return c.Sext(c.B2BV(c.Slt(b, a), 1), a.w) }
	}
	switch op {
	case "pmullw":
		return 16, (*Ctx).Mul
	case "pmulld":
		return 32, (*Ctx).Mul
	case "pmuludq":
		return 64, func(c *Ctx, a, b *Term) *Term {
			return c.Mul(c.Zext(c.Extract(a, 31, 0), 64), c.Zext(c.Extract(b, 31, 0), 64))
		}
	case "pmaddubsw":
		return 16, func(c *Ctx, a, b *Term) *Term {
			p := func(k int) *Term {
				return c.Mul(c.Zext(c.Extract(a, 8*k+7, 8*k), 24), c.Sext(c.Extract(b, 8*k+7, 8*k), 24))
			}
			return satS(c, c.Add(p(0), p(1)), 16)
		}
	case "pmaddwd":
		return 32, func(c *Ctx, a, b *Term) *Term {
			p := func(k int) *Term {
				return c.Mul(c.Sext(c.Extract(a, 16*k+15, 16*k), 32), c.Sext(c.Extract(b, 16*k+15, 16*k), 32))
			}
			return c.Add(p(0), p(1))
		}
	case "pand", "andps", "andpd":
		return 32, (*Ctx).And
	case "por", "orps", "orpd":
		return 32, (*Ctx).Or
	case "pxor", "xorps", "xorpd":
		return 32, (*Ctx).Xor
	case "pandn", "andnps", "andnpd":
		return 32, func(c *Ctx, a, b *Term) *Term { return c.And(c.Not(a), b) }
	}
	return 0, nil
}

func (r *asmRun) vector(m *mach, i inst) bool {
	ex, c := r.ex, r.ex.c
	op := i.op
	vex := strings.HasPrefix(op, "v")
	if vex {
		op = op[1:]
	}
	ops := i.ops
	zero := c.Const(8, 0)
	// vector length
	vl := 16
	for _, o := range ops {
		if o.kind == 'x' && o.size == 32 {
			vl = 32
		}
	}
	lanes128 := func(b []*Term, f func(l []*Term) []*Term) []*Term {
		var out []*Term
		for k := 0; k < len(b); k += 16 {
			out = append(out, f(b[k:k+16])...)
		}
		return out
	}
	// two sources for VEX three-operand or legacy two-operand forms
	two := func() (a, b []*Term, ok bool) {
		if vex {
			if len(ops) < 3 {
				unsup("operands of %s", r.where(i))
			}
			a = r.vsrc(m, ops[1], vl, i)
			b = r.vsrc(m, ops[2], vl, i)
		} else {
			if ops[1].kind == 'm' {
				r.aligned(m, ops[1], 16, i)
			}
			a = r.vsrc(m, ops[0], vl, i)
			b = r.vsrc(m, ops[1], vl, i)
		}
		return a, b, a != nil && b != nil
	}
	imm := func() int {
		o := ops[len(ops)-1]
		if o.kind != 'i' {
			unsup("immediate of %s", r.where(i))
		}
		return int(o.imm & 0xff)
	}
	if i.op == "vzeroall" {
		for k := range m.v {
			for j := range m.v[k] {
				m.v[k][j] = zero
			}
		}
		return true
	}
	if len(ops) == 0 {
		unsup("instruction %s", r.where(i))
	}
	switch op {
	case "movdqu", "lddqu", "movups", "movupd", "movdqa", "movaps", "movapd", "movntdq", "movntps", "movntdqa":
		al := op == "movdqa" || op == "movaps" || op == "movapd" || strings.HasPrefix(op, "movnt")
		if ops[0].kind == 'm' {
			if al {
				r.aligned(m, ops[0], vl, i)
			}
			return r.writeMem(m, r.addr(m, ops[0]), r.vreg(m, ops[1].reg, vl), i)
		}
		if al && ops[1].kind == 'm' {
			r.aligned(m, ops[1], vl, i)
		}
		b := r.vsrc(m, ops[1], vl, i)
		if b == nil {
			return false
		}
		r.vset(m, ops[0], b, vex, false)
		return true
	case "movd", "movq":
		n := 4
		if op == "movq" {
			n = 8
		}
		if ops[0].kind == 'x' {
			b := r.vsrc(m, ops[1], n, i)
			if b == nil {
				return false
			}
			b = append([]*Term{}, b[:n]...)
			for len(b) < 16 {
				b = append(b, zero)
			}
			r.vset(m, ops[0], b, vex, false)
			return true
		}
		b := r.vreg(m, ops[1].reg, n)
		if ops[0].kind == 'm' {
			return r.writeMem(m, r.addr(m, ops[0]), b, i)
		}
		r.setgp(m, ops[0], aval{nil, joinBytes(c, b)})
		return true
	case "movss", "movsd", "movlps", "movhps", "movlpd", "movhpd":
		n := 4
		if op != "movss" {
			n = 8
		}
		hi := op == "movhps" || op == "movhpd"
		if ops[0].kind == 'm' {
			b := r.vreg(m, ops[1].reg, 16)
			if hi {
				b = b[8:16]
			}
			return r.writeMem(m, r.addr(m, ops[0]), b[:n], i)
		}
		src := ops[len(ops)-1]
		if src.kind == 'm' && (op == "movss" || op == "movsd") {
			b := r.readMem(m, r.addr(m, src), n, i)
			if b == nil {
				return false
			}
			for len(b) < 16 {
				b = append(b, zero)
			}
			r.vset(m, ops[0], b, vex, false)
			return true
		}
		base := ops[0]
		if vex && len(ops) == 3 {
			base = ops[1]
		}
		a := append([]*Term{}, r.vreg(m, base.reg, 16)...)
		b := r.vsrc(m, src, n, i)
		if b == nil {
			return false
		}
		if hi {
			copy(a[8:], b[:8])
		} else {
			copy(a[:n], b[:n])
		}
		r.vset(m, ops[0], a, vex, false)
		return true
	case "movhlps", "movlhps":
		base, src := ops[0], ops[1]
		if vex {
			base, src = ops[1], ops[2]
		}
		a := append([]*Term{}, r.vreg(m, base.reg, 16)...)
		b := r.vreg(m, src.reg, 16)
		if op == "movhlps" {
			copy(a[:8], b[8:])
		} else {
			copy(a[8:], b[:8])
		}
		r.vset(m, ops[0], a, vex, false)
		return true
	case "broadcastss", "broadcastsd", "pbroadcastb", "pbroadcastw", "pbroadcastd", "pbroadcastq", "broadcasti128", "broadcastf128":
		n := map[string]int{"broadcastss": 4, "broadcastsd": 8, "pbroadcastb": 1, "pbroadcastw": 2, "pbroadcastd": 4, "pbroadcastq": 8, "broadcasti128": 16, "broadcastf128": 16}[op]
		b := r.vsrc(m, ops[1], n, i)
		if b == nil {
			return false
		}
		var out []*Term
		for len(out) < ops[0].size {
			out = append(out, b[:n]...)
		}
		r.vset(m, ops[0], out, true, false)
		return true
	case "insertf128", "inserti128":
		a := append([]*Term{}, r.vreg(m, ops[1].reg, 32)...)
		b := r.vsrc(m, ops[2], 16, i)
		if b == nil {
			return false
		}
		copy(a[16*(imm()&1):], b)
		r.vset(m, ops[0], a, true, false)
		return true
	case "extractf128", "extracti128":
		a := r.vreg(m, ops[1].reg, 32)
		b := a[16*(imm()&1):][:16]
		if ops[0].kind == 'm' {
			return r.writeMem(m, r.addr(m, ops[0]), b, i)
		}
		r.vset(m, ops[0], b, true, false)
		return true
	case "perm2f128", "perm2i128":
		a, b, ok := r.vreg(m, ops[1].reg, 32), r.vsrc(m, ops[2], 32, i), true
		if b == nil || !ok {
			return false
		}
		k := imm()
		var out []*Term
		for h := 0; h < 2; h++ {
			s := k >> uint(4*h)
			if s&8 != 0 {
				for j := 0; j < 16; j++ {
					out = append(out, zero)
				}
				continue
			}
			src := a
			if s&2 != 0 {
				src = b
			}
			out = append(out, src[16*(s&1):][:16]...)
		}
		r.vset(m, ops[0], out, true, false)
		return true
	case "permq":
		b := r.vsrc(m, ops[1], 32, i)
		if b == nil {
			return false
		}
		k := imm()
		var out []*Term
		for h := 0; h < 4; h++ {
			s := k >> uint(2*h) & 3
			out = append(out, b[8*s:8*s+8]...)
		}
		r.vset(m, ops[0], out, true, false)
		return true
	case "permd", "permps":
		a, b, ok := two()
		if !ok {
			return false
		}
		idx := laneJoin(c, a, 32)
		src := laneJoin(c, b, 32)
		var out []*Term
		for _, t := range idx {
			sel := c.Zext(c.Extract(t, 2, 0), 64)
			out = append(out, muxBytes(c, sel, 0, 7, func(k uint64) *Term { return src[k] }))
		}
		r.vset(m, ops[0], laneSplit(ex, out), true, true)
		return true
	case "pblendd", "blendps":
		a, b, ok := two()
		if !ok {
			return false
		}
		k := imm()
		out := append([]*Term{}, a...)
		for j := 0; j < vl/4; j++ {
			if k>>uint(j)&1 != 0 {
				copy(out[4*j:4*j+4], b[4*j:4*j+4])
			}
		}
		r.vset(m, ops[0], out, vex, false)
		return true
	case "pblendw":
		a, b, ok := two()
		if !ok {
			return false
		}
		k := imm()
		out := append([]*Term{}, a...)
		for j := 0; j < vl/2; j++ {
			if k>>uint(j%8)&1 != 0 {
				copy(out[2*j:2*j+2], b[2*j:2*j+2])
			}
		}
		r.vset(m, ops[0], out, vex, false)
		return true
	case "pblendvb":
		a, b, ok := two()
		if !ok {
			return false
		}
		mk := r.vreg(m, 0, vl)
		if vex {
			mk = r.vreg(m, ops[3].reg, vl)
		}
		out := make([]*Term, vl)
		for j := range out {
			out[j] = c.Ite(c.Eq(sign(c, mk[j]), c.Const(1, 1)), b[j], a[j])
		}
		r.vset(m, ops[0], out, vex, true)
		return true
	case "palignr":
		a, b, ok := two()
		if !ok {
			return false
		}
		k := imm()
		var out []*Term
		for l := 0; l < vl; l += 16 {
			cat := append(append([]*Term{}, b[l:l+16]...), a[l:l+16]...)
			for j := 0; j < 16; j++ {
				if j+k < 32 {
					out = append(out, cat[j+k])
				} else {
					out = append(out, zero)
				}
			}
		}
		r.vset(m, ops[0], out, vex, false)
		return true
	case "pshufd", "pshuflw", "pshufhw", "permilps":
		if op == "permilps" && ops[len(ops)-1].kind != 'i' {
			unsup("instruction %s", r.where(i))
		}
		if !vex && ops[1].kind == 'm' {
			r.aligned(m, ops[1], 16, i)
		}
		b := r.vsrc(m, ops[1], vl, i)
		if b == nil {
			return false
		}
		k := imm()
		out := lanes128(b, func(l []*Term) []*Term {
			o := append([]*Term{}, l...)
			for j := 0; j < 4; j++ {
				s := k >> uint(2*j) & 3
				switch op {
				case "pshuflw":
					copy(o[2*j:2*j+2], l[2*s:2*s+2])
				case "pshufhw":
					copy(o[8+2*j:8+2*j+2], l[8+2*s:8+2*s+2])
				default:
					copy(o[4*j:4*j+4], l[4*s:4*s+4])
				}
			}
			return o
		})
		r.vset(m, ops[0], out, vex, false)
		return true
	case "shufps":
		a, b, ok := two()
		if !ok {
			return false
		}
		k := imm()
		var out []*Term
		for l := 0; l < vl; l += 16 {
			for j := 0; j < 4; j++ {
				s := l + 4*(k>>uint(2*j)&3)
				src := a
				if j >= 2 {
					src = b
				}
				out = append(out, src[s:s+4]...)
			}
		}
		r.vset(m, ops[0], out, vex, false)
		return true
	case "punpcklbw", "punpcklwd", "punpckldq", "punpcklqdq", "punpckhbw", "punpckhwd", "punpckhdq", "punpckhqdq", "unpcklps", "unpckhps", "unpcklpd", "unpckhpd":
		a, b, ok := two()
		if !ok {
			return false
		}
		n := 1
		switch {
		case strings.HasSuffix(op, "qdq") || strings.HasSuffix(op, "pd"):
			n = 8
		case strings.HasSuffix(op, "dq") || strings.HasSuffix(op, "ps"):
			n = 4
		case strings.HasSuffix(op, "wd"):
			n = 2
		}
		hi := strings.Contains(op, "ckh")
		var out []*Term
		for l := 0; l < vl; l += 16 {
			s := l
			if hi {
				s += 8
			}
			for j := 0; j < 8; j += n {
				out = append(out, a[s+j:s+j+n]...)
				out = append(out, b[s+j:s+j+n]...)
			}
		}
		r.vset(m, ops[0], out, vex, false)
		return true
	case "packuswb", "packsswb", "packusdw", "packssdw":
		a, b, ok := two()
		if !ok {
			return false
		}
		sw := 16
		if strings.HasSuffix(op, "dw") {
			sw = 32
		}
		f := satU
		if strings.HasPrefix(op, "packss") {
			f = satS
		}
		var out []*Term
		for l := 0; l < vl; l += 16 {
			for _, src := range [][]*Term{a[l : l+16], b[l : l+16]} {
				for _, t := range laneJoin(c, src, sw) {
					out = append(out, ex.intBytes(f(c, t, sw/2))...)
				}
			}
		}
		r.vset(m, ops[0], out, vex, true)
		return true
	case "pslldq", "psrldq":
		src := ops[0]
		if vex {
			src = ops[1]
		}
		b := r.vsrc(m, src, vl, i)
		if b == nil {
			return false
		}
		k := min(imm(), 16)
		out := lanes128(b, func(l []*Term) []*Term {
			o := make([]*Term, 16)
			for j := range o {
				s := j - k
				if op == "psrldq" {
					s = j + k
				}
				o[j] = zero
				if s >= 0 && s < 16 {
					o[j] = l[s]
				}
			}
			return o
		})
		r.vset(m, ops[0], out, vex, false)
		return true
	case "psllw", "pslld", "psllq", "psrlw", "psrld", "psrlq", "psraw", "psrad":
		w := laneW[op[len(op)-1]]
		src := ops[0]
		if vex {
			src = ops[1]
		}
		cnt := ops[len(ops)-1]
		b := r.vsrc(m, src, vl, i)
		if b == nil {
			return false
		}
		var kt *Term
		if cnt.kind == 'i' {
			kt = c.Const(64, uint64(cnt.imm)&0xff)
		} else {
			kb := r.vsrc(m, cnt, 16, i)
			if kb == nil {
				return false
			}
			kt = joinBytes(c, kb[:8])
		}
		var out []*Term
		for _, t := range laneJoin(c, b, w) {
			out = append(out, r.vshift(op, t, kt))
		}
		r.vset(m, ops[0], laneSplit(ex, out), vex, true)
		return true
	case "psllvd", "psllvq", "psrlvd", "psrlvq", "psravd":
		a, b, ok := two()
		if !ok {
			return false
		}
		w := laneW[op[len(op)-1]]
		ks := laneJoin(c, b, w)
		var out []*Term
		for j, t := range laneJoin(c, a, w) {
			out = append(out, r.vshift(op[:4], t, c.Zext(ks[j], 64)))
		}
		r.vset(m, ops[0], laneSplit(ex, out), true, true)
		return true
	case "pshufb":
		a, b, ok := two()
		if !ok {
			return false
		}
		out := make([]*Term, vl)
		for j := range out {
			l := j &^ 15
			mk := b[j]
			sel := c.Zext(c.Extract(mk, 3, 0), 64)
			v := muxBytes(c, sel, sel.ulo, sel.uhi, func(k uint64) *Term { return a[l+int(k)] })
			out[j] = c.Ite(c.Eq(sign(c, mk), c.Const(1, 1)), zero, v)
		}
		r.vset(m, ops[0], out, vex, true)
		return true
	case "pmovmskb", "movmskps", "movmskpd":
		b := r.vsrc(m, ops[1], vl, i)
		if b == nil {
			return false
		}
		st := 1
		if op == "movmskps" {
			st = 4
		} else if op == "movmskpd" {
			st = 8
		}
		var ps []*Term
		for j := st - 1; j < vl; j += st {
			ps = append([]*Term{sign(c, b[j])}, ps...)
		}
		v := c.Concat(ps...)
		if v.w == 16 { // recognise control bytes
			v = c.Concat(c.Canon(c.Extract(v, 15, 8)), c.Canon(c.Extract(v, 7, 0)))
		}
		v = c.Canon(v)
		r.setgp(m, ops[0], aval{nil, c.Zext(v, 8*ops[0].size)})
		return true
	case "ptest":
		a := r.vsrc(m, ops[0], vl, i)
		b := r.vsrc(m, ops[1], vl, i)
		if a == nil || b == nil {
			return false
		}
		z, cf := c.T, c.T
		for j := range a {
			z = c.BAnd(z, c.Eq(c.And(a[j], b[j]), zero))
			cf = c.BAnd(cf, c.Eq(c.And(c.Not(a[j]), b[j]), zero))
		}
		m.zf, m.cf, m.sf, m.of, m.pf = z, cf, c.F, c.F, c.F
		return true
	case "pextrb", "pextrw", "pextrd", "pextrq":
		n := laneW[op[5]] / 8
		a := r.vreg(m, ops[1].reg, 16)
		k := imm() % (16 / n)
		b := a[k*n : k*n+n]
		if ops[0].kind == 'm' {
			return r.writeMem(m, r.addr(m, ops[0]), b, i)
		}
		r.setgp(m, ops[0], aval{nil, c.Zext(joinBytes(c, b), 8*ops[0].size)})
		return true
	case "pinsrb", "pinsrw", "pinsrd", "pinsrq":
		n := laneW[op[5]] / 8
		base, src := ops[0], ops[1]
		if vex {
			base, src = ops[1], ops[2]
		}
		a := append([]*Term{}, r.vreg(m, base.reg, 16)...)
		b := r.vsrc(m, src, n, i)
		if b == nil {
			return false
		}
		k := imm() % (16 / n)
		copy(a[k*n:k*n+n], b[:n])
		r.vset(m, ops[0], a, vex, true)
		return true
	case "pabsb", "pabsw", "pabsd":
		b := r.vsrc(m, ops[1], vl, i)
		if b == nil {
			return false
		}
		var out []*Term
		for _, t := range laneJoin(c, b, laneW[op[4]]) {
			out = append(out, c.Ite(c.Eq(sign(c, t), c.Const(1, 1)), c.Neg(t), t))
		}
		r.vset(m, ops[0], laneSplit(ex, out), vex, true)
		return true
	case "phaddd", "phaddw":
		a, b, ok := two()
		if !ok {
			return false
		}
		w := laneW[op[5]]
		var out []*Term
		for l := 0; l < vl; l += 16 {
			for _, src := range [][]*Term{a[l : l+16], b[l : l+16]} {
				ls := laneJoin(c, src, w)
				for j := 0; j < len(ls); j += 2 {
					out = append(out, c.Add(ls[j], ls[j+1]))
				}
			}
		}
		r.vset(m, ops[0], laneSplit(ex, out), vex, true)
		return true
	}
	if strings.HasPrefix(op, "pmovzx") || strings.HasPrefix(op, "pmovsx") {
		if len(op) == 8 {
			f, t := laneW[op[6]], laneW[op[7]]
			if f > 0 && t > f {
				cnt := vl * 8 / t
				b := r.vsrc(m, ops[1], cnt*f/8, i)
				if b == nil {
					return false
				}
				var out []*Term
				for _, x := range laneJoin(c, b, f) {
					if op[4] == 'z' {
						out = append(out, c.Zext(x, t))
					} else {
						out = append(out, c.Sext(x, t))
					}
				}
				r.vset(m, ops[0], laneSplit(ex, out), vex, true)
				return true
			}
		}
	}
	if w, f := r.laneOp(op); f != nil && w > 0 {
		// zeroing and all-ones idioms do not read the register
		s1, s2 := ops[0], ops[1]
		if vex {
			if len(ops) < 3 {
				unsup("operands of %s", r.where(i))
			}
			s1, s2 = ops[1], ops[2]
		}
		_ = s1
		if s1.kind == 'x' && s2.kind == 'x' && s1.reg == s2.reg && (op == "pxor" || op == "xorps" || op == "xorpd" || strings.HasPrefix(op, "pcmpeq")) {
			v := zero
			if op[0] == 'p' && op[1] == 'c' {
				v = c.Const(8, 255)
			}
			out := make([]*Term, vl)
			for j := range out {
				out[j] = v
			}
			r.vset(m, ops[0], out, vex, false)
			return true
		}
		a, b, ok := two()
		if !ok {
			return false
		}
		la, lb := laneJoin(c, a, w), laneJoin(c, b, w)
		out := make([]*Term, len(la))
		for j := range out {
			out[j] = f(c, la[j], lb[j])
		}
		r.vset(m, ops[0], laneSplit(ex, out), vex, w == 32)
		return true
	}
	unsup("instruction %s", r.where(i))
	return false
}

func (r *asmRun) vshift(op string, t, k *Term) *Term {
	c := r.ex.c
	w := uint64(t.w)
	big := c.BNot(c.Ult(k, c.Const(64, w)))
	var kk *Term
	kk = c.Extract(k, min(63, t.w-1), 0)
	if kk.w < t.w {
		kk = c.Zext(kk, t.w)
	}
	var v *Term
	switch {
	case strings.HasPrefix(op, "psll"):
		v = c.Shift(OpShl, t, kk)
	case strings.HasPrefix(op, "psrl"):
		v = c.Shift(OpLshr, t, kk)
	default:
		v = c.Shift(OpAshr, t, kk)
		return c.Ite(big, c.Sext(sign(c, t), t.w), v)
	}
	return c.Ite(big, c.Const(t.w, 0), v)
}

// aligned: an instruction that faults on a misaligned address. Only the alignment of addresses in
// the binary's own data and of offsets from objects of known alignment is decided.
func (r *asmRun) aligned(m *mach, o operand, n int, i inst) {
	a := r.addr(m, o)
	c := r.ex.c
	if a.obj == nil {
		if a.t.isConst() && a.t.c%uint64(n) == 0 {
			return
		}
	}
	// Go gives no more than element alignment: an aligned access can fault
	r.ex.events = append(r.ex.events, Event{"misaligned", "aligned vector access to memory without that alignment", r.where(i), m.st.pc})
	_ = c
}
