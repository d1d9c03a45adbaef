package main

const replaySrc = `//go:build go1.21

package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

//IMPORTS
)

var funcs = map[string]interface{}{
//FUNCS
}

// Arg: a number, a table name, or a slice in a guarded region.
type Arg struct {
	Int   *uint64 ` + "`json:\"int,omitempty\"`" + `
	Table string  ` + "`json:\"table,omitempty\"`" + `
	Slice *Slice  ` + "`json:\"slice,omitempty\"`" + `
}
type Slice struct {
	Data string ` + "`json:\"data\"`" + ` // base64 of cap*size bytes (shorter: zero filled)
	Len  int    ` + "`json:\"len\"`" + `
	Cap  int    ` + "`json:\"cap\"`" + `
	Nil  bool   ` + "`json:\"nil,omitempty\"`" + `
	Low  bool   ` + "`json:\"low,omitempty\"`" + ` // guard page before the buffer instead of behind it
	Same int    ` + "`json:\"same,omitempty\"`" + ` // 1+index of an earlier argument whose region this slice shares
	Off  int    ` + "`json:\"off,omitempty\"`" + `
	RO   bool   ` + "`json:\"ro,omitempty\"`" + ` // map the region read-only
	Fit  bool   ` + "`json:\"fit,omitempty\"`" + ` // the region is as large as data: capacity beyond it is in the guard page
}
type Req struct {
	Fn   string ` + "`json:\"fn\"`" + `
	Args []Arg  ` + "`json:\"args\"`" + `
	Poke []uint64 ` + "`json:\"poke,omitempty\"`" + ` // addresses of instructions to make illegal
	Again *Req  ` + "`json:\"again,omitempty\"`" + ` // a second call made before the results of the first are looked at
	Peek []Peek ` + "`json:\"peek,omitempty\"`" + ` // memory of package variables to report before and after the call
}
type Peek struct {
	Addr  uint64 ` + "`json:\"addr\"`" + `
	Deref bool   ` + "`json:\"deref,omitempty\"`" + `
	Off   int    ` + "`json:\"off,omitempty\"`" + `
	Len   int    ` + "`json:\"len\"`" + `
	Slice bool   ` + "`json:\"slice,omitempty\"`" + ` // the variable is a slice; len is the size of an element
}

func peek(p Peek) string {
	a := uintptr(p.Addr)
	if p.Slice {
		h := (*[3]uintptr)(unsafe.Pointer(a))
		n := int(h[2]) * p.Len
		if h[0] == 0 || n <= 0 {
			return ""
		}
		if n > 1<<16 {
			n = 1 << 16
		}
		return base64.StdEncoding.EncodeToString(unsafe.Slice((*byte)(unsafe.Pointer(h[0])), n))
	}
	if p.Deref {
		a = *(*uintptr)(unsafe.Pointer(a))
		if a == 0 {
			return ""
		}
	}
	return base64.StdEncoding.EncodeToString(unsafe.Slice((*byte)(unsafe.Pointer(a+uintptr(p.Off))), p.Len))
}
type Resp struct {
	Panic  string   ` + "`json:\"panic,omitempty\"`" + `
	Fault  uint64   ` + "`json:\"fault,omitempty\"`" + `
	Err    string   ` + "`json:\"err,omitempty\"`" + `
	Rets   []Ret    ` + "`json:\"rets,omitempty\"`" + `
	Bufs   []string ` + "`json:\"bufs,omitempty\"`" + ` // contents of every slice argument's region afterwards
	Canary bool     ` + "`json:\"canary,omitempty\"`" + ` // bytes around a region changed
	Before []string ` + "`json:\"before,omitempty\"`" + `
	After  []string ` + "`json:\"after,omitempty\"`" + `
}
type Ret struct {
	Int  uint64 ` + "`json:\"int\"`" + `
	Data string ` + "`json:\"data,omitempty\"`" + `
	Len  int    ` + "`json:\"len,omitempty\"`" + `
}

const page = 4096

type region struct {
	all  []byte
	buf  []byte
	lead []byte
	tail []byte
	mid  []byte
	data int
}

func mk(n int, low bool) *region {
	pg := (n + page - 1) / page
	if pg == 0 {
		pg = 1
	}
	m, err := syscall.Mmap(-1, 0, (pg+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	r := &region{all: m, mid: m[page : (pg+1)*page]}
	for i := range r.mid {
		r.mid[i] = 0xA5
	}
	if low {
		r.buf = r.mid[:n:n]
		r.tail = r.mid[n:]
	} else {
		r.buf = r.mid[len(r.mid)-n:]
		r.lead = r.mid[:len(r.mid)-n]
	}
	syscall.Mprotect(m[:page], syscall.PROT_NONE)
	syscall.Mprotect(m[(pg+1)*page:], syscall.PROT_NONE)
	return r
}

func sliceOf(t reflect.Type, p unsafe.Pointer, ln, cp int) reflect.Value {
	v := reflect.New(t)
	h := (*[3]uintptr)(v.UnsafePointer())
	*(*unsafe.Pointer)(unsafe.Pointer(h)) = p
	h[1], h[2] = uintptr(ln), uintptr(cp)
	return v.Elem()
}

func do(q *Req) (resp *Resp) {
	resp = &Resp{}
	f, ok := funcs[q.Fn]
	if !ok {
		resp.Err = "no function " + q.Fn
		return
	}
	fv := reflect.ValueOf(f)
	if fv.Kind() != reflect.Func {
		// a table
		e := fv.Elem()
		n := int(e.Type().Size())
		b := unsafe.Slice((*byte)(fv.UnsafePointer()), n)
		resp.Rets = append(resp.Rets, Ret{Data: base64.StdEncoding.EncodeToString(b), Len: n})
		return
	}
	var args []reflect.Value
	regs := make([]*region, len(q.Args))
	for i, a := range q.Args {
		t := fv.Type().In(i)
		switch {
		case a.Int != nil:
			v := reflect.New(t).Elem()
			switch t.Kind() {
			case reflect.Bool:
				v.SetBool(*a.Int != 0)
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				v.SetInt(int64(*a.Int))
			default:
				v.SetUint(*a.Int)
			}
			args = append(args, v)
		case a.Table != "":
			args = append(args, reflect.ValueOf(funcs[a.Table]))
		case a.Slice != nil:
			s := a.Slice
			es := int(t.Elem().Size())
			if s.Nil {
				args = append(args, reflect.Zero(t))
				continue
			}
			var r *region
			if s.Same > 0 {
				r = regs[s.Same-1]
			} else {
				d, _ := base64.StdEncoding.DecodeString(s.Data)
				n := s.Cap * es
				if s.Fit || len(d) > n {
					n = len(d)
				}
				r = mk(n, s.Low)
				copy(r.buf, d)
				for k := len(d); k < n; k++ {
					r.buf[k] = 0
				}
				r.data = len(d)
				regs[i] = r
			}
			p := unsafe.Pointer(&r.all[page])
			if len(r.buf) > 0 {
				p = unsafe.Pointer(uintptr(unsafe.Pointer(&r.buf[0])) + uintptr(s.Off))
			} else if !s.Low {
				p = unsafe.Pointer(uintptr(unsafe.Pointer(&r.mid[0])) + uintptr(len(r.mid)))
			}
			if s.RO {
				syscall.Mprotect(r.mid, syscall.PROT_READ)
			}
			args = append(args, sliceOf(t, p, s.Len, s.Cap))
		default:
			resp.Err = "argument"
			return
		}
	}
	for _, a := range q.Poke {
		pg := a &^ (page - 1)
		m := unsafe.Slice((*byte)(unsafe.Pointer(uintptr(pg))), 2*page)
		if err := syscall.Mprotect(m, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
			resp.Err = err.Error()
			return
		}
		m[a-pg], m[a-pg+1] = 0x0f, 0x0b
		syscall.Mprotect(m, syscall.PROT_READ|syscall.PROT_EXEC)
	}
	for _, p := range q.Peek {
		resp.Before = append(resp.Before, peek(p))
	}
	var rets []reflect.Value
	func() {
		defer func() {
			if e := recover(); e != nil {
				resp.Panic = fmt.Sprint(e)
				if a, ok := e.(interface{ Addr() uintptr }); ok {
					resp.Fault = uint64(a.Addr())
				}
			}
		}()
		debug.SetPanicOnFault(true)
		rets = fv.Call(args)
	}()
	if q.Again != nil {
		do(q.Again)
	}
	for _, p := range q.Peek {
		resp.After = append(resp.After, peek(p))
	}
	for _, v := range rets {
		var r Ret
		switch v.Kind() {
		case reflect.Slice:
			es := int(v.Type().Elem().Size())
			r.Len = v.Len()
			if v.Len() > 0 {
				r.Data = base64.StdEncoding.EncodeToString(unsafe.Slice((*byte)(v.UnsafePointer()), v.Len()*es))
			}
		case reflect.Bool:
			if v.Bool() {
				r.Int = 1
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r.Int = uint64(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			r.Int = v.Uint()
		}
		resp.Rets = append(resp.Rets, r)
	}
	for _, r := range regs {
		s := ""
		if r != nil {
			s = base64.StdEncoding.EncodeToString(r.buf[:r.data])
			for _, b := range r.lead {
				resp.Canary = resp.Canary || b != 0xA5
			}
			for _, b := range r.tail {
				resp.Canary = resp.Canary || b != 0xA5
			}
			syscall.Munmap(r.all)
		}
		resp.Bufs = append(resp.Bufs, s)
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var q Req
		if err := dec.Decode(&q); err != nil {
			return
		}
		enc.Encode(do(&q))
		out.Flush()
	}
}
`
