package main

// Running the real code on concrete inputs, and concrete reference semantics to compare with.

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type RArg struct {
	Int   *uint64 `json:"int,omitempty"`
	Table string  `json:"table,omitempty"`
	Slice *RSlice `json:"slice,omitempty"`
}

type RSlice struct {
	Data string `json:"data"`
	Len  int    `json:"len"`
	Cap  int    `json:"cap"`
	Nil  bool   `json:"nil,omitempty"`
	Low  bool   `json:"low,omitempty"`
	Same int    `json:"same,omitempty"`
	Off  int    `json:"off,omitempty"`
	RO   bool   `json:"ro,omitempty"`
	Fit  bool   `json:"fit,omitempty"`
}

type RReq struct {
	Fn   string   `json:"fn"`
	Args []RArg   `json:"args"`
	Poke []uint64 `json:"poke,omitempty"`
	Peek []RPeek  `json:"peek,omitempty"`
	// a second call, made before the results of the first are looked at
	Again *RReq `json:"again,omitempty"`
}

type RPeek struct {
	Addr  uint64 `json:"addr"`
	Deref bool   `json:"deref,omitempty"`
	Off   int    `json:"off,omitempty"`
	Len   int    `json:"len"`
	Slice bool   `json:"slice,omitempty"`
}

type RRet struct {
	Int  uint64 `json:"int"`
	Data string `json:"data,omitempty"`
	Len  int    `json:"len,omitempty"`
}

type RResp struct {
	Panic  string   `json:"panic,omitempty"`
	Fault  uint64   `json:"fault,omitempty"`
	Err    string   `json:"err,omitempty"`
	Rets   []RRet   `json:"rets,omitempty"`
	Bufs   []string `json:"bufs,omitempty"`
	Canary bool     `json:"canary,omitempty"`
	Before []string `json:"before,omitempty"`
	After  []string `json:"after,omitempty"`
	Crash  string   `json:"crash,omitempty"` // the process died
}

func (r *RRet) bytes() []byte {
	b, _ := base64.StdEncoding.DecodeString(r.Data)
	return b
}

func (r *RResp) buf(i int) []byte {
	b, _ := base64.StdEncoding.DecodeString(r.Bufs[i])
	return b
}

func aInt(v uint64) RArg { return RArg{Int: &v} }

func aBytes(b []byte, ln int) RArg {
	return RArg{Slice: &RSlice{Data: base64.StdEncoding.EncodeToString(b), Len: ln, Cap: len(b)}}
}

func u32bytes(x []uint32) []byte {
	b := make([]byte, 4*len(x))
	for i, v := range x {
		binary.LittleEndian.PutUint32(b[4*i:], v)
	}
	return b
}

func bytesU32(b []byte) []uint32 {
	x := make([]uint32, len(b)/4)
	for i := range x {
		x[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return x
}

func aU32(x []uint32, ln int) RArg {
	return RArg{Slice: &RSlice{Data: base64.StdEncoding.EncodeToString(u32bytes(x)), Len: ln, Cap: len(x)}}
}

// Replayer is one process of the replay program.
type Replayer struct {
	bin string
	env []string
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

func (r *Replayer) start() error {
	r.cmd = exec.Command(r.bin)
	r.cmd.Env = append(os.Environ(), r.env...)
	r.err = &strings.Builder{}
	r.cmd.Stderr = r.err
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.out = bufio.NewReaderSize(o, 1<<20)
	return r.cmd.Start()
}

func (r *Replayer) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.close()
}

func (r *Replayer) close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

// Do runs one request; a crash of the process is part of the answer.
func (r *Replayer) Do(q RReq) (*RResp, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return nil, err
		}
	}
	b, _ := json.Marshal(q)
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	cur, out := r.cmd, r.out
	go func() {
		r.in.Write(append(b, '\n'))
		l, err := out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	var x res
	select {
	case x = <-ch:
	case <-time.After(60 * time.Second):
		cur.Process.Kill()
		<-ch
		r.close()
		return &RResp{Crash: "no answer within 60 s"}, nil
	}
	if x.err != nil {
		cur.Wait()
		s := r.err.String()
		r.cmd = nil
		if len(s) > 600 {
			s = s[:600]
		}
		return &RResp{Crash: fmt.Sprintf("process died: %s", strings.TrimSpace(s))}, nil
	}
	var resp RResp
	if err := json.Unmarshal(x.line, &resp); err != nil {
		return nil, err
	}
	if resp.Err != "" {
		return nil, fmt.Errorf("replay: %s", resp.Err)
	}
	return &resp, nil
}

func (r *RResp) failure() string {
	switch {
	case r.Crash != "":
		return r.Crash
	case r.Fault != 0:
		return "fault: " + r.Panic
	case r.Panic != "":
		return "panic: " + r.Panic
	}
	return ""
}

// ---- reference semantics (concrete) ----

func refLen(v uint32) int {
	switch {
	case v < 1<<8:
		return 1
	case v < 1<<16:
		return 2
	case v < 1<<24:
		return 3
	}
	return 4
}

func refEncode(d []uint32) (ctrl, data []byte) {
	ctrl = make([]byte, (len(d)+3)/4)
	for i, v := range d {
		n := refLen(v)
		ctrl[i/4] |= byte(n-1) << uint(2*(i%4))
		for k := 0; k < n; k++ {
			data = append(data, byte(v>>uint(8*k)))
		}
	}
	return
}

func refDeltas(x []uint32, prev uint32) []uint32 {
	d := make([]uint32, len(x))
	for i, v := range x {
		d[i] = v - prev
		prev = v
	}
	return d
}

func refSize(ctrl []byte, n int) int {
	t := 0
	for i := 0; i < n; i++ {
		t += int(ctrl[i/4]>>uint(2*(i%4))&3) + 1
	}
	return t
}

// refDecode decodes n values; data must be long enough.
func refDecode(ctrl, data []byte, n int) []uint32 {
	out := make([]uint32, n)
	p := 0
	for i := range out {
		l := int(ctrl[i/4]>>uint(2*(i%4))&3) + 1
		for k := 0; k < l; k++ {
			out[i] |= uint32(data[p+k]) << uint(8*k)
		}
		p += l
	}
	return out
}

func refSums(d []uint32, prev uint32) []uint32 {
	x := make([]uint32, len(d))
	for i, v := range d {
		prev += v
		x[i] = prev
	}
	return x
}
