package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"

	"github.com/hired/gevulot/pkg/pg"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
)

// C17: wire buffers decode all or nothing and invert encoding.

type c17Op struct {
	Op   string   `json:"op"` // byte, int16, int32, string, bytes, int16s, int32s
	Int  int      `json:"int,omitempty"`
	Str  pgwire.S `json:"str,omitempty"`
	Data []byte   `json:"data,omitempty"`
	Ints []int    `json:"ints,omitempty"`
	Buf  int      `json:"buf,omitempty"` // which of two buffers
	Rep  int      `json:"rep,omitempty"` // that many more elements in front
}

// c17Long are lengths around which implementations change their ways.
var c17Long = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 140000}

// filler is n bytes other than zero.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i%251) + 1
	}
	return b
}

// expand replaces the repetition by the elements.
func (o c17Op) expand() c17Op {
	if o.Rep == 0 {
		return o
	}
	switch o.Op {
	case "string":
		o.Str = pgwire.S(filler(o.Rep)) + o.Str
	case "bytes":
		o.Data = append(filler(o.Rep), o.Data...)
	default:
		is := make([]int, o.Rep)
		for i := range is {
			is[i] = i*7 - 3000
			if o.Op == "int32s" {
				is[i] = int(int32(is[i] * 10007))
			} else {
				is[i] = int(int16(is[i]))
			}
		}
		o.Ints = append(is, o.Ints...)
	}
	return o
}

type c17Read struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"` // amount asked for
}

type c17Case struct {
	Writes []c17Op     `json:"writes"`
	Bad    [][]c17Read `json:"bad"` // tried before the read with that number
}

type c17Raw struct {
	Rep   int       `json:"rep,omitempty"` // that many more bytes in front
	Data  []byte    `json:"data"`
	Reads []c17Read `json:"reads"`
}

var c17Kinds = []string{"byte", "int16", "int32", "string", "bytes", "int16s", "int32s"}

func genC17Write(t *rapid.T) c17Op {
	o := c17Op{Op: rapid.SampledFrom(c17Kinds).Draw(t, "op"), Buf: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "buf")}
	switch o.Op {
	case "byte":
		o.Int = int(rapid.Byte().Draw(t, "byte"))
	case "int16":
		o.Int = int(int16(uint16(pgwire.Int16(t, "int16"))))
	case "int32":
		o.Int = int(int32(uint32(pgwire.Int32(t, "int32"))))
	case "string":
		o.Str = pgwire.S(pgwire.Str(t, "str", 20))
	case "bytes":
		o.Data = pgwire.Bytes(t, "data", 20)
	case "int16s":
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			o.Ints = append(o.Ints, int(int16(uint16(pgwire.Int16(t, "int16")))))
		}
	case "int32s":
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			o.Ints = append(o.Ints, int(int32(uint32(pgwire.Int32(t, "int32")))))
		}
	}
	switch o.Op {
	case "string", "bytes", "int16s", "int32s":
		if rapid.IntRange(0, 150).Draw(t, "long") == 0 {
			o.Rep = rapid.SampledFrom(c17Long).Draw(t, "rep")
		}
	}
	return o
}

func genC17Read(t *rapid.T, bad bool) c17Read {
	r := c17Read{Op: rapid.SampledFrom(c17Kinds).Draw(t, "rop")}
	if bad || rapid.Bool().Draw(t, "edge") {
		r.N = rapid.SampledFrom([]int{-1, -2, -4, -1000, math.MinInt32, math.MinInt64, math.MinInt64 + 1, -(1 << 62), -(1 << 61),
			math.MaxInt32, math.MaxInt64, 1 << 62, 1 << 61, 1<<62 + 1, 1<<61 + 1, 1 << 63 >> 1, 0x7ffffffffffffffe, 1 << 31, 1 << 32, 1<<32 + 1, 10000}).Draw(t, "n")
	} else {
		r.N = rapid.IntRange(0, 9).Draw(t, "n")
		if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
			r.N = rapid.SampledFrom(c17Long).Draw(t, "n")
		}
	}
	return r
}

func genC17(t *rapid.T, env *core.Env) c17Case {
	var cs c17Case
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "n"); i < n; i++ {
		cs.Writes = append(cs.Writes, genC17Write(t))
		var bad []c17Read
		for j, m := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nbad"); j < m; j++ {
			bad = append(bad, genC17Read(t, true))
		}
		cs.Bad = append(cs.Bad, bad)
	}
	return cs
}

func genC17Raw(t *rapid.T, env *core.Env) c17Raw {
	cs := c17Raw{Data: pgwire.Bytes(t, "data", 40)}
	if rapid.IntRange(0, 150).Draw(t, "long") == 0 {
		cs.Rep = rapid.SampledFrom(c17Long).Draw(t, "rep")
	}
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "n"); i < n; i++ {
		cs.Reads = append(cs.Reads, genC17Read(t, false))
	}
	return cs
}

// readOp performs a read; v is an int, string, []byte or []int.
func readOp(b *pg.ReadBuffer, r c17Read) (v interface{}, err error, crash string) {
	defer func() {
		if p := recover(); p != nil {
			crash = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	switch r.Op {
	case "byte":
		x, e := b.ReadByte()
		return int(x), e, ""
	case "int16":
		x, e := b.ReadInt16()
		return int(x), e, ""
	case "int32":
		x, e := b.ReadInt32()
		return int(x), e, ""
	case "string":
		x, e := b.ReadString()
		return x, e, ""
	case "bytes":
		x, e := b.ReadBytes(r.N)
		return append([]byte{}, x...), e, ""
	case "int16s":
		x, e := b.ReadInt16Array(r.N)
		is := []int{}
		for _, i := range x {
			is = append(is, int(i))
		}
		return is, e, ""
	case "int32s":
		x, e := b.ReadInt32Array(r.N)
		is := []int{}
		for _, i := range x {
			is = append(is, int(i))
		}
		return is, e, ""
	}
	panic("unknown read")
}

// modelRead is what a read of the given bytes has to yield: the value and how many bytes it takes, or ok = false.
func modelRead(b []byte, r c17Read) (v interface{}, n int, ok bool) {
	i16 := func(b []byte) int { return int(int16(uint16(b[0])<<8 | uint16(b[1]))) }
	i32 := func(b []byte) int {
		return int(int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])))
	}
	switch r.Op {
	case "byte":
		if len(b) < 1 {
			return nil, 0, false
		}
		return int(b[0]), 1, true
	case "int16":
		if len(b) < 2 {
			return nil, 0, false
		}
		return i16(b), 2, true
	case "int32":
		if len(b) < 4 {
			return nil, 0, false
		}
		return i32(b), 4, true
	case "string":
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			return nil, 0, false
		}
		return string(b[:i]), i + 1, true
	case "bytes":
		if r.N < 0 || r.N > len(b) {
			return nil, 0, false
		}
		return append([]byte{}, b[:r.N]...), r.N, true
	case "int16s":
		if r.N < 0 || r.N > len(b)/2 {
			return nil, 0, false
		}
		is := []int{}
		for i := 0; i < r.N; i++ {
			is = append(is, i16(b[2*i:]))
		}
		return is, 2 * r.N, true
	case "int32s":
		if r.N < 0 || r.N > len(b)/4 {
			return nil, 0, false
		}
		is := []int{}
		for i := 0; i < r.N; i++ {
			is = append(is, i32(b[4*i:]))
		}
		return is, 4 * r.N, true
	}
	panic("unknown read")
}

type what17 struct {
	r    c17Read
	left []byte
}

func (w what17) String() string {
	return fmt.Sprintf("reading %s (amount %d) from %s", w.r.Op, w.r.N, tail(w.left))
}

// checkRead performs a read and compares; left is what the buffer must hold, it returns what it must hold afterwards.
func checkRead(c *core.Ctx, b *pg.ReadBuffer, left []byte, r c17Read) ([]byte, error) {
	want, n, ok := modelRead(left, r)
	got, err, crash := readOp(b, r)
	what := what17{r, left}
	if crash != "" {
		return nil, violf("%s crashes: %s", what, crash)
	}
	if !ok {
		c.Label("refused read")
		if err == nil {
			return nil, violf("%s yields %v instead of an error", what, got)
		}
		if !bytes.Equal(*b, left) || b.Len() != len(left) {
			return nil, violf("%s failed as it must, but left %s in the buffer", what, tail(*b))
		}
		return left, nil
	}
	if err != nil {
		return nil, violf("%s failed: %v", what, err)
	}
	if !reflect.DeepEqual(got, want) {
		return nil, violf("%s yields %.300v instead of %.300v", what, fmt.Sprint(got), fmt.Sprint(want))
	}
	left = left[n:]
	if !bytes.Equal(*b, left) || b.Len() != len(left) {
		return nil, violf("%s must take %d bytes, but leaves %s in the buffer (length %d)", what, n, tail(*b), b.Len())
	}
	return left, nil
}

func runC17(c *core.Ctx, cs c17Case) error {
	var bufs [2]pg.WriteBuffer
	var want [2][]byte
	var reads [2][]c17Read
	var values [2][]interface{}
	var bads [2][][]c17Read
	for i, o := range cs.Writes {
		o = o.expand()
		c.LabelIf(o.Rep > 0, "long value")
		b, k := &bufs[o.Buf], o.Buf
		r := c17Read{Op: o.Op}
		var v interface{} = o.Int
		switch o.Op {
		case "byte":
			b.WriteByte(byte(o.Int))
			want[k] = append(want[k], byte(o.Int))
		case "int16":
			b.WriteInt16(int16(o.Int))
			want[k] = pgwire.I16(want[k], o.Int)
		case "int32":
			b.WriteInt32(int32(o.Int))
			want[k] = pgwire.I32(want[k], o.Int)
		case "string":
			b.WriteString(string(o.Str))
			want[k] = pgwire.CStr(want[k], string(o.Str))
			v = string(o.Str)
		case "bytes":
			d := append([]byte{}, o.Data...)
			b.WriteBytes(d)
			for j := range d {
				d[j] ^= 0x55 // the buffer holds what was written, not what becomes of it
			}
			want[k] = append(want[k], o.Data...)
			r.N = len(o.Data)
			v = append([]byte{}, o.Data...)
		case "int16s":
			a := make([]int16, len(o.Ints))
			for j, x := range o.Ints {
				a[j] = int16(x)
				want[k] = pgwire.I16(want[k], x)
			}
			b.WriteInt16Array(a)
			r.N = len(a)
			v = append([]int{}, o.Ints...)
		case "int32s":
			a := make([]int32, len(o.Ints))
			for j, x := range o.Ints {
				a[j] = int32(x)
				want[k] = pgwire.I32(want[k], x)
			}
			b.WriteInt32Array(a)
			r.N = len(a)
			v = append([]int{}, o.Ints...)
		}
		reads[k] = append(reads[k], r)
		values[k] = append(values[k], v)
		bads[k] = append(bads[k], cs.Bad[i])
		if b.Len() != len(want[k]) {
			return violf("after writing %d values the buffer has the length %d instead of %d", len(reads[k]), b.Len(), len(want[k]))
		}
	}
	for k := range bufs {
		if !bytes.Equal(bufs[k], want[k]) {
			return violf("the written values are not encoded as they must be: %v", prefixErr("encoding", bufs[k], want[k]))
		}
		rb := pg.ReadBuffer(append([]byte{}, bufs[k]...))
		left := want[k]
		var err error
		for i, r := range reads[k] {
			for _, bad := range bads[k][i] {
				if _, _, ok := modelRead(left, bad); ok {
					continue // that one can be satisfied
				}
				if left, err = checkRead(c, &rb, left, bad); err != nil {
					return err
				}
			}
			if v, _, ok := modelRead(left, r); !ok || !reflect.DeepEqual(v, values[k][i]) {
				return inconcf("the model does not invert itself")
			}
			if left, err = checkRead(c, &rb, left, r); err != nil {
				return err
			}
		}
		if len(left) != 0 {
			return inconcf("the model left %q", left)
		}
		for _, op := range c17Kinds {
			if left, err = checkRead(c, &rb, left, c17Read{Op: op, N: 1}); err != nil {
				return err
			}
		}
		if len(reads[k]) > 1 {
			c.NonTrivial()
		}
	}
	return nil
}

func runC17Raw(c *core.Ctx, cs c17Raw) error {
	if cs.Rep > 0 {
		cs.Data = append(filler(cs.Rep), cs.Data...)
	}
	// Bytes behind the buffer that are not part of it must not be read.
	big := append(append([]byte{}, cs.Data...), bytes.Repeat([]byte{0, 1, 2}, 30)...)
	rb := pg.ReadBuffer(big[:len(cs.Data)])
	left := cs.Data
	var err error
	done := 0
	for _, r := range cs.Reads {
		n := len(left)
		if left, err = checkRead(c, &rb, left, r); err != nil {
			return err
		}
		if len(left) < n {
			done++
		}
		_ = rb.Inspect()
		if !bytes.Equal(rb, left) {
			return violf("inspecting the buffer changed it")
		}
	}
	if done > 0 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C17",
		Rule: "write and read: 1 to 14 values written to two buffers, compared with an independent encoding and read back, with unsatisfiable reads (too much, negative, overflowing amounts) in between; non-trivial = at least two values in a buffer. Raw: generated reads of arbitrary bytes against a model; non-trivial = at least one read took bytes",
		Subs: []core.Sub{
			&core.Check[c17Case]{Name: "write and read", Quick: 150000, Thorough: 8000000, Gen: genC17, Run: runC17},
			&core.Check[c17Raw]{Name: "raw bytes", Quick: 150000, Thorough: 8000000, Gen: genC17Raw, Run: runC17Raw},
		},
	})
}
