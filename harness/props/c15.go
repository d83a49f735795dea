package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"

	"github.com/hired/gevulot/pkg/pg"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
)

// C15: malformed messages are rejected cleanly.

type c15Case struct {
	Kind string `json:"kind"` // the decoder
	Type int    `json:"type"` // the type byte of the frame
	Body []byte `json:"body"`
	How  string `json:"how,omitempty"`
}

// mutate damages a well-formed body.
func mutate(t *rapid.T, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	edge := []uint32{0, 1, 2, 4, 5, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffb, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x40000000, 0x20000001}
	how := rapid.SampledFrom([]string{"as is", "truncate", "truncate", "int16", "int16", "int32", "int32", "int32", "byte", "insert", "delete", "append", "drop zeros", "count up"}).Draw(t, "how")
	pos := 0
	if len(b) > 0 {
		pos = rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		if rapid.Bool().Draw(t, "early") {
			pos %= 6
			if pos >= len(b) {
				pos = 0
			}
		}
	}
	switch how {
	case "truncate":
		b = b[:pos]
	case "int16":
		if pos+2 <= len(b) {
			e := rapid.SampledFrom(edge).Draw(t, "value")
			b[pos], b[pos+1] = byte(e>>8), byte(e)
		}
	case "int32":
		if pos+4 <= len(b) {
			e := rapid.SampledFrom(edge).Draw(t, "value")
			b[pos], b[pos+1], b[pos+2], b[pos+3] = byte(e>>24), byte(e>>16), byte(e>>8), byte(e)
		}
	case "byte":
		if len(b) > 0 {
			b[pos] = rapid.Byte().Draw(t, "byte")
		}
	case "insert":
		b = append(b[:pos:pos], append(pgwire.Bytes(t, "ins", 6), b[pos:]...)...)
	case "delete":
		n := rapid.IntRange(1, 5).Draw(t, "n")
		if pos+n <= len(b) {
			b = append(b[:pos:pos], b[pos+n:]...)
		}
	case "append":
		b = append(b, pgwire.Bytes(t, "app", 6)...)
	case "drop zeros":
		b = bytes.Replace(b, []byte{0}, nil, rapid.IntRange(1, 4).Draw(t, "n"))
	case "count up":
		// one more or one less than there is
		if len(b) >= 2 {
			i := rapid.SampledFrom([]int{1, 3, 5, 7}).Draw(t, "which")
			if i < len(b) {
				b[i] += byte(rapid.SampledFrom([]int{1, 255}).Draw(t, "by"))
			}
		}
	}
	return b, how
}

func genC15(t *rapid.T, env *core.Env) c15Case {
	cs := c15Case{Kind: rapid.SampledFrom(valKinds).Draw(t, "kind")}
	v := genVal(t, cs.Kind)
	cs.Type = int(typeOf(v))
	switch rapid.IntRange(0, 9).Draw(t, "source") {
	case 0:
		cs.Body, cs.How = pgwire.Bytes(t, "random", 40), "random"
	case 1:
		// a well-formed body of another kind
		cs.Body, cs.How = genVal(t, rapid.SampledFrom(valKinds).Draw(t, "other")).body(), "other body"
	default:
		cs.Body, cs.How = mutate(t, v.body())
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "more"); i < n; i++ {
			cs.Body, _ = mutate(t, cs.Body)
		}
	}
	if rapid.IntRange(0, 6).Draw(t, "othertype") == 0 && !isStartup(cs.Kind) {
		cs.Type = rapid.IntRange(0, 255).Draw(t, "type")
	}
	return cs
}

// allocated tells how many bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// memoryBound is how much memory handling n received bytes may take: proportional, plus the largest table a 16-bit
// count can ask for.
func memoryBound(n int) uint64 { return uint64(64*n) + 2<<20 }

// outcome of a decoder.
type outcome struct {
	v     val
	err   error
	panic string
}

func (o outcome) String() string {
	switch {
	case o.panic != "":
		return "a crash: " + o.panic
	case o.err != nil:
		return fmt.Sprintf("the error %q", o.err)
	}
	return o.v.String()
}

func try(f func() (pg.Message, error)) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	m, err := f()
	if err != nil {
		o.err = err
		return
	}
	o.v, err = valueOf(m)
	if err != nil {
		o.panic = fmt.Sprintf("neither a message nor an error (%v)", err)
	}
	return
}

// embed puts the frame into a larger buffer: what lies behind it must not matter.
func embed(wire []byte, poison byte) []byte {
	big := bytes.Repeat([]byte{poison}, len(wire)+400)
	copy(big, wire)
	return big[:len(wire)]
}

func runC15(c *core.Ctx, cs c15Case) error {
	c.Label(cs.Kind)
	var wire []byte
	if isStartup(cs.Kind) {
		wire = append(pgwire.I32(nil, len(cs.Body)+4), cs.Body...)
	} else {
		wire = append(append([]byte{byte(cs.Type)}, pgwire.I32(nil, len(cs.Body)+4)...), cs.Body...)
	}
	parse := parser(cs.Kind)
	var exact outcome
	tight := append(make([]byte, 0, len(wire)), wire...)
	n := allocated(func() {
		exact = try(func() (pg.Message, error) { return parse(frameOf(cs.Kind, tight[:len(tight):len(tight)])) })
	})
	desc := fmt.Sprintf("decoding %s (%d bytes, %s) as %s", hexAround(wire, 0), len(wire), cs.How, cs.Kind)
	if exact.panic != "" {
		return violf("%s yields %s", desc, exact)
	}
	if n > memoryBound(len(wire)) {
		return violf("%s allocates %d bytes", desc, n)
	}
	if !bytes.Equal(tight, wire) {
		return violf("%s changes the received bytes", desc)
	}
	for _, poison := range []byte{0x00, 0x41, 0xff} {
		o := try(func() (pg.Message, error) { return parse(frameOf(cs.Kind, embed(wire, poison))) })
		if o.panic != "" || (o.err == nil) != (exact.err == nil) || o.err == nil && !sameVal(o.v, exact.v) {
			return violf("%s depends on the bytes behind the message: %s with %#x there, %s with nothing there", desc, o, poison, exact)
		}
	}
	kindType := typeOf(val{Kind: cs.Kind})
	if !isStartup(cs.Kind) && cs.Kind != "generic" && byte(cs.Type) != kindType {
		c.Label("of another kind")
		if exact.err == nil {
			return violf("%s: a message of type %q was accepted by the decoder for %q: %s", desc, byte(cs.Type), kindType, exact)
		}
		c.NonTrivial()
		return nil
	}
	want, verd := strict(cs.Kind, cs.Body)
	if cs.Kind == "generic" {
		want.Type = cs.Type
	}
	switch verd {
	case mustDecode:
		c.Label("well-formed")
		if exact.err != nil || !sameVal(exact.v, want) {
			return violf("%s yields %s instead of %s", desc, exact, want)
		}
	case mayDecode:
		c.Label("tolerable")
		c.NonTrivial()
		if exact.err == nil && want.Kind != "?" && !sameVal(exact.v, want) {
			return violf("%s yields %s instead of an error or %s", desc, exact, want)
		}
	case mustFail:
		c.Label("malformed")
		c.NonTrivial()
		if exact.err == nil {
			return violf("%s yields %s instead of an error: something is missing, negative or longer than the body", desc, exact)
		}
	}
	return nil
}

// Streams: whatever arrives on a connection.

type c15Stream struct {
	Startup bool   `json:"startup"`
	Data    []byte `json:"data"`
	Chunks  []int  `json:"chunks,omitempty"`
}

func genC15Stream(t *rapid.T, env *core.Env) c15Stream {
	cs := c15Stream{Startup: rapid.IntRange(0, 2).Draw(t, "startup") == 0, Chunks: genChunks(t)}
	one := func() []byte {
		kind := rapid.SampledFrom(valKinds).Draw(t, "kind")
		if isStartup(kind) != cs.Startup {
			kind = "data row"
			if cs.Startup {
				kind = "startup"
			}
		}
		v := genVal(t, kind)
		body, _ := mutate(t, v.body())
		n := len(body) + 4
		if rapid.IntRange(0, 3).Draw(t, "lie") == 0 {
			n = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, -1, -2147483648, 2147483647, 2147483644, 1 << 30, 1 << 28, 1 << 24, 1 << 16, 65535, n + 1, n - 1}).Draw(t, "declared")
		}
		if cs.Startup {
			return append(pgwire.I32(nil, n), body...)
		}
		ty := typeOf(v)
		if rapid.IntRange(0, 5).Draw(t, "othertype") == 0 {
			ty = rapid.Byte().Draw(t, "type")
		}
		return append(append([]byte{ty}, pgwire.I32(nil, n)...), body...)
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
		cs.Data = append(cs.Data, one()...)
	}
	return cs
}

func runC15Stream(c *core.Ctx, cs c15Stream) error {
	r := &chunkReader{data: append([]byte{}, cs.Data...), chunks: cs.Chunks}
	conn := pg.NewConn(&memConn{r: r})
	received := 0
	for i := 0; i < 50; i++ {
		var o outcome
		n := allocated(func() {
			o = try(func() (pg.Message, error) {
				if cs.Startup {
					m, err := conn.RecvStartupMessage()
					if m == nil && err == nil {
						return nil, nil
					}
					if err != nil {
						return nil, err
					}
					return m, nil
				}
				return conn.RecvMessage()
			})
		})
		if o.panic != "" {
			return violf("receiving message %d of the stream %s yields %s", i, hexAround(cs.Data, 0), o)
		}
		if n > memoryBound(len(cs.Data)) {
			return violf("receiving message %d of the stream %s, %d bytes of which have arrived, allocates %d bytes", i, hexAround(cs.Data, 0), len(cs.Data), n)
		}
		if o.err != nil {
			if errors.Is(o.err, io.EOF) && r.off == len(cs.Data) {
				c.Label("read to the end")
			}
			break
		}
		received++
	}
	c.LabelIf(received > 0, "messages received")
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C15",
		Rule: "bodies: a decoder and a body made by damaging a well-formed one (cut, edge values written over integers, bytes inserted, removed or changed), a body of another kind or random bytes; non-trivial = not well-formed. Sizes: messages of particular sizes (as in C14) that are cut, continued or declare other counts and lengths. Streams: damaged messages with lying lengths received from a connection; every case counts",
		Subs: []core.Sub{
			&core.Check[c15Case]{Name: "bodies", Quick: 100000, Thorough: 6000000, Gen: genC15, Run: runC15},
			&core.Check[sizeCase]{Name: "sizes", Quick: 4000, Thorough: 120000, Gen: genC15Sizes, Run: runC15Sizes},
			&core.Check[c15Stream]{Name: "streams", Quick: 40000, Thorough: 2400000, Gen: genC15Stream, Run: runC15Stream},
		},
	})
}
