package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/hired/gevulot/pkg/pg"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
)

// C16: reading a frame consumes exactly that frame.

type c16Frame struct {
	Startup bool   `json:"startup,omitempty"`
	Type    int    `json:"type,omitempty"`
	Body    []byte `json:"body"`
	Big     int    `json:"big,omitempty"` // a body of that many bytes instead
	Fill    int    `json:"fill,omitempty"`
}

func (f c16Frame) body() []byte {
	if f.Big > 0 {
		b := make([]byte, f.Big)
		fillPattern(b, f.Fill)
		return b
	}
	return f.Body
}

func (f c16Frame) wire() []byte {
	b := f.body()
	if f.Startup {
		return append(pgwire.I32(nil, len(b)+4), b...)
	}
	return append(append([]byte{byte(f.Type)}, pgwire.I32(nil, len(b)+4)...), b...)
}

type c16Case struct {
	Frames []c16Frame `json:"frames"`
	Last   string     `json:"last"` // tail, cut, length, nothing
	Tail   []byte     `json:"tail,omitempty"`
	Cut    int        `json:"cut,omitempty"`    // the last frame ends after that many bytes (modulo its length)
	Length int        `json:"length,omitempty"` // the declared length of the last frame
	Chunks []int      `json:"chunks,omitempty"`
	Early  bool       `json:"early,omitempty"`  // the end of the stream is reported together with the last bytes
	Broken bool       `json:"broken,omitempty"` // the stream ends with an error of the network
}

func genC16Frame(t *rapid.T) c16Frame {
	f := c16Frame{Startup: rapid.IntRange(0, 3).Draw(t, "startup") == 0, Body: []byte{}}
	if !f.Startup {
		f.Type = rapid.IntRange(0, 255).Draw(t, "type")
	}
	switch rapid.IntRange(0, 9).Draw(t, "size") {
	case 0:
	case 1:
		f.Big = rapid.SampledFrom([]int{247, 248, 251, 252, 253, 256, 506, 507, 508, 511, 512, 513, 1019, 1024, 4095, 4096, 4097, 65536, 70001}).Draw(t, "big")
		f.Fill = rapid.IntRange(0, 255).Draw(t, "fill")
	case 2:
		if rapid.IntRange(0, 9).Draw(t, "huge") == 0 {
			f.Big = edgeSize(t, "hugesize", 3<<20)
			if rapid.IntRange(0, 20).Draw(t, "gigantic") == 0 {
				f.Big = edgeSize(t, "giganticsize", 1<<24+9)
			}
			break
		}
		f.Body = pgwire.Bytes(t, "body", 300)
	default:
		f.Body = pgwire.Bytes(t, "body", 30)
	}
	return f
}

func genC16(t *rapid.T, env *core.Env) c16Case {
	cs := c16Case{Last: rapid.SampledFrom([]string{"tail", "tail", "cut", "cut", "length", "nothing"}).Draw(t, "last"), Early: rapid.Bool().Draw(t, "early"), Broken: rapid.IntRange(0, 3).Draw(t, "broken") == 0}
	min := 0
	if cs.Last == "cut" || cs.Last == "length" {
		min = 1
	}
	for i, n := 0, rapid.IntRange(min, 6).Draw(t, "n"); i < n; i++ {
		cs.Frames = append(cs.Frames, genC16Frame(t))
	}
	switch cs.Last {
	case "tail":
		cs.Tail = pgwire.Bytes(t, "tail", 20)
	case "cut":
		cs.Cut = rapid.IntRange(0, 1<<16).Draw(t, "cut")
		if rapid.Bool().Draw(t, "early cut") {
			cs.Cut %= 7
		}
	case "length":
		cs.Length = rapid.SampledFrom([]int{3, 2, 1, 0, -1, -2, -5, -2147483648, -2147483647, -256}).Draw(t, "length")
	}
	switch rapid.IntRange(0, 4).Draw(t, "chunking") {
	case 0:
		cs.Chunks = []int{1}
	case 1:
	default:
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nchunks"); i < n; i++ {
			cs.Chunks = append(cs.Chunks, rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 64, 255, 256, 511, 512, 513, 4096}).Draw(t, "chunk"))
		}
	}
	return cs
}

func readFrame(startup bool, r io.Reader) (f pg.Frame, err error) {
	if startup {
		g, err := pg.ReadStartupFrame(r)
		if g == nil {
			return nil, err
		}
		return g, err
	}
	g, err := pg.ReadStandardFrame(r)
	if g == nil {
		return nil, err
	}
	return g, err
}

func runC16(c *core.Ctx, cs c16Case) error {
	c.Label(cs.Last)
	var all []byte
	n := len(cs.Frames)
	good := n
	if cs.Last == "cut" || cs.Last == "length" {
		good--
	}
	for _, f := range cs.Frames[:good] {
		all = append(all, f.wire()...)
	}
	var lastWire []byte
	if good < n {
		lastWire = cs.Frames[good].wire()
		if cs.Last == "cut" {
			lastWire = lastWire[:cs.Cut%len(lastWire)]
		} else {
			at := 1
			if cs.Frames[good].Startup {
				at = 0
			}
			copy(lastWire[at:], pgwire.I32(nil, cs.Length))
		}
	}
	all = append(all, lastWire...)
	all = append(all, cs.Tail...)
	r := &chunkReader{data: append([]byte{}, all...), chunks: cs.Chunks, early: cs.Early}
	if cs.Broken {
		r.err = errors.New("connection reset by peer")
	}
	var frames []pg.Frame
	at := 0
	for i, f := range cs.Frames[:good] {
		w := f.wire()
		what := fmt.Sprintf("frame %d (type %q, %d bytes in all)", i, byte(f.Type), len(w))
		g, err := readFrame(f.Startup, r)
		if err != nil {
			return violf("reading %s failed: %v", what, err)
		}
		if g == nil {
			return violf("reading %s yields neither a frame nor an error", what)
		}
		if !bytes.Equal(g.Bytes(), w) {
			return violf("%s was read as %d bytes: %s instead of %s", what, len(g.Bytes()), hexDiff(g.Bytes(), w), hexDiff(w, g.Bytes()))
		}
		if !bytes.Equal(g.MessageBody(), f.body()) {
			return violf("%s has another body: %s instead of %s", what, hexDiff(g.MessageBody(), f.body()), hexDiff(f.body(), g.MessageBody()))
		}
		if !f.Startup && g.MessageType() != byte(f.Type) {
			return violf("%s has the type %q", what, g.MessageType())
		}
		at += len(w)
		if r.off != at {
			return violf("reading %s took %d bytes from the stream instead of %d", what, r.off-(at-len(w)), len(w))
		}
		frames = append(frames, g)
	}
	if good < n {
		f := cs.Frames[good]
		g, err := readFrame(f.Startup, r)
		what := fmt.Sprintf("a frame cut after %d of %d bytes", len(lastWire), len(f.wire()))
		if cs.Last == "length" {
			what = fmt.Sprintf("a frame with the declared length %d", cs.Length)
		}
		if err == nil {
			return violf("reading %s yields no error but the frame %v", what, g)
		}
		if g != nil && len(g.Bytes()) > 0 {
			return violf("reading %s yields an error and a frame: %v, %v", what, err, g)
		}
		c.NonTrivial()
	}
	if cs.Last == "nothing" {
		for _, s := range []bool{false, true} {
			if g, err := readFrame(s, r); err == nil {
				return violf("reading from the end of the stream yields no error but the frame %v", g)
			}
		}
	}
	// Frames stay what they were.
	for i, g := range frames {
		if !bytes.Equal(g.Bytes(), cs.Frames[i].wire()) {
			return violf("frame %d changed when later ones were read", i)
		}
	}
	if cs.Last == "tail" {
		rest, _ := io.ReadAll(&chunkReader{data: r.data[r.off:]})
		if !bytes.Equal(rest, cs.Tail) {
			return violf("the rest of the stream is %q instead of %q", rest, cs.Tail)
		}
	}
	if good > 1 {
		c.NonTrivial()
	}
	return nil
}

// A frame of many megabytes among small ones, perhaps cut.
func genC16Giant(t *rapid.T, env *core.Env) c16Case {
	sizes := []int{1 << 25, 50_000_000, 1 << 26, 100_000_000, 1 << 27}
	if env.Tier == "thorough" {
		sizes = append(sizes, 1<<28, 1<<29, 1_000_000_000)
	}
	big := c16Frame{Type: 'D', Body: []byte{}, Big: rapid.SampledFrom(sizes).Draw(t, "size") + rapid.IntRange(0, 9).Draw(t, "more"), Fill: rapid.IntRange(0, 255).Draw(t, "fill")}
	big.Startup = rapid.IntRange(0, 3).Draw(t, "startup") == 0
	small := c16Frame{Type: 'C', Body: []byte("small\x00")}
	cs := c16Case{Last: rapid.SampledFrom([]string{"tail", "tail", "cut"}).Draw(t, "last"), Early: rapid.Bool().Draw(t, "early")}
	cs.Frames = []c16Frame{small, big}
	if cs.Last == "tail" {
		cs.Frames, cs.Tail = append(cs.Frames, small), []byte("tail")
	} else {
		cs.Cut = big.Big - rapid.IntRange(0, 100).Draw(t, "cut")
	}
	if rapid.Bool().Draw(t, "chunked") {
		cs.Chunks = []int{rapid.SampledFrom([]int{4096, 65536, 1 << 20, 1<<24 + 1}).Draw(t, "chunk")}
	}
	return cs
}

// Long streams: many frames one after the other.

type c16Long struct {
	Startup bool  `json:"startup,omitempty"`
	N       int   `json:"n"`
	Sizes   []int `json:"sizes"` // of the bodies, repeated
	Chunks  []int `json:"chunks,omitempty"`
}

func genC16Long(t *rapid.T, env *core.Env) c16Long {
	cs := c16Long{Startup: rapid.IntRange(0, 3).Draw(t, "startup") == 0, N: edgeSize(t, "n", 70000), Chunks: genChunks(t)}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "sizes"); i < n; i++ {
		cs.Sizes = append(cs.Sizes, edgeSize(t, "size", 2000))
	}
	avg := 0
	for _, s := range cs.Sizes {
		avg += s + 5
	}
	if avg /= len(cs.Sizes); cs.N*avg > 8<<20 {
		cs.N = 8 << 20 / avg
	}
	return cs
}

func runC16Long(c *core.Ctx, cs c16Long) error {
	var all []byte
	ends := make([]int, cs.N)
	for i := 0; i < cs.N; i++ {
		body := make([]byte, cs.Sizes[i%len(cs.Sizes)])
		fillPattern(body, i)
		if !cs.Startup {
			all = append(all, byte(i*31))
		}
		all = append(pgwire.I32(all, len(body)+4), body...)
		ends[i] = len(all)
	}
	r := &chunkReader{data: append([]byte{}, all...), chunks: cs.Chunks}
	frames := make([]pg.Frame, cs.N)
	start := func(i int) int {
		if i == 0 {
			return 0
		}
		return ends[i-1]
	}
	for i := range frames {
		g, err := readFrame(cs.Startup, r)
		if err != nil || g == nil {
			return violf("reading frame %d of %d failed: %v, %v", i, cs.N, g, err)
		}
		if r.off != ends[i] {
			return violf("reading frame %d of %d (%d bytes) took %d bytes from the stream", i, cs.N, ends[i]-start(i), r.off-start(i))
		}
		if w := all[start(i):ends[i]]; !bytes.Equal(g.Bytes(), w) {
			return violf("frame %d of %d was read as %s instead of %s", i, cs.N, hexDiff(g.Bytes(), w), hexDiff(w, g.Bytes()))
		}
		frames[i] = g
	}
	for i, g := range frames {
		if !bytes.Equal(g.Bytes(), all[start(i):ends[i]]) {
			return violf("frame %d of %d changed when later ones were read", i, cs.N)
		}
	}
	if g, err := readFrame(cs.Startup, r); err == nil {
		return violf("reading from the end of a stream of %d frames yields no error but the frame %v", cs.N, g)
	}
	c.LabelIf(cs.N > 1<<16, "more than 65536 frames")
	c.LabelIf(cs.N > 256, "more than 256 frames")
	if cs.N > 1 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C16",
		Rule: "a stream of 0 to 6 frames followed by other bytes, a frame cut at a generated byte, a frame with a declared length below 4, or nothing, delivered in generated chunks (also empty ones and an end reported with the last bytes); non-trivial = at least two frames, or a cut or mis-declared one. Long streams: up to 70000 frames read from one stream and compared again afterwards; non-trivial = at least two frames. Giant frames: one of 32 to 134 MB (thorough: 1 GB) among small ones, perhaps cut; judged like streams",
		Subs: []core.Sub{
			&core.Check[c16Case]{Name: "streams", Quick: 60000, Thorough: 3000000, Gen: genC16, Run: runC16},
			&core.Check[c16Case]{Name: "giant frames", Quick: 4, Thorough: 30, Aside: true, Gen: genC16Giant, Run: runC16},
			&core.Check[c16Long]{Name: "long streams", Quick: 800, Thorough: 40000, Gen: genC16Long, Run: runC16Long},
		},
	})
}
