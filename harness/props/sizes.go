package props

import (
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
)

// Messages of particular sizes: values built from a few numbers, so that long ones stay short to write down.

type sizeCase struct {
	Kind  string `json:"kind"`
	Elems int    `json:"elems"` // columns, fields, options or parameters
	Len   int    `json:"len"`   // of the longest element
	Other int    `json:"other"` // of the others
	At    int    `json:"at"`    // which one is the longest (modulo Elems)
	Fill  int    `json:"fill"`

	// C15: what is wrong with the message.
	Cut    int  `json:"cut,omitempty"`    // that many bytes are missing at the end
	Extra  int  `json:"extra,omitempty"`  // that many bytes follow
	Count  int  `json:"count,omitempty"`  // added to the declared number of elements
	Length int  `json:"length,omitempty"` // added to the declared length of the first element (data rows)
	NoZero bool `json:"noZero,omitempty"` // the bytes 0 of the body are replaced
}

// edgeSize is a size in the neighbourhood of a power of two, of three times one, or of a power of ten.
func edgeSize(t *rapid.T, label string, max int) int {
	n := 0
	switch rapid.IntRange(0, 5).Draw(t, label+" base") {
	case 0:
		n = 3 << rapid.IntRange(0, 22).Draw(t, label+" exp")
	case 1:
		n = rapid.SampledFrom([]int{10, 100, 1000, 1600, 1664, 10000, 100000, 1000000, 10000000}).Draw(t, label+" round")
	case 2:
		n = rapid.IntRange(0, 300).Draw(t, label+" small")
	default:
		n = 1 << rapid.IntRange(0, 24).Draw(t, label+" exp")
	}
	for n > max {
		n /= 2
	}
	n += rapid.SampledFrom([]int{0, 0, 0, -1, 1, -2, 2, -3, 3, -4, 4, -5, 5, -6, 6, -8, 8, -9, 9}).Draw(t, label+" delta")
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

func genSizes(t *rapid.T, env *core.Env, huge int) sizeCase {
	cs := sizeCase{Kind: rapid.SampledFrom([]string{
		"auth gss continue", "command complete", "data row", "data row", "data row", "error response", "generic", "negotiate protocol version",
		"notice response", "parameter status", "password", "query", "row description", "row description", "startup",
	}).Draw(t, "kind"), Elems: 1, Fill: rapid.IntRange(0, 255).Draw(t, "fill")}
	max := 1 << 17
	if rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
		max = huge
	}
	cs.Len = edgeSize(t, "len", max)
	switch cs.Kind {
	case "data row", "row description":
		cs.Elems = edgeSize(t, "elems", 32767)
	case "error response", "notice response", "negotiate protocol version", "startup":
		cs.Elems = edgeSize(t, "elems", 5000)
	}
	if cs.Elems > 300 && rapid.IntRange(0, 2).Draw(t, "fewer") != 0 {
		cs.Elems %= 300
	}
	if cs.Elems > 1 {
		cs.At = rapid.IntRange(0, cs.Elems-1).Draw(t, "at")
		cs.Other = rapid.SampledFrom([]int{0, 1, 1, 2, 7, 30}).Draw(t, "other")
		if cs.Elems < 70 {
			cs.Other = edgeSize(t, "others", 1<<12)
		}
	}
	return cs
}

// value of the case.
func (cs sizeCase) value() val {
	v := val{Kind: cs.Kind}
	fill := func(i int) []byte {
		n := cs.Other
		if cs.Elems == 0 || i == cs.At%cs.Elems {
			n = cs.Len
		}
		b := make([]byte, n)
		fillPattern(b, cs.Fill+13*i)
		return b
	}
	text := func(i int) pgwire.S {
		b := fill(i)
		for j := range b {
			if b[j] == 0 {
				b[j] = 0x7f
			}
		}
		return pgwire.S(b)
	}
	switch cs.Kind {
	case "auth gss continue":
		v.Data = fill(0)
	case "generic":
		v.Data, v.Type = fill(0), cs.Fill
	case "command complete", "password", "query":
		v.Strs = []pgwire.S{text(0)}
	case "parameter status":
		v.Strs = []pgwire.S{"name", text(0)}
		if cs.Fill%2 == 1 {
			v.Strs = []pgwire.S{text(0), "value"}
		}
	case "data row":
		for i := 0; i < cs.Elems; i++ {
			if i != cs.At%cs.Elems && i%5 == cs.Fill%5 {
				v.Row = append(v.Row, nil)
				continue
			}
			v.Row = append(v.Row, fill(i))
		}
	case "error response", "notice response":
		const types = "SVCMDHPpqWstcdnFLR"
		for i := 0; i < cs.Elems; i++ {
			v.Fields = append(v.Fields, valField{T: int(types[(i+cs.Fill)%len(types)]), V: text(i)})
		}
	case "negotiate protocol version":
		v.Ints = []int{196608}
		for i := 0; i < cs.Elems; i++ {
			v.Strs = append(v.Strs, text(i))
		}
	case "row description":
		for i := 0; i < cs.Elems; i++ {
			v.Cols = append(v.Cols, valCol{Name: text(i), Table: uint32(i * 65537), Index: int16(i), Type: uint32(i + 25), Size: int16(-i), Mod: int32(i - 1), Format: int16(i % 2)})
		}
	case "startup":
		v.Ints = []int{196608}
		for i := 0; i < cs.Elems; i++ {
			k := text(i)
			if k == "" {
				k = "k"
			}
			if (i+cs.Fill)%2 == 0 {
				v.Strs = append(v.Strs, "user", k)
			} else {
				v.Strs = append(v.Strs, k, pgwire.S("v"))
			}
		}
		if cs.Elems == 0 {
			v.Strs = []pgwire.S{"user", text(0)}
		}
	}
	return v
}

func genC14Sizes(t *rapid.T, env *core.Env) sizeCase { return genSizes(t, env, 1<<24+9) }

func runC14Sizes(c *core.Ctx, cs sizeCase) error {
	c.LabelIf(cs.Len >= 1<<16, "an element of 64 KB or more")
	c.LabelIf(cs.Len >= 1<<20, "an element of 1 MB or more")
	c.LabelIf(cs.Elems >= 256, "256 or more elements")
	return runC14(c, cs.value())
}

func genC15Sizes(t *rapid.T, env *core.Env) sizeCase {
	cs := genSizes(t, env, 1<<22)
	switch rapid.SampledFrom([]string{"cut", "cut", "cut far", "extra", "count", "count", "length", "length", "no zero"}).Draw(t, "how") {
	case "cut":
		cs.Cut = rapid.IntRange(1, 6).Draw(t, "cut")
	case "cut far":
		cs.Cut = rapid.IntRange(1, cs.Len+10).Draw(t, "cut")
	case "extra":
		cs.Extra = edgeSize(t, "extra", 1<<12)
	case "count":
		cs.Count = rapid.SampledFrom([]int{1, -1, 2, 255, 256, -256, 32767, 32768, 65535, 65536, 1 << 24, -1 << 31}).Draw(t, "count")
	case "length":
		cs.Length = rapid.SampledFrom([]int{1, -1, 2, 255, 256, 65536, -65536, 1 << 24, 1 << 30, -1 << 31, -1 << 30}).Draw(t, "length")
	case "no zero":
		cs.NoZero = true
	}
	return cs
}

// malformed is the body with the defects of the case.
func (cs sizeCase) malformed() []byte {
	b := cs.value().body()
	add := func(at, size, n int) {
		if n == 0 || at+size > len(b) {
			return
		}
		x := 0
		for _, c := range b[at : at+size] {
			x = x<<8 | int(c)
		}
		x += n
		for i := 0; i < size; i++ {
			b[at+i] = byte(x >> (8 * (size - 1 - i)))
		}
	}
	switch cs.Kind {
	case "data row":
		add(0, 2, cs.Count)
		add(2, 4, cs.Length)
	case "row description":
		add(0, 2, cs.Count)
	case "negotiate protocol version":
		add(4, 4, cs.Count)
	}
	if cs.NoZero {
		for i, c := range b {
			if c == 0 {
				b[i] = 'x'
			}
		}
	}
	if cs.Cut < len(b) {
		b = b[:len(b)-cs.Cut]
	} else {
		b = b[:0]
	}
	x := make([]byte, cs.Extra)
	fillPattern(x, 1)
	return append(b, x...)
}

func runC15Sizes(c *core.Ctx, cs sizeCase) error {
	v := val{Kind: cs.Kind, Type: cs.Fill}
	return runC15(c, c15Case{Kind: cs.Kind, Type: int(typeOf(v)), Body: cs.malformed(), How: "of a particular size"})
}
