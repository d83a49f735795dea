// Package pgwire is an independent description of the PostgreSQL 3.0 wire format, written from the protocol
// documentation: what the harness's fake clients and databases speak and what oracles compare with.
package pgwire

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Msg is one ordinary protocol message. Its body is B followed by Fill bytes of a pattern.
type Msg struct {
	T    byte   `json:"t"`
	B    []byte `json:"b,omitempty"`
	Fill int    `json:"fill,omitempty"`
	Kind string `json:"kind"`
}

// Body returns the message body.
func (m Msg) Body() []byte {
	if m.Fill == 0 {
		return m.B
	}
	out := make([]byte, len(m.B)+m.Fill)
	copy(out, m.B)
	for i := 0; i < m.Fill; i++ {
		out[len(m.B)+i] = byte(i*7+i>>8) | 1
	}
	return out
}

// Wire returns the bytes of the message.
func (m Msg) Wire() []byte { return Frame(m.T, m.Body()) }

// Frame encodes a message.
func Frame(t byte, body []byte) []byte {
	out := make([]byte, 5+len(body))
	out[0] = t
	binary.BigEndian.PutUint32(out[1:], uint32(len(body)+4))
	copy(out[5:], body)
	return out
}

// I16 appends a 16-bit integer.
func I16(b []byte, v int) []byte { return append(b, byte(uint16(v)>>8), byte(uint16(v))) }

// I32 appends a 32-bit integer.
func I32(b []byte, v int) []byte {
	u := uint32(v)
	return append(b, byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
}

// CStr appends a NUL-terminated string.
func CStr(b []byte, s string) []byte { return append(append(b, s...), 0) }

// KV is a start-up parameter.
type KV struct {
	K, V string
}

// S is a string of arbitrary bytes that survives JSON.
type S string

// MarshalJSON writes the string as a quoted Go string.
func (s S) MarshalJSON() ([]byte, error) {
	if len(s) > 100 && strings.Count(string(s), string(s[:1])) == len(s) {
		return json.Marshal(map[string]int{"byte": int(s[0]), "times": len(s)})
	}
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

// UnmarshalJSON reads it back.
func (s *S) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var r struct{ Byte, Times int }
		err := json.Unmarshal(b, &r)
		*s = S(strings.Repeat(string([]byte{byte(r.Byte)}), r.Times))
		return err
	}
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = S(u)
	return err
}

// MarshalJSON writes key and value.
func (p KV) MarshalJSON() ([]byte, error) { return json.Marshal([2]S{S(p.K), S(p.V)}) }

// UnmarshalJSON reads them back.
func (p *KV) UnmarshalJSON(b []byte) error {
	var a [2]S
	err := json.Unmarshal(b, &a)
	p.K, p.V = string(a[0]), string(a[1])
	return err
}

// Protocol codes.
const (
	Version3    = 196608
	SSLRequest  = 80877103
	GSSRequest  = 80877104
	CancelMagic = 80877102
)

// Startup encodes a start-up packet.
func Startup(version int, params []KV) []byte {
	body := I32(nil, version)
	for _, p := range params {
		body = CStr(CStr(body, p.K), p.V)
	}
	body = append(body, 0)
	return StartupRaw(body)
}

// StartupRaw adds the length to a start-up body.
func StartupRaw(body []byte) []byte {
	return append(I32(nil, len(body)+4), body...)
}

// SSLReq is an SSL request packet.
func SSLReq() []byte { return StartupRaw(I32(nil, SSLRequest)) }

// StartupLen returns the total length of the start-up packet at the beginning of b, 0 if not yet known.
func StartupLen(b []byte) int {
	if len(b) < 4 {
		return 0
	}
	return int(int32(binary.BigEndian.Uint32(b)))
}

// EffectiveDatabase is the database a PostgreSQL server connects a start-up request to: the last "database"
// parameter, or the (last) user name if there is none or it is empty (postmaster.c ProcessStartupPacket).
func EffectiveDatabase(params []KV) string {
	db, user := "", ""
	for _, p := range params {
		switch p.K {
		case "database":
			db = p.V
		case "user":
			user = p.V
		}
	}
	if db == "" {
		return user
	}
	return db
}

// --- generators -----------------------------------------------------------------------------------------

var (
	lenGens  = map[int]*rapid.Generator[int]{}
	lenMu    sync.Mutex
	modeGen  = rapid.IntRange(0, 3)
	wordGen  = rapid.Uint64()
	alphabet = "abcSELECT *'\"_0189 \xc3\xa9mno\t-;=~"
)

func lenGen(max int) *rapid.Generator[int] {
	lenMu.Lock()
	defer lenMu.Unlock()
	g := lenGens[max]
	if g == nil {
		g = rapid.IntRange(0, max)
		lenGens[max] = g
	}
	return g
}

// Words fills a slice with drawn bytes, eight per draw.
func words(t *rapid.T, label string, n int) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		w := wordGen.Draw(t, label)
		for i := 0; i < 8; i++ {
			b = append(b, byte(w>>(8*i)))
		}
	}
	return b[:n]
}

// Str generates a string without NUL.
func Str(t *rapid.T, label string, max int) string {
	n := lenGen(max).Draw(t, label)
	mode := modeGen.Draw(t, label)
	b := words(t, label, n)
	for i := range b {
		if mode == 3 {
			if b[i] == 0 {
				b[i] = 'a'
			}
		} else {
			b[i] = alphabet[int(b[i])%len(alphabet)]
		}
	}
	return string(b)
}

// Bytes generates arbitrary bytes, zeros and 0xff more often than others.
func Bytes(t *rapid.T, label string, max int) []byte {
	n := lenGen(max).Draw(t, label)
	mode := modeGen.Draw(t, label)
	b := words(t, label, n)
	for i := range b {
		switch {
		case mode == 0 && b[i] < 64:
			b[i] = 0
		case mode == 0 && b[i] < 128:
			b[i] = 0xff
		case mode == 1:
			b[i] &= 3
		}
	}
	return b
}

// Int32 generates a 32-bit integer with interesting ones likely.
func Int32(t *rapid.T, label string) int {
	if rapid.Bool().Draw(t, label+"-edge") {
		return rapid.SampledFrom([]int{0, 1, -1, 2147483647, -2147483648, 255, 256, 65535, 65536}).Draw(t, label)
	}
	return int(rapid.Int32().Draw(t, label))
}

// Int16 generates a 16-bit integer with interesting ones likely.
func Int16(t *rapid.T, label string) int {
	if rapid.Bool().Draw(t, label+"-edge") {
		return rapid.SampledFrom([]int{0, 1, -1, 32767, -32768, 255, 256}).Draw(t, label)
	}
	return int(rapid.Int16().Draw(t, label))
}

type gen struct {
	kind string
	t    byte
	body func(t *rapid.T) []byte
}

func none(*rapid.T) []byte { return nil }

func values(t *rapid.T, b []byte) []byte {
	n := rapid.IntRange(0, 5).Draw(t, "nvalues")
	if rapid.IntRange(0, 60).Draw(t, "wide") == 0 {
		n = rapid.SampledFrom([]int{100, 255, 256, 257, 1600}).Draw(t, "nwide")
		b = I16(b, n)
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				b = I32(b, -1)
			} else {
				b = append(I32(b, 1), byte(i))
			}
		}
		return b
	}
	b = I16(b, n)
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 3).Draw(t, "null") == 0 {
			b = I32(b, -1)
			continue
		}
		v := Bytes(t, "value", 12)
		b = append(I32(b, len(v)), v...)
	}
	return b
}

func fields(t *rapid.T) []byte {
	var b []byte
	n := rapid.IntRange(0, 5).Draw(t, "nfields")
	for i := 0; i < n; i++ {
		b = append(b, rapid.SampledFrom([]byte("SVCMDHPpqWstcdnFLR")).Draw(t, "code"))
		b = CStr(b, Str(t, "field", 20))
	}
	return append(b, 0)
}

// Frontend lists the messages a client can send.
var Frontend = []gen{
	{"Query", 'Q', func(t *rapid.T) []byte { return CStr(nil, Str(t, "sql", 40)) }},
	{"Parse", 'P', func(t *rapid.T) []byte {
		b := CStr(CStr(nil, Str(t, "stmt", 8)), Str(t, "sql", 40))
		n := rapid.IntRange(0, 3).Draw(t, "ntypes")
		b = I16(b, n)
		for i := 0; i < n; i++ {
			b = I32(b, Int32(t, "oid"))
		}
		return b
	}},
	{"Bind", 'B', func(t *rapid.T) []byte {
		b := CStr(CStr(nil, Str(t, "portal", 8)), Str(t, "stmt", 8))
		b = I16(I16(b, 1), rapid.IntRange(0, 1).Draw(t, "fmt"))
		b = values(t, b)
		return I16(I16(b, 1), 1)
	}},
	{"Describe", 'D', func(t *rapid.T) []byte {
		return CStr([]byte{rapid.SampledFrom([]byte("SP")).Draw(t, "what")}, Str(t, "name", 10))
	}},
	{"Execute", 'E', func(t *rapid.T) []byte { return I32(CStr(nil, Str(t, "portal", 10)), Int32(t, "max")) }},
	{"Close", 'C', func(t *rapid.T) []byte {
		return CStr([]byte{rapid.SampledFrom([]byte("SP")).Draw(t, "what")}, Str(t, "name", 10))
	}},
	{"Sync", 'S', none},
	{"Flush", 'H', none},
	{"CopyData", 'd', func(t *rapid.T) []byte { return Bytes(t, "copy", 40) }},
	{"CopyDone", 'c', none},
	{"CopyFail", 'f', func(t *rapid.T) []byte { return CStr(nil, Str(t, "why", 20)) }},
	{"FunctionCall", 'F', func(t *rapid.T) []byte {
		b := I32(nil, Int32(t, "fn"))
		b = I16(I16(b, 1), 0)
		b = values(t, b)
		return I16(b, 0)
	}},
	{"Password", 'p', func(t *rapid.T) []byte { return CStr(nil, Str(t, "pw", 40)) }},
	{"SASLInitialResponse", 'p', func(t *rapid.T) []byte {
		b := CStr(nil, "SCRAM-SHA-256")
		if rapid.Bool().Draw(t, "noinit") {
			return I32(b, -1)
		}
		v := Bytes(t, "init", 40)
		return append(I32(b, len(v)), v...)
	}},
	{"SASLResponse", 'p', func(t *rapid.T) []byte { return []byte(Str(t, "sasl", 60)) }},
	{"GSSResponse", 'p', func(t *rapid.T) []byte { return Bytes(t, "gss", 60) }},
	{"Terminate", 'X', none},
}

// Backend lists the messages a database can send.
var Backend = []gen{
	{"AuthenticationOk", 'R', func(t *rapid.T) []byte { return I32(nil, 0) }},
	{"AuthenticationKerberosV5", 'R', func(t *rapid.T) []byte { return I32(nil, 2) }},
	{"AuthenticationCleartextPassword", 'R', func(t *rapid.T) []byte { return I32(nil, 3) }},
	{"AuthenticationMD5Password", 'R', func(t *rapid.T) []byte {
		return append(I32(nil, 5), rapid.Byte().Draw(t, "s1"), rapid.Byte().Draw(t, "s2"), rapid.Byte().Draw(t, "s3"), 0)
	}},
	{"AuthenticationSCMCredential", 'R', func(t *rapid.T) []byte { return I32(nil, 6) }},
	{"AuthenticationGSS", 'R', func(t *rapid.T) []byte { return I32(nil, 7) }},
	{"AuthenticationGSSContinue", 'R', func(t *rapid.T) []byte { return append(I32(nil, 8), Bytes(t, "gss", 40)...) }},
	{"AuthenticationSSPI", 'R', func(t *rapid.T) []byte { return I32(nil, 9) }},
	{"AuthenticationSASL", 'R', func(t *rapid.T) []byte {
		return append(CStr(CStr(I32(nil, 10), "SCRAM-SHA-256-PLUS"), "SCRAM-SHA-256"), 0)
	}},
	{"AuthenticationSASLContinue", 'R', func(t *rapid.T) []byte { return append(I32(nil, 11), Str(t, "sasl", 40)...) }},
	{"AuthenticationSASLFinal", 'R', func(t *rapid.T) []byte { return append(I32(nil, 12), Str(t, "sasl", 40)...) }},
	{"BackendKeyData", 'K', func(t *rapid.T) []byte { return I32(I32(nil, Int32(t, "pid")), Int32(t, "key")) }},
	{"ParameterStatus", 'S', func(t *rapid.T) []byte { return CStr(CStr(nil, Str(t, "name", 20)), Str(t, "value", 20)) }},
	{"NegotiateProtocolVersion", 'v', func(t *rapid.T) []byte {
		n := rapid.IntRange(0, 3).Draw(t, "nopts")
		b := I32(I32(nil, Int32(t, "minor")), n)
		for i := 0; i < n; i++ {
			b = CStr(b, Str(t, "opt", 20))
		}
		return b
	}},
	{"ReadyForQuery", 'Z', func(t *rapid.T) []byte { return []byte{rapid.SampledFrom([]byte("ITE")).Draw(t, "tx")} }},
	{"RowDescription", 'T', func(t *rapid.T) []byte {
		n := rapid.IntRange(0, 4).Draw(t, "ncols")
		wide := rapid.IntRange(0, 60).Draw(t, "widecols") == 0
		if wide {
			n = rapid.SampledFrom([]int{128, 300, 1600}).Draw(t, "nwide")
		}
		b := I16(nil, n)
		for i := 0; i < n; i++ {
			if wide {
				b = CStr(b, fmt.Sprintf("c%d", i))
				b = I16(I32(I16(I32(I16(I32(b, i), i), 25), -1), -1), 0)
				continue
			}
			b = CStr(b, Str(t, "col", 20))
			b = I16(I32(b, Int32(t, "table")), Int16(t, "att"))
			b = I16(I32(b, Int32(t, "type")), Int16(t, "size"))
			b = I16(I32(b, Int32(t, "mod")), rapid.IntRange(0, 1).Draw(t, "fmt"))
		}
		return b
	}},
	{"DataRow", 'D', func(t *rapid.T) []byte { return values(t, nil) }},
	{"CommandComplete", 'C', func(t *rapid.T) []byte { return CStr(nil, Str(t, "tag", 20)) }},
	{"EmptyQueryResponse", 'I', none},
	{"ErrorResponse", 'E', fields},
	{"NoticeResponse", 'N', fields},
	{"NotificationResponse", 'A', func(t *rapid.T) []byte {
		return CStr(CStr(I32(nil, Int32(t, "pid")), Str(t, "chan", 10)), Str(t, "payload", 20))
	}},
	{"ParseComplete", '1', none},
	{"BindComplete", '2', none},
	{"CloseComplete", '3', none},
	{"NoData", 'n', none},
	{"PortalSuspended", 's', none},
	{"ParameterDescription", 't', func(t *rapid.T) []byte {
		n := rapid.IntRange(0, 4).Draw(t, "nparams")
		b := I16(nil, n)
		for i := 0; i < n; i++ {
			b = I32(b, Int32(t, "oid"))
		}
		return b
	}},
	{"CopyInResponse", 'G', copyResponse},
	{"CopyOutResponse", 'H', copyResponse},
	{"CopyBothResponse", 'W', copyResponse},
	{"CopyData", 'd', func(t *rapid.T) []byte { return Bytes(t, "copy", 40) }},
	{"CopyDone", 'c', none},
	{"FunctionCallResponse", 'V', func(t *rapid.T) []byte {
		if rapid.Bool().Draw(t, "null") {
			return I32(nil, -1)
		}
		v := Bytes(t, "result", 20)
		return append(I32(nil, len(v)), v...)
	}},
}

func copyResponse(t *rapid.T) []byte {
	n := rapid.IntRange(0, 4).Draw(t, "ncols")
	f := rapid.IntRange(0, 1).Draw(t, "fmt")
	b := I16([]byte{byte(f)}, n)
	for i := 0; i < n; i++ {
		b = I16(b, f)
	}
	return b
}

// GenValid draws a protocol-conformant message of one side ("client" or "db").
func GenValid(t *rapid.T, side string) Msg {
	list := Frontend
	if side == "db" {
		list = Backend
	}
	g := list[rapid.IntRange(0, len(list)-1).Draw(t, "kind")]
	return Msg{T: g.t, B: g.body(t), Kind: g.kind}
}

// GenKind draws a protocol-conformant message of the given kind of one side.
func GenKind(t *rapid.T, side, kind string) Msg {
	list := Frontend
	if side == "db" {
		list = Backend
	}
	for _, g := range list {
		if g.kind == kind {
			return Msg{T: g.t, B: g.body(t), Kind: g.kind}
		}
	}
	panic("no such kind " + kind)
}

// KnownTypes are the type bytes some protocol message uses.
var KnownTypes = []byte("RKSvZTDCIENApQX123nstGHWdcVPBFEf")

// GenAny draws any well-framed message: mostly conformant ones of the side, sometimes of the other side, sometimes
// unknown types, sometimes bodies that are wrong for their type.
func GenAny(t *rapid.T, side string) Msg {
	switch rapid.IntRange(0, 11).Draw(t, "class") {
	case 0:
		return Msg{T: rapid.Byte().Draw(t, "type"), B: Bytes(t, "body", 30), Kind: "random type"}
	case 1:
		return Msg{T: rapid.SampledFrom(KnownTypes).Draw(t, "type"), B: Bytes(t, "body", 30), Kind: "random body"}
	case 2:
		m := GenValid(t, side)
		if len(m.B) > 0 && rapid.Bool().Draw(t, "cut") {
			m.B = m.B[:rapid.IntRange(0, len(m.B)-1).Draw(t, "at")]
			m.Kind += " cut short"
		} else {
			m.B = append(append([]byte{}, m.B...), Bytes(t, "tail", 6)...)
			m.Kind += " with trailing bytes"
		}
		return m
	case 3:
		other := "db"
		if side == "db" {
			other = "client"
		}
		m := GenValid(t, other)
		m.Kind = "other side's " + m.Kind
		return m
	case 4:
		// Large
		m := Msg{T: rapid.SampledFrom([]byte("dDQ$p")).Draw(t, "type"), Kind: "large"}
		m.Fill = rapid.SampledFrom([]int{507, 508, 4090, 4096, 16384, 65531, 65536, 200000}).Draw(t, "fill") + rapid.IntRange(0, 8).Draw(t, "off")
		if m.T == 'D' {
			m.B = I32(I16(nil, 1), m.Fill)
		}
		return m
	default:
		return GenValid(t, side)
	}
}
