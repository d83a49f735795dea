package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/lib/pq/oid"
	"pgregory.net/rapid"

	"gevulotverif/pgwire"
)

// An independent description of the protocol messages: values, their bytes and a strict decoder.

// val is the value of a message of some kind; which members count depends on the kind.
type val struct {
	Kind   string     `json:"kind"`
	Type   int        `json:"type,omitempty"` // generic: the message type
	Ints   []int      `json:"ints,omitempty"`
	Strs   []pgwire.S `json:"strs,omitempty"`
	Fields []valField `json:"fields,omitempty"`
	Cols   []valCol   `json:"cols,omitempty"`
	Row    [][]byte   `json:"row,omitempty"` // null is NULL
	Data   []byte     `json:"data,omitempty"`
}

type valField struct {
	T int      `json:"t"`
	V pgwire.S `json:"v"`
}

type valCol struct {
	Name   pgwire.S `json:"name"`
	Table  uint32   `json:"table"`
	Index  int16    `json:"index"`
	Type   uint32   `json:"type"`
	Size   int16    `json:"size"`
	Mod    int32    `json:"mod"`
	Format int16    `json:"format"`
}

// kinds of messages and their type bytes.
var valKinds = []string{
	"auth ok", "auth kerberos", "auth cleartext", "auth md5", "auth scm", "auth gss", "auth gss continue", "auth sspi",
	"backend key data", "command complete", "data row", "empty query response", "error response", "generic",
	"negotiate protocol version", "notice response", "parameter status", "password", "query", "ready for query",
	"row description", "startup", "ssl request", "terminate",
}

var authCodes = map[string]int{
	"auth ok": 0, "auth kerberos": 2, "auth cleartext": 3, "auth md5": 5, "auth scm": 6, "auth gss": 7, "auth gss continue": 8, "auth sspi": 9,
}

var kindTypes = map[string]byte{
	"backend key data": 'K', "command complete": 'C', "data row": 'D', "empty query response": 'I', "error response": 'E',
	"negotiate protocol version": 'v', "notice response": 'N', "parameter status": 'S', "password": 'p', "query": 'Q',
	"ready for query": 'Z', "row description": 'T', "terminate": 'X',
}

func typeOf(v val) byte {
	if _, ok := authCodes[v.Kind]; ok {
		return 'R'
	}
	if v.Kind == "generic" {
		return byte(v.Type)
	}
	return kindTypes[v.Kind]
}

func isStartup(kind string) bool { return kind == "startup" || kind == "ssl request" }

func genVal(t *rapid.T, kind string) val {
	v := val{Kind: kind}
	str := func(label string) pgwire.S {
		if rapid.IntRange(0, 30).Draw(t, "bigstr") == 0 {
			n := rapid.SampledFrom([]int{255, 256, 507, 508, 512, 1000, 4096, 65535, 65536, 70000}).Draw(t, "strlen")
			return pgwire.S(bytes.Repeat([]byte{byte(rapid.IntRange(1, 255).Draw(t, "fill"))}, n))
		}
		return pgwire.S(pgwire.Str(t, label, 40))
	}
	data := func(label string) []byte {
		if rapid.IntRange(0, 20).Draw(t, "bigdata") == 0 {
			n := rapid.SampledFrom([]int{255, 256, 507, 512, 1000, 4096, 65536, 70000}).Draw(t, "len")
			return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "fill"))}, n)
		}
		b := pgwire.Bytes(t, label, 60)
		if b == nil {
			b = []byte{}
		}
		return b
	}
	i32 := func(label string) int { return int(int32(uint32(pgwire.Int32(t, label)))) }
	i16 := func(label string) int { return int(int16(uint16(pgwire.Int16(t, label)))) }
	switch kind {
	case "auth md5":
		v.Data = rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "salt")
	case "auth gss continue":
		v.Data = data("data")
	case "backend key data":
		v.Ints = []int{i32("pid"), i32("key")}
	case "command complete", "password", "query":
		v.Strs = []pgwire.S{str("s")}
	case "parameter status":
		v.Strs = []pgwire.S{str("name"), str("value")}
	case "data row":
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 3, 5, 8}).Draw(t, "n")
		if rapid.IntRange(0, 60).Draw(t, "wide") == 0 {
			n = rapid.SampledFrom([]int{255, 256, 1664, 32767}).Draw(t, "nwide")
			b := data("cell")
			if len(b) > 20 {
				b = b[:20]
			}
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					v.Row = append(v.Row, b)
				case 1:
					v.Row = append(v.Row, nil)
				default:
					v.Row = append(v.Row, []byte{})
				}
			}
			break
		}
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "cellkind") {
			case 0:
				v.Row = append(v.Row, nil)
			case 1:
				v.Row = append(v.Row, []byte{})
			default:
				v.Row = append(v.Row, data("cell"))
			}
		}
	case "error response", "notice response":
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
			f := valField{T: int(rapid.SampledFrom([]byte("SVCMDHPpqWstcdnFLRzZ0")).Draw(t, "t")), V: str("v")}
			if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
				f.T = rapid.IntRange(1, 255).Draw(t, "oddt")
			}
			v.Fields = append(v.Fields, f)
		}
	case "generic":
		v.Type = rapid.IntRange(0, 255).Draw(t, "type")
		v.Data = data("body")
	case "negotiate protocol version":
		v.Ints = []int{i32("version")}
		for i, n := 0, rapid.SampledFrom([]int{0, 1, 2, 3, 40}).Draw(t, "n"); i < n; i++ {
			v.Strs = append(v.Strs, str("option"))
		}
	case "ready for query":
		v.Ints = []int{int(rapid.SampledFrom([]byte("ITE")).Draw(t, "status"))}
	case "row description":
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(t, "n")
		if rapid.IntRange(0, 60).Draw(t, "wide") == 0 {
			n = rapid.SampledFrom([]int{255, 256, 1664}).Draw(t, "nwide")
		}
		for i := 0; i < n; i++ {
			v.Cols = append(v.Cols, valCol{
				Name: str("name"), Table: uint32(i32("table")), Index: int16(i16("index")), Type: uint32(i32("type")),
				Size: int16(i16("size")), Mod: int32(i32("mod")), Format: int16(rapid.SampledFrom([]int{0, 1, 0, 1, -1, 2}).Draw(t, "format")),
			})
		}
	case "startup":
		v.Ints = []int{rapid.SampledFrom([]int{196608, 196608, 196608, 131072, 196609, -1, 1}).Draw(t, "version")}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			k := pgwire.S(rapid.SampledFrom([]string{"user", "database", "options", "x", "DATABASE", "application_name", "\xff\xfe"}).Draw(t, "key"))
			v.Strs = append(v.Strs, k, str("value"))
		}
	}
	return v
}

// encode yields the bytes the protocol documentation prescribes.
func (v val) encode() []byte {
	b := v.body()
	if isStartup(v.Kind) {
		return append(pgwire.I32(nil, len(b)+4), b...)
	}
	return append(append([]byte{typeOf(v)}, pgwire.I32(nil, len(b)+4)...), b...)
}

func (v val) body() []byte {
	var b []byte
	if code, ok := authCodes[v.Kind]; ok {
		return append(pgwire.I32(nil, code), v.Data...)
	}
	switch v.Kind {
	case "backend key data":
		b = pgwire.I32(pgwire.I32(b, v.Ints[0]), v.Ints[1])
	case "command complete", "password", "query", "parameter status":
		for _, s := range v.Strs {
			b = pgwire.CStr(b, string(s))
		}
	case "data row":
		b = pgwire.I16(b, len(v.Row))
		for _, c := range v.Row {
			if c == nil {
				b = pgwire.I32(b, -1)
				continue
			}
			b = append(pgwire.I32(b, len(c)), c...)
		}
	case "error response", "notice response":
		for _, f := range v.Fields {
			b = pgwire.CStr(append(b, byte(f.T)), string(f.V))
		}
		b = append(b, 0)
	case "generic":
		b = append(b, v.Data...)
	case "negotiate protocol version":
		b = pgwire.I32(pgwire.I32(b, v.Ints[0]), len(v.Strs))
		for _, s := range v.Strs {
			b = pgwire.CStr(b, string(s))
		}
	case "ready for query":
		b = append(b, byte(v.Ints[0]))
	case "row description":
		b = pgwire.I16(b, len(v.Cols))
		for _, c := range v.Cols {
			b = pgwire.CStr(b, string(c.Name))
			b = pgwire.I32(b, int(c.Table))
			b = pgwire.I16(b, int(c.Index))
			b = pgwire.I32(b, int(c.Type))
			b = pgwire.I16(b, int(c.Size))
			b = pgwire.I32(b, int(c.Mod))
			b = pgwire.I16(b, int(c.Format))
		}
	case "startup":
		b = pgwire.I32(b, v.Ints[0])
		for _, s := range v.Strs {
			b = pgwire.CStr(b, string(s))
		}
		b = append(b, 0)
	case "ssl request":
		b = pgwire.I32(b, pgwire.SSLRequest)
	}
	return b
}

// message makes the value of the code under test.
func (v val) message() pg.Message {
	str := func(i int) string { return string(v.Strs[i]) }
	fields := func() []*pg.MessageField {
		fs := []*pg.MessageField{}
		for _, f := range v.Fields {
			fs = append(fs, &pg.MessageField{Type: fieldType(f.T), Value: string(f.V)})
		}
		return fs
	}
	switch v.Kind {
	case "auth ok":
		return &pg.AuthenticationOkMessage{}
	case "auth kerberos":
		return &pg.AuthenticationKerberosV5Message{}
	case "auth cleartext":
		return &pg.AuthenticationCleartextPasswordMessage{}
	case "auth md5":
		m := &pg.AuthenticationMD5PasswordMessage{}
		copy(m.Salt[:], v.Data)
		return m
	case "auth scm":
		return &pg.AuthenticationSCMCredentialMessage{}
	case "auth gss":
		return &pg.AuthenticationGSSMessage{}
	case "auth gss continue":
		return &pg.AuthenticationGSSContinueMessage{Data: append([]byte{}, v.Data...)}
	case "auth sspi":
		return &pg.AuthenticationSSPIMessage{}
	case "backend key data":
		return &pg.BackendKeyDataMessage{ProcessID: int32(v.Ints[0]), Key: int32(v.Ints[1])}
	case "command complete":
		return &pg.CommandCompleteMessage{Tag: str(0)}
	case "data row":
		m := &pg.DataRowMessage{}
		for _, c := range v.Row {
			if c != nil {
				c = append([]byte{}, c...)
			}
			m.Values = append(m.Values, c)
		}
		return m
	case "empty query response":
		return &pg.EmptyQueryResponseMessage{}
	case "error response":
		return &pg.ErrorResponseMessage{Fields: fields()}
	case "notice response":
		return &pg.NoticeResponseMessage{Fields: fields()}
	case "generic":
		return &pg.GenericMessage{Type: byte(v.Type), Body: append([]byte{}, v.Data...)}
	case "negotiate protocol version":
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: int32(v.Ints[0])}
		for i := range v.Strs {
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, str(i))
		}
		return m
	case "parameter status":
		return &pg.ParameterStatusMessage{Name: str(0), Value: str(1)}
	case "password":
		return &pg.PasswordMessage{Password: str(0)}
	case "query":
		return &pg.QueryMessage{Query: str(0)}
	case "ready for query":
		return &pg.ReadyForQueryMessage{TxStatus: txStatus(v.Ints[0])}
	case "row description":
		m := &pg.RowDescriptionMessage{}
		for _, c := range v.Cols {
			m.Fields = append(m.Fields, &pg.FieldDescriptor{
				Name: string(c.Name), TableOID: oid.Oid(c.Table), ColumnIndex: c.Index, DataTypeOID: oid.Oid(c.Type),
				DataTypeSize: c.Size, DataTypeModifier: c.Mod, Format: dataFormat(c.Format),
			})
		}
		return m
	case "startup":
		m := &pg.StartupMessage{ProtocolVersion: protocolVersion(v.Ints[0])}
		for i := 0; i+1 < len(v.Strs); i += 2 {
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: str(i), Value: str(i + 1)})
		}
		return m
	case "ssl request":
		return &pg.StartupMessage{ProtocolVersion: protocolVersion(pgwire.SSLRequest)}
	case "terminate":
		return &pg.TerminateMessage{}
	}
	panic("unknown kind " + v.Kind)
}

// valueOf describes a message of the code under test.
func valueOf(m pg.Message) (val, error) {
	if m == nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil() {
		return val{}, fmt.Errorf("no message")
	}
	fields := func(fs []*pg.MessageField) (out []valField) {
		for _, f := range fs {
			out = append(out, valField{T: fieldCode(f.Type), V: pgwire.S(f.Value)})
		}
		return out
	}
	strs := func(ss ...string) (out []pgwire.S) {
		for _, s := range ss {
			out = append(out, pgwire.S(s))
		}
		return out
	}
	switch m := m.(type) {
	case *pg.AuthenticationOkMessage:
		return val{Kind: "auth ok"}, nil
	case *pg.AuthenticationKerberosV5Message:
		return val{Kind: "auth kerberos"}, nil
	case *pg.AuthenticationCleartextPasswordMessage:
		return val{Kind: "auth cleartext"}, nil
	case *pg.AuthenticationMD5PasswordMessage:
		return val{Kind: "auth md5", Data: append([]byte{}, m.Salt[:]...)}, nil
	case *pg.AuthenticationSCMCredentialMessage:
		return val{Kind: "auth scm"}, nil
	case *pg.AuthenticationGSSMessage:
		return val{Kind: "auth gss"}, nil
	case *pg.AuthenticationGSSContinueMessage:
		return val{Kind: "auth gss continue", Data: m.Data}, nil
	case *pg.AuthenticationSSPIMessage:
		return val{Kind: "auth sspi"}, nil
	case *pg.BackendKeyDataMessage:
		return val{Kind: "backend key data", Ints: []int{int(m.ProcessID), int(m.Key)}}, nil
	case *pg.CommandCompleteMessage:
		return val{Kind: "command complete", Strs: strs(m.Tag)}, nil
	case *pg.DataRowMessage:
		return val{Kind: "data row", Row: m.Values}, nil
	case *pg.EmptyQueryResponseMessage:
		return val{Kind: "empty query response"}, nil
	case *pg.ErrorResponseMessage:
		return val{Kind: "error response", Fields: fields(m.Fields)}, nil
	case *pg.NoticeResponseMessage:
		return val{Kind: "notice response", Fields: fields(m.Fields)}, nil
	case *pg.GenericMessage:
		return val{Kind: "generic", Type: int(m.Type), Data: m.Body}, nil
	case *pg.NegotiateProtocolVersionMessage:
		return val{Kind: "negotiate protocol version", Ints: []int{int(m.SupportedProtocolVersion)}, Strs: strs(m.UnrecognizedOptions...)}, nil
	case *pg.ParameterStatusMessage:
		return val{Kind: "parameter status", Strs: strs(m.Name, m.Value)}, nil
	case *pg.PasswordMessage:
		return val{Kind: "password", Strs: strs(m.Password)}, nil
	case *pg.QueryMessage:
		return val{Kind: "query", Strs: strs(m.Query)}, nil
	case *pg.ReadyForQueryMessage:
		return val{Kind: "ready for query", Ints: []int{txCode(m.TxStatus)}}, nil
	case *pg.RowDescriptionMessage:
		v := val{Kind: "row description"}
		for _, f := range m.Fields {
			if f == nil {
				return val{}, fmt.Errorf("a column of the row description is nil")
			}
			v.Cols = append(v.Cols, valCol{
				Name: pgwire.S(f.Name), Table: uint32(f.TableOID), Index: f.ColumnIndex, Type: uint32(f.DataTypeOID),
				Size: f.DataTypeSize, Mod: f.DataTypeModifier, Format: formatCode(f.Format),
			})
		}
		return v, nil
	case *pg.StartupMessage:
		v := val{Kind: "startup", Ints: []int{int(m.ProtocolVersion)}}
		for _, p := range m.Parameters {
			v.Strs = append(v.Strs, pgwire.S(p.Name), pgwire.S(p.Value))
		}
		if len(v.Strs) == 0 && m.ProtocolVersion == pgwire.SSLRequest {
			return val{Kind: "ssl request"}, nil
		}
		return v, nil
	case *pg.TerminateMessage:
		return val{Kind: "terminate"}, nil
	}
	return val{}, fmt.Errorf("a message of the unknown type %T", m)
}

// sameVal compares values; empty and missing lists are the same, NULL and empty cells are not.
func sameVal(a, b val) bool {
	if a.Kind != b.Kind || a.Type != b.Type || !bytes.Equal(a.Data, b.Data) || len(a.Ints) != len(b.Ints) || len(a.Strs) != len(b.Strs) ||
		len(a.Fields) != len(b.Fields) || len(a.Cols) != len(b.Cols) || len(a.Row) != len(b.Row) {
		return false
	}
	for i := range a.Ints {
		if a.Ints[i] != b.Ints[i] {
			return false
		}
	}
	for i := range a.Strs {
		if a.Strs[i] != b.Strs[i] {
			return false
		}
	}
	for i := range a.Fields {
		if a.Fields[i] != b.Fields[i] {
			return false
		}
	}
	for i := range a.Cols {
		if a.Cols[i] != b.Cols[i] {
			return false
		}
	}
	for i := range a.Row {
		if (a.Row[i] == nil) != (b.Row[i] == nil) || !bytes.Equal(a.Row[i], b.Row[i]) {
			return false
		}
	}
	return true
}

func (v val) String() string {
	j, _ := json.Marshal(v)
	if len(j) > 300 {
		return string(j[:300]) + "..."
	}
	return string(j)
}

// parser is the decoder of a kind of message.
func parser(kind string) func(pg.Frame) (pg.Message, error) {
	if _, ok := authCodes[kind]; ok {
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseAuthenticationRequestMessage(f) }
	}
	switch kind {
	case "backend key data":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseBackendKeyDataMessage(f) }
	case "command complete":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseCommandCompleteMessage(f) }
	case "data row":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseDataRowMessage(f) }
	case "empty query response":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseEmptyQueryResponseMessage(f) }
	case "error response":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseErrorResponseMessage(f) }
	case "notice response":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseNoticeResponseMessage(f) }
	case "generic":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseGenericMessage(f) }
	case "negotiate protocol version":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseNegotiateProtocolVersionMessage(f) }
	case "parameter status":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseParameterStatusMessage(f) }
	case "password":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParsePasswordMessage(f) }
	case "query":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseQueryMessage(f) }
	case "ready for query":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseReadyForQueryMessage(f) }
	case "row description":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseRowDescriptionMessage(f) }
	case "startup", "ssl request":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseStartupMessage(f) }
	case "terminate":
		return func(f pg.Frame) (pg.Message, error) { return pg.ParseTerminateMessage(f) }
	}
	panic("unknown kind " + kind)
}

// frameOf makes the frame of the code under test that holds the given bytes.
func frameOf(kind string, wire []byte) pg.Frame {
	if isStartup(kind) {
		return pg.StartupFrame(wire)
	}
	return pg.StandardFrame(wire)
}

// verdict of the strict decoder.
type verdict int

const (
	mustDecode verdict = iota // a complete, well-formed body
	mayDecode                 // well-formed but for something a decoder may overlook (bytes after the end, unknown codes)
	mustFail                  // something is missing, negative or longer than the body
)

// strict decodes a body independently of the code under test. kind names the decoder ("auth ok" stands for all
// authentication requests).
func strict(kind string, body []byte) (val, verdict) {
	b := body
	bad := false
	take := func(n int) []byte {
		if bad || n < 0 || n > len(b) {
			bad = true
			return nil
		}
		r := b[:n]
		b = b[n:]
		return r
	}
	i32 := func() int {
		x := take(4)
		if bad {
			return 0
		}
		return int(int32(uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])))
	}
	i16 := func() int {
		x := take(2)
		if bad {
			return 0
		}
		return int(int16(uint16(x[0])<<8 | uint16(x[1])))
	}
	str := func() pgwire.S {
		i := bytes.IndexByte(b, 0)
		if bad || i < 0 {
			bad = true
			return ""
		}
		return pgwire.S(take(i + 1)[:i])
	}
	v := val{Kind: kind}
	end := func() (val, verdict) {
		if bad {
			return val{}, mustFail
		}
		if len(b) > 0 {
			return v, mayDecode
		}
		return v, mustDecode
	}
	if _, ok := authCodes[kind]; ok {
		code := i32()
		if bad {
			return end()
		}
		v.Kind = ""
		for k, c := range authCodes {
			if c == code {
				v.Kind = k
			}
		}
		switch v.Kind {
		case "":
			return val{Kind: "?"}, mayDecode
		case "auth md5":
			v.Data = take(4)
		case "auth gss continue":
			v.Data = take(len(b))
		}
		return end()
	}
	switch kind {
	case "backend key data":
		v.Ints = []int{i32(), i32()}
	case "command complete", "password", "query":
		v.Strs = []pgwire.S{str()}
	case "parameter status":
		v.Strs = []pgwire.S{str(), str()}
	case "data row":
		n := i16()
		if n < 0 {
			bad = true
		}
		for i := 0; i < n && !bad; i++ {
			size := i32()
			if size == -1 {
				v.Row = append(v.Row, nil)
				continue
			}
			c := take(size)
			v.Row = append(v.Row, append([]byte{}, c...))
		}
	case "error response", "notice response":
		for !bad {
			x := take(1)
			if bad || x[0] == 0 {
				break
			}
			v.Fields = append(v.Fields, valField{T: int(x[0]), V: str()})
		}
	case "generic":
		v.Data = take(len(b))
	case "negotiate protocol version":
		v.Ints = []int{i32()}
		n := i32()
		if n < 0 {
			bad = true
		}
		for i := 0; i < n && !bad; i++ {
			v.Strs = append(v.Strs, str())
		}
	case "ready for query":
		x := take(1)
		if !bad {
			v.Ints = []int{int(x[0])}
			if !bytes.ContainsAny(x, "ITE") {
				return v, mayDecode
			}
		}
	case "row description":
		n := i16()
		if n < 0 {
			bad = true
		}
		for i := 0; i < n && !bad; i++ {
			v.Cols = append(v.Cols, valCol{
				Name: str(), Table: uint32(i32()), Index: int16(i16()), Type: uint32(i32()), Size: int16(i16()), Mod: int32(i32()), Format: int16(i16()),
			})
		}
	case "startup", "ssl request":
		v.Kind = "startup"
		v.Ints = []int{i32()}
		if len(b) == 0 && !bad {
			if v.Ints[0] == pgwire.SSLRequest {
				return val{Kind: "ssl request"}, mustDecode
			}
			return v, mayDecode
		}
		for !bad {
			k := str()
			if k == "" {
				break
			}
			v.Strs = append(v.Strs, k, str())
		}
		if !bad && (v.Ints[0] == pgwire.SSLRequest || len(v.Strs) == 0) {
			if len(v.Strs) == 0 && v.Ints[0] == pgwire.SSLRequest {
				v = val{Kind: "ssl request"}
			}
			return v, mayDecode
		}
	}
	return end()
}
