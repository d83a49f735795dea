package props

import "github.com/hired/gevulot/pkg/pg"

// The names that pkg/pg gives to protocol codes are part of its interface: a caller writes
// pg.MessageFieldHint and expects an 'H' on the wire. Values are built through these tables, from
// the code the protocol documents to the name that stands for it, and described by them.

var fieldNames = map[int]pg.MessageFieldType{
	'S': pg.MessageFieldSeverityLocalized,
	'V': pg.MessageFieldSeverity,
	'C': pg.MessageFieldCode,
	'M': pg.MessageFieldMessage,
	'D': pg.MessageFieldDetail,
	'H': pg.MessageFieldHint,
	'P': pg.MessageFieldPosition,
	'p': pg.MessageFieldInternalPosition,
	'q': pg.MessageFieldInternalQuery,
	'W': pg.MessageFieldWhere,
	's': pg.MessageFieldSchema,
	't': pg.MessageFieldTable,
	'c': pg.MessageFieldColumn,
	'd': pg.MessageFieldDataType,
	'n': pg.MessageFieldConstraint,
	'F': pg.MessageFieldFile,
	'L': pg.MessageFieldLine,
	'R': pg.MessageFieldRoutine,
}

func fieldType(code int) pg.MessageFieldType {
	if t, ok := fieldNames[code]; ok {
		return t
	}
	return pg.MessageFieldType(code)
}

func fieldCode(t pg.MessageFieldType) int {
	for code, name := range fieldNames {
		if name == t {
			return code
		}
	}
	return int(t)
}

var statusNames = map[int]pg.TxStatus{'I': pg.TxStatusIdle, 'T': pg.TxStatusActive, 'E': pg.TxStatusFailed}

func txStatus(code int) pg.TxStatus {
	if t, ok := statusNames[code]; ok {
		return t
	}
	return pg.TxStatus(code)
}

func txCode(t pg.TxStatus) int {
	for code, name := range statusNames {
		if name == t {
			return code
		}
	}
	return int(t)
}

var formatNames = map[int16]pg.DataFormat{0: pg.DataFormatText, 1: pg.DataFormatBinary}

func dataFormat(code int16) pg.DataFormat {
	if f, ok := formatNames[code]; ok {
		return f
	}
	return pg.DataFormat(code)
}

func formatCode(f pg.DataFormat) int16 {
	for code, name := range formatNames {
		if name == f {
			return code
		}
	}
	return int16(f)
}

// protocolVersion is the number a startup message carries, through the name it has when it has one.
func protocolVersion(n int) int32 {
	switch n {
	case 196608:
		return pg.DefaultProtocolVersion
	case 80877103:
		return pg.SSLRequestMagic
	}
	return int32(n)
}
