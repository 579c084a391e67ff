// Package h_po checks the PO text format.
package h_po

import (
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// StrRoundTrip: decoding an encoded string gives the string back, at every wrap width.
func StrRoundTrip() {
	s := gen.UTF8("s", nd.Param("n"))
	lim := nd.Param("lim")
	enc := po.EncodePoString(s, lim)
	nd.ObserveStr(enc)
	nd.Assert(po.DecodePoString(enc) == s, "decoding an encoded PO string gives it back")
	nd.Reach("roundtrip")
}

// DecodeTotal: decoding any bytes ends, and text without quotes decodes to nothing.
func DecodeTotal() {
	s := nd.String("s", nd.Param("n"))
	if nd.Param("q") == 1 {
		s = "\"" + s + "\""
	}
	out := po.DecodePoString(s)
	nd.ObserveStr(out)
	nd.Assert(len(out) <= 3*len(s), "decoded text longer than its source")
	nd.Reach("decoded")
}

// StrAlphabet: the round trip over longer texts made of the characters the encoder treats specially.
func StrAlphabet() {
	s := gen.OneOf("s", nd.Param("n"), "a \n\"\\\tx")
	enc := po.EncodePoString(s, nd.Param("lim"))
	nd.ObserveStr(enc)
	nd.Assert(po.DecodePoString(enc) == s, "decoding an encoded PO string gives it back")
	nd.Reach("roundtrip")
}

// Malformed: longer texts in which many bytes belong to no valid character or escape.
func Malformed() {
	s := gen.OneOf("s", nd.Param("n"), "\xff\\x")
	out := po.DecodePoString("\"" + s + "\"")
	nd.ObserveStr(out)
	nd.Assert(len(out) <= 3*len(s), "decoded text longer than its source")
	nd.Reach("decoded")
}
