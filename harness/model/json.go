package model

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/vorlif/spreak/catalog"
)

// A model of encoding/json for the types that the catalogs use.

// the engine does not run the initialisation of this package

func errSyntax() error { return errors.New("json: syntax error") }
func errType() error   { return errors.New("json: cannot unmarshal") }

func jsonSpace(d []byte, i int) int {
	for i < len(d) && (d[i] == ' ' || d[i] == '\t' || d[i] == '\n' || d[i] == '\r') {
		i++
	}
	return i
}

func jsonDigits(d []byte, i int) int {
	for i < len(d) && d[i] >= '0' && d[i] <= '9' {
		i++
	}
	return i
}

// jsonString returns the end of the string that starts at i.
func jsonString(d []byte, i int) (int, bool) {
	for i++; i < len(d); i++ {
		switch c := d[i]; {
		case c == '"':
			return i + 1, true
		case c < ' ':
			return i, false
		case c == '\\':
			i++
			if i >= len(d) {
				return i, false
			}
			switch d[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for k := 0; k < 4; k++ {
					i++
					if i >= len(d) {
						return i, false
					}
					if _, ok := jsonHex(d[i]); !ok {
						return i, false
					}
				}
			default:
				return i, false
			}
		}
	}
	return i, false
}

func jsonHex(c byte) (rune, bool) {
	switch {
	case c >= '0' && c <= '9':
		return rune(c - '0'), true
	case c >= 'a' && c <= 'f':
		return rune(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return rune(c-'A') + 10, true
	}
	return 0, false
}

// jsonValue returns the end of the value that starts at i.
func jsonValue(d []byte, i int) (int, bool) {
	if i >= len(d) {
		return i, false
	}
	switch c := d[i]; {
	case c == '"':
		return jsonString(d, i)
	case c == '{' || c == '[':
		end := c + 2
		i = jsonSpace(d, i+1)
		if i < len(d) && d[i] == end {
			return i + 1, true
		}
		for {
			var ok bool
			if c == '{' {
				if i >= len(d) || d[i] != '"' {
					return i, false
				}
				if i, ok = jsonString(d, i); !ok {
					return i, false
				}
				i = jsonSpace(d, i)
				if i >= len(d) || d[i] != ':' {
					return i, false
				}
				i = jsonSpace(d, i+1)
			}
			if i, ok = jsonValue(d, i); !ok {
				return i, false
			}
			i = jsonSpace(d, i)
			if i >= len(d) {
				return i, false
			}
			if d[i] == end {
				return i + 1, true
			}
			if d[i] != ',' {
				return i, false
			}
			i = jsonSpace(d, i+1)
		}
	case c == 't' || c == 'f' || c == 'n':
		for _, w := range []string{"true", "false", "null"} {
			if len(d)-i >= len(w) && string(d[i:i+len(w)]) == w {
				return i + len(w), true
			}
		}
		return i, false
	case c == '-' || c >= '0' && c <= '9':
		if c == '-' {
			i++
		}
		if i < len(d) && d[i] == '0' {
			i++
		} else if j := jsonDigits(d, i); j > i {
			i = j
		} else {
			return i, false
		}
		if i < len(d) && d[i] == '.' {
			j := jsonDigits(d, i+1)
			if j == i+1 {
				return i, false
			}
			i = j
		}
		if i < len(d) && (d[i] == 'e' || d[i] == 'E') {
			i++
			if i < len(d) && (d[i] == '+' || d[i] == '-') {
				i++
			}
			j := jsonDigits(d, i)
			if j == i {
				return i, false
			}
			i = j
		}
		return i, true
	}
	return i, false
}

func JSONValid(d []byte) bool {
	i, ok := jsonValue(d, jsonSpace(d, 0))
	return ok && jsonSpace(d, i) == len(d)
}

// jsonUnquote decodes the string literal s.
func jsonUnquote(s []byte) string {
	s = s[1 : len(s)-1]
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\\':
			i++
			switch s[i] {
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r := jsonRune(s[i+1:])
				i += 4
				if utf16.IsSurrogate(r) {
					if i+2 < len(s) && s[i+1] == '\\' && s[i+2] == 'u' {
						if x := utf16.DecodeRune(r, jsonRune(s[i+3:])); x != utf8.RuneError {
							b = utf8.AppendRune(b, x)
							i += 7
							continue
						}
					}
					r = utf8.RuneError
				}
				b = utf8.AppendRune(b, r)
			default:
				b = append(b, s[i])
			}
			i++
		case c < utf8.RuneSelf:
			b = append(b, c)
			i++
		default:
			r, n := utf8.DecodeRune(s[i:])
			if r == utf8.RuneError && n == 1 {
				b = append(b, "\ufffd"...)
			} else {
				b = append(b, s[i:i+n]...)
			}
			i += n
		}
	}
	return string(b)
}

func jsonRune(s []byte) rune {
	var r rune
	for k := 0; k < 4; k++ {
		h, _ := jsonHex(s[k])
		r = r<<4 | h
	}
	return r
}

// jsonMembers calls f for the members of the object d.
func jsonMembers(d []byte, f func(key string, value []byte) error) error {
	i := jsonSpace(d, 1)
	for d[i] != '}' {
		j, _ := jsonString(d, i)
		key := jsonUnquote(d[i:j])
		i = jsonSpace(d, jsonSpace(d, j)+1)
		j, _ = jsonValue(d, i)
		if err := f(key, d[i:j]); err != nil {
			return err
		}
		i = jsonSpace(d, j)
		if d[i] == ',' {
			i = jsonSpace(d, i+1)
		}
	}
	return nil
}

func JSONUnmarshal(data []byte, v any) error {
	if !JSONValid(data) {
		return errSyntax()
	}
	i := jsonSpace(data, 0)
	j, _ := jsonValue(data, i)
	data = data[i:j]
	null := data[0] == 'n'
	switch t := v.(type) {
	case *catalog.Catalog:
		if null {
			*t = nil
			return nil
		}
		if u, ok := (*t).(json.Unmarshaler); ok {
			return u.UnmarshalJSON(data)
		}
		return errType()
	case *catalog.JSONCatalog:
		if null {
			*t = nil
			return nil
		}
		if u, ok := (*t).(json.Unmarshaler); ok {
			return u.UnmarshalJSON(data)
		}
		return errType()
	case json.Unmarshaler:
		return t.UnmarshalJSON(data)
	case *string:
		if null {
			return nil
		}
		if data[0] != '"' {
			return errType()
		}
		*t = jsonUnquote(data)
		return nil
	case *map[string]string:
		if null {
			*t = nil
			return nil
		}
		if data[0] != '{' {
			return errType()
		}
		if *t == nil {
			*t = map[string]string{}
		}
		var bad error
		err := jsonMembers(data, func(key string, value []byte) error {
			s := ""
			if err := JSONUnmarshal(value, &s); err != nil {
				bad = err
			}
			(*t)[key] = s
			return nil
		})
		if err == nil {
			err = bad
		}
		return err
	case *catalog.JSONMessages:
		if null {
			*t = nil
			return nil
		}
		if data[0] != '{' {
			return errType()
		}
		if *t == nil {
			*t = catalog.JSONMessages{}
		}
		return jsonMembers(data, func(key string, value []byte) error {
			if value[0] == 'n' {
				(*t)[key] = nil
				return nil
			}
			m := &catalog.JSONMessage{}
			err := m.UnmarshalJSON(value)
			(*t)[key] = m
			return err
		})
	}
	panic("model: json.Unmarshal of this type")
}

const hexDigits = "0123456789abcdef"

func jsonQuote(s string) []byte {
	b := []byte{'"'}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
			i++
		case c == '\n':
			b = append(b, '\\', 'n')
			i++
		case c == '\r':
			b = append(b, '\\', 'r')
			i++
		case c == '\t':
			b = append(b, '\\', 't')
			i++
		case c == '\b':
			b = append(b, '\\', 'b')
			i++
		case c == '\f':
			b = append(b, '\\', 'f')
			i++
		case c < ' ' || c == '<' || c == '>' || c == '&':
			b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
			i++
		case c < utf8.RuneSelf:
			b = append(b, c)
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			switch {
			case r == utf8.RuneError && n == 1:
				b = append(b, `\ufffd`...)
			case r == '\u2028':
				b = append(b, `\u2028`...)
			case r == '\u2029':
				b = append(b, `\u2029`...)
			default:
				b = append(b, s[i:i+n]...)
			}
			i += n
		}
	}
	return append(b, '"')
}

// jsonFormat writes the valid value d without blanks, or indented.
func jsonFormat(d []byte, prefix, indent string, compact bool) []byte {
	var b []byte
	depth := 0
	line := func() {
		if !compact {
			b = append(b, '\n')
			b = append(b, prefix...)
			for k := 0; k < depth; k++ {
				b = append(b, indent...)
			}
		}
	}
	for i := jsonSpace(d, 0); i < len(d); i = jsonSpace(d, i) {
		switch c := d[i]; c {
		case '"':
			j, _ := jsonString(d, i)
			for k := i; k < j; k++ {
				switch x := d[k]; {
				case x == '<' || x == '>' || x == '&':
					b = append(b, '\\', 'u', '0', '0', hexDigits[x>>4], hexDigits[x&15])
				case x == 0xe2 && k+2 < j && d[k+1] == 0x80 && d[k+2]&^1 == 0xa8:
					b = append(b, '\\', 'u', '2', '0', '2', hexDigits[d[k+2]&15])
					k += 2
				default:
					b = append(b, x)
				}
			}
			i = j
		case '{', '[':
			b = append(b, c)
			i = jsonSpace(d, i+1)
			if d[i] == c+2 {
				b = append(b, c+2)
				i++
				continue
			}
			depth++
			line()
		case '}', ']':
			depth--
			line()
			b = append(b, c)
			i++
		case ',':
			b = append(b, c)
			line()
			i++
		case ':':
			b = append(b, c)
			if !compact {
				b = append(b, ' ')
			}
			i++
		default:
			j, _ := jsonValue(d, i)
			b = append(b, d[i:j]...)
			i = j
		}
	}
	return b
}

func JSONMarshal(v any) ([]byte, error) {
	switch t := v.(type) {
	case string:
		return jsonQuote(t), nil
	case *catalog.JSONMessage:
		if t == nil {
			return []byte("null"), nil
		}
	}
	if m, ok := v.(json.Marshaler); ok {
		d, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		if !JSONValid(d) {
			return nil, errSyntax()
		}
		return jsonFormat(d, "", "", true), nil
	}
	panic("model: json.Marshal of this type")
}

type jsonEnc struct {
	e              *json.Encoder
	w              io.Writer
	prefix, indent string
}

var jsonEncs []*jsonEnc

func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := &json.Encoder{}
	jsonEncs = append(jsonEncs, &jsonEnc{e: e, w: w})
	return e
}

func jsonEncoder(e *json.Encoder) *jsonEnc {
	for _, x := range jsonEncs {
		if x.e == e {
			return x
		}
	}
	panic("model: unknown json.Encoder")
}

func JSONSetIndent(e *json.Encoder, prefix, indent string) {
	x := jsonEncoder(e)
	x.prefix, x.indent = prefix, indent
}

func JSONSetEscapeHTML(*json.Encoder, bool) { panic("model: SetEscapeHTML") }

func JSONEncode(e *json.Encoder, v any) error {
	x := jsonEncoder(e)
	d, err := JSONMarshal(v)
	if err != nil {
		return err
	}
	if x.prefix != "" || x.indent != "" {
		d = jsonFormat(d, x.prefix, x.indent, false)
	}
	_, err = x.w.Write(append(d, '\n'))
	return err
}

type jsonDec struct {
	d *json.Decoder
	r io.Reader
}

var jsonDecs []*jsonDec

func JSONNewDecoder(r io.Reader) *json.Decoder {
	d := &json.Decoder{}
	jsonDecs = append(jsonDecs, &jsonDec{d: d, r: r})
	return d
}

// JSONDecode reads the first value only; what follows it is left alone.
func JSONDecode(d *json.Decoder, v any) error {
	for _, x := range jsonDecs {
		if x.d != d {
			continue
		}
		b, err := io.ReadAll(x.r)
		if err != nil {
			return err
		}
		i := jsonSpace(b, 0)
		if i == len(b) {
			return io.EOF
		}
		j, ok := jsonValue(b, i)
		if !ok {
			if j == len(b) {
				return io.ErrUnexpectedEOF
			}
			return errSyntax()
		}
		x.r = bytes.NewReader(b[j:])
		return JSONUnmarshal(b[i:j], v)
	}
	panic("model: unknown json.Decoder")
}
