// Reads documents (4 bytes of length, then text) and answers one line for each: the tree or an error.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"strings"

	styx "github.com/bearcove/styx/implementations/styx-go"
)

func q(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == 8:
			b.WriteString(`\b`)
		case c == 12:
			b.WriteString(`\f`)
		case c >= 32 && c < 128:
			b.WriteRune(c)
		case c > 0xffff:
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		default:
			fmt.Fprintf(&b, "\\u%04x", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}
func payload(v *styx.Value) string {
	switch v.PayloadKind {
	case styx.PayloadScalar:
		return fmt.Sprintf("s%s %d,%d %s", v.Scalar.Kind, v.Scalar.Span.Start, v.Scalar.Span.End, q(v.Scalar.Text))
	case styx.PayloadSequence:
		r := fmt.Sprintf("(%d,%d", v.Sequence.Span.Start, v.Sequence.Span.End)
		for _, i := range v.Sequence.Items {
			r += " " + value(i)
		}
		return r + ")"
	}
	r := fmt.Sprintf("{%d,%d", v.Object.Span.Start, v.Object.Span.End)
	for _, e := range v.Object.Entries {
		r += " " + entry(e)
	}
	return r + "}"
}
func value(v *styx.Value) string {
	if v.Tag != nil {
		r := fmt.Sprintf("@%s %d,%d", q(v.Tag.Name), v.Span.Start, v.Span.End)
		if v.PayloadKind != styx.PayloadNone {
			r += " " + payload(v)
		}
		return r
	}
	if v.PayloadKind == styx.PayloadNone {
		return fmt.Sprintf("@ %d,%d", v.Span.Start, v.Span.End)
	}
	return payload(v)
}
func entry(e *styx.Entry) string { return "[" + value(e.Key) + " " + value(e.Value) + "]" }
func answer(src string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = "crash " + q(fmt.Sprint(e))
		}
	}()
	doc, err := styx.Parse(src)
	if err != nil {
		if pe, ok := err.(*styx.ParseError); ok {
			return fmt.Sprintf("error %d,%d %s", pe.Span.Start, pe.Span.End, q(pe.Message))
		}
		return "error -1,-1 " + q(err.Error())
	}
	var es []string
	for _, e := range doc.Entries {
		es = append(es, entry(e))
	}
	return "ok " + strings.Join(es, " ")
}
func main() {
	in, out := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
	for {
		var n uint32
		if binary.Read(in, binary.LittleEndian, &n) != nil {
			break
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			break
		}
		fmt.Fprintln(out, answer(string(b)))
		out.Flush()
	}
}
