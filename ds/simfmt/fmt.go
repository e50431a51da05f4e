// Package simfmt stands in for fmt: printed text goes to a bounded per-run log.
package simfmt

import (
	"fmt"
	"io"
)

type sink struct{ buf []byte }

const limit = 16384

func (s *sink) Write(p []byte) (int, error) {
	s.buf = append(s.buf, p...)
	if len(s.buf) > 2*limit {
		s.buf = append([]byte{}, s.buf[len(s.buf)-limit:]...)
	}
	return len(p), nil
}

var theSink = &sink{}

// Sink receives the output of the system under test.
var Sink io.Writer = theSink

// Output is the tail of what was printed.
func Output() string { return string(theSink.buf) }
func ResetOutput()   { theSink.buf = theSink.buf[:0] }

func Print(a ...any) (int, error)            { return fmt.Fprint(theSink, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(theSink, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(theSink, a...) }
