package base64

import (
	"bytes"
	"io"
	"testing"
	"testing/iotest"
	"time"
)

// C20: io.Writer contract.
func TestDefectWriteCount(t *testing.T) {
	enc := NewEncoder(&bytes.Buffer{})
	if n, err := enc.Write([]byte("a")); n != 1 && err == nil {
		t.Fatalf("short write %d without an error", n)
	}
}

// C20: io.Reader contract: end of input.
func TestDefectNoEOF(t *testing.T) {
	done := make(chan error, 1)
	go func() {
		dec := NewDecoder(bytes.NewBufferString("YWJj\n"))
		p := make([]byte, 3)
		for i := 0; i < 100; i++ {
			if _, err := dec.Read(p); err != nil {
				done <- err
				return
			}
		}
		done <- nil
	}()
	select {
	case err := <-done:
		if err != io.EOF {
			t.Fatalf("end of input reported as %v", err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("hang")
	}
}

// C04/C20: a destination that is not a multiple of three bytes.
func TestDefectSmallReadPanics(t *testing.T) {
	dec := NewDecoder(bytes.NewBufferString("YWJj\n"))
	var got []byte
	for i := 0; i < 4; i++ {
		p := make([]byte, 1)
		n, _ := dec.Read(p)
		got = append(got, p[:n]...)
	}
	if string(got) != "abc" {
		t.Fatalf("%q", got)
	}
}

// C20: a source that returns data together with io.EOF.
func TestDefectDataErrReader(t *testing.T) {
	dec := NewDecoder(iotest.DataErrReader(bytes.NewBufferString("YWJj")))
	p := make([]byte, 3)
	n, _ := dec.Read(p)
	if string(p[:n]) != "abc" {
		t.Fatalf("%q", p[:n])
	}
}
