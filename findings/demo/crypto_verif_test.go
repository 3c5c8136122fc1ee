package crypto

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"testing/iotest"

	"github.com/kisom/psignify/signify"
)

func dscratch(t *testing.T) string {
	d, err := ioutil.TempDir("", "psig")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// C16: the empty message.
func TestDefectEmptyMessage(t *testing.T) {
	d := dscratch(t)
	m := filepath.Join(d, "m")
	ioutil.WriteFile(m, nil, 0600)
	if err := Seal(testPublicKey, m, ""); err != nil {
		t.Fatal(err)
	}
	if err := Open(testPrivateKey, m+".enc", m+".out"); err != nil {
		t.Fatal("sealed empty file cannot be opened:", err)
	}
}

// C16: a reader that returns short counts lost data silently.
func TestDefectShortReads(t *testing.T) {
	priv, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	msg := bytes.Repeat([]byte("0123456789"), 5000)
	var enc, dec bytes.Buffer
	if err := seal(pub, iotest.HalfReader(bytes.NewReader(msg)), len(msg), &enc); err != nil {
		t.Fatal(err)
	}
	if err := open(priv, &enc, &dec); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(msg, dec.Bytes()) {
		t.Fatalf("sealed %d bytes of %d", dec.Len(), len(msg))
	}
}

// C16: a file whose size is not known from stat (pipe, /proc) sealed nothing.
func TestDefectUnsizedFile(t *testing.T) {
	d := dscratch(t)
	e := filepath.Join(d, "e")
	if err := Seal(testPublicKey, "/proc/version", e); err != nil {
		return // refusing is fine
	}
	if err := Open(testPrivateKey, e, e+".out"); err != nil {
		t.Fatal(err)
	}
	out, _ := ioutil.ReadFile(e + ".out")
	want, _ := ioutil.ReadFile("/proc/version")
	if !bytes.Equal(out, want) {
		t.Fatalf("success, but sealed %d of %d bytes", len(out), len(want))
	}
}

// C17: an error of the encoder's final flush was dropped.
func TestDefectFlushErrorDropped(t *testing.T) {
	d := dscratch(t)
	m := filepath.Join(d, "m")
	ioutil.WriteFile(m, []byte("abc"), 0600)
	if err := Seal(testPublicKey, m, ""); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(m + ".enc")
	if err != nil {
		t.Fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = uint64(fi.Size()) - 3 // the last quantum does not fit
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Skip(err)
	}
	err = Seal(testPublicKey, m, m+".enc2")
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("success reported although the end of the sealed file could not be written")
	}
}

// C15: a file that fails authentication destroyed the existing output.
func TestDefectOutputClobbered(t *testing.T) {
	d := dscratch(t)
	out := filepath.Join(d, "out")
	ioutil.WriteFile(out, []byte("precious"), 0600)
	bad := filepath.Join(d, "bad")
	ioutil.WriteFile(bad, append([]byte("untrusted comment: x\n"), bytes.Repeat([]byte("QUJD"), 100)...), 0600)
	if err := Open(testPrivateKey, bad, out); err == nil {
		t.Fatal("forged file opened")
	}
	got, _ := ioutil.ReadFile(out)
	if string(got) != "precious" {
		t.Fatalf("output overwritten with %q although nothing authenticated", got)
	}
}
