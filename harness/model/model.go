// Package model holds Go models of standard-library entry points that the
// encoder interprets in place of the originals.  Only the four primitives
// shaApp, hmacApp, aesEnc and aesDec are uninterpreted there; the bodies below
// let the models be compared with the originals natively.
package model

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"io"
	"sync"
	"time"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/logger"
)

// The log: nothing unless a harness has set up a logger of its own, which is
// then called with an empty text below the level of warnings.
func LogDebug(msg ...interface{}) {
	if logger.Logger != nil {
		logger.Logger.Debug("", "")
	}
}

func LogInfo(msg ...interface{}) {
	if logger.Logger != nil {
		logger.Logger.Info("", "")
	}
}

func LogWarning(msg ...interface{}) {
	if logger.Logger != nil {
		logger.Logger.Warning("", text(msg))
	}
}

func LogError(msg ...interface{}) {
	if logger.Logger != nil {
		logger.Logger.Error("", text(msg))
	}
}

// text is what would be printed for the values, in a form that keeps what they
// contain.
func text(xs []interface{}) string {
	s := ""
	for _, x := range xs {
		switch x := x.(type) {
		case error:
			s += x.Error()
		case string:
			s += x
		case interface{ String() string }:
			s += x.String()
		default:
			s += sym.Shown(x)
		}
	}
	return s
}

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

// Errorf is fmt.Errorf.
func Errorf(format string, xs ...interface{}) error {
	e := &wrapError{s: format + text(xs)}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range xs {
				if err, ok := x.(error); ok {
					e.err = err
				}
			}
		}
	}
	return e
}

// The standard log, for harnesses that encode the logger package.
var out io.Writer

func SetOutput(w io.Writer) { out = w }

func Println(xs ...interface{}) {
	s := Sprintln(xs...)
	if out != nil {
		out.Write([]byte(s))
	}
}

func Print(xs ...interface{}) {
	s := ""
	for i, x := range xs {
		if i > 0 && !isString(x) && !isString(xs[i-1]) {
			s += " "
		}
		s += text([]interface{}{x})
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	if out != nil {
		out.Write([]byte(s))
	}
}

func Printf(f string, xs ...interface{}) { Print(fmt.Sprintf(f, xs...)) }

// Index is strings.Index.
func Index(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func isString(x interface{}) bool { _, ok := x.(string); return ok }

func Sprintln(xs ...interface{}) string {
	s := ""
	for i, x := range xs {
		if i > 0 {
			s += " "
		}
		s += text([]interface{}{x})
	}
	return s + "\n"
}

// Contains is strings.Contains.
func Contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// Split is strings.Split for a separator of one byte.
func Split(s, sep string) []string {
	var parts []string
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep[0] {
			parts = append(parts, s[from:i])
			from = i + 1
		}
	}
	return append(parts, s[from:])
}

// TimeFormat is the time in some form.
func TimeFormat(t time.Time, layout string) string { return layout }

// RType stands for the result of reflect.TypeOf.
type RType string

func (r RType) String() string { return string(r) }

func shaApp(kind int, msg []byte) []byte {
	if kind == 512 {
		h := sha512.Sum512(msg)
		return h[:]
	}
	h := sha256.Sum256(msg)
	return h[:]
}

func hmacApp(kind int, key, msg []byte) []byte {
	n := sha256.New
	if kind == 512 {
		n = sha512.New
	}
	m := hmac.New(n, key)
	m.Write(msg)
	return m.Sum(nil)
}

func aesEnc(key, block []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	c.Encrypt(out, block)
	return out
}

func aesDec(key, block []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	c.Decrypt(out, block)
	return out
}

// RandRead models crypto/rand.Read, which ends the program if the source fails.
func RandRead(b []byte) (int, error) {
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		sym.Assume(false)
	}
	return len(b), nil
}

// ---- hashes ----

type sha struct {
	kind int
	buf  []byte
}

func (s *sha) Write(p []byte) (int, error) {
	s.buf = append(s.buf, p...)
	return len(p), nil
}
func (s *sha) Sum(in []byte) []byte { return append(in, shaApp(s.kind, s.buf)...) }
func (s *sha) Reset()               { s.buf = nil }
func (s *sha) Size() int            { return s.kind / 8 }
func (s *sha) BlockSize() int {
	if s.kind == 512 {
		return 128
	}
	return 64
}

func Sha256New() hash.Hash { return &sha{kind: 256} }
func Sha512New() hash.Hash { return &sha{kind: 512} }

func Sum256(p []byte) [32]byte {
	var out [32]byte
	copy(out[:], shaApp(256, p))
	return out
}

func Sum512(p []byte) [64]byte {
	var out [64]byte
	copy(out[:], shaApp(512, p))
	return out
}

type mac struct {
	kind  int
	block int
	key   []byte
	buf   []byte
}

func (s *mac) Write(p []byte) (int, error) {
	s.buf = append(s.buf, p...)
	return len(p), nil
}
func (s *mac) Sum(in []byte) []byte { return append(in, hmacApp(s.kind, s.key, s.buf)...) }
func (s *mac) Reset()               { s.buf = nil }
func (s *mac) Size() int            { return s.kind / 8 }
func (s *mac) BlockSize() int       { return s.block }

// HmacNew models crypto/hmac.New: the key is hashed when longer than a block
// and zero-padded to a block.
func HmacNew(h func() hash.Hash, key []byte) hash.Hash {
	x, ok := h().(*sha)
	if !ok {
		panic("model: HMAC over an unmodelled hash")
	}
	m := &mac{kind: x.kind, block: x.BlockSize()}
	k := make([]byte, m.block)
	if len(key) > m.block {
		copy(k, shaApp(m.kind, key))
	} else {
		copy(k, key)
	}
	m.key = k
	return m
}

// ---- AES, CBC ----

type block struct{ key []byte }

func (b *block) BlockSize() int { return 16 }
func (b *block) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, aesEnc(b.key, src[:16]))
}
func (b *block) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, aesDec(b.key, src[:16]))
}

// AesNewCipher models crypto/aes.NewCipher.
func AesNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, aes.KeySizeError(len(key))
	}
	k := make([]byte, len(key))
	copy(k, key)
	return &block{k}, nil
}

type cbc struct {
	b   cipher.Block
	iv  []byte
	dec bool
}

func (c *cbc) BlockSize() int { return c.b.BlockSize() }
func (c *cbc) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i < len(src); i += n {
		in := make([]byte, n)
		copy(in, src[i:i+n])
		out := make([]byte, n)
		if c.dec {
			c.b.Decrypt(out, in)
			for j := range out {
				out[j] ^= c.iv[j]
			}
			c.iv = in
		} else {
			for j := range in {
				in[j] ^= c.iv[j]
			}
			c.b.Encrypt(out, in)
			c.iv = out
		}
		copy(dst[i:i+n], out)
	}
}

func newCBC(b cipher.Block, iv []byte, dec bool) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		if dec {
			panic("cipher.NewCBCDecrypter: IV length must equal block size")
		}
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	v := make([]byte, len(iv))
	copy(v, iv)
	return &cbc{b: b, iv: v, dec: dec}
}

func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, false) }
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, true) }

// ---- misc ----

// BinaryRead models encoding/binary.Read for the fixed-size integers.
func BinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	switch p := data.(type) {
	case *uint16:
		b := make([]byte, 2)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		*p = order.Uint16(b)
	case *uint32:
		b := make([]byte, 4)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		*p = order.Uint32(b)
	case *int32:
		b := make([]byte, 4)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		*p = int32(order.Uint32(b))
	case *uint64:
		b := make([]byte, 8)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		*p = order.Uint64(b)
	case *int64:
		b := make([]byte, 8)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		*p = int64(order.Uint64(b))
	default:
		return errors.New("model: binary.Read of an unmodelled type")
	}
	return nil
}

var onces = map[*sync.Once]bool{}

// OnceDo models (*sync.Once).Do (goroutines run one after another here).
func OnceDo(o *sync.Once, f func()) {
	if onces[o] {
		return
	}
	onces[o] = true
	f()
}

// A pool hands out what was put back last.
var pools = map[*sync.Pool][]interface{}{}

func PoolGet(p *sync.Pool) interface{} {
	if q := pools[p]; len(q) > 0 {
		x := q[len(q)-1]
		pools[p] = q[: len(q)-1 : len(q)-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func PoolPut(p *sync.Pool, x interface{}) {
	if x != nil {
		pools[p] = append(pools[p], x)
	}
}
