prop='C23'
needs='a fingerprint chunk whose second byte is 128 or more'
breaks='the low four bytes of a fingerprint chunk are combined as a signed number, so half of the chunks show other digits'
edits=[('util/bytehelper/byte.go', '\t\t(int64(bytes[offset+1]&0xff) << 24) |\n\t\t(int64(bytes[offset+2]&0xff) << 16) |\n\t\t(int64(bytes[offset+3]&0xff) << 8) |\n\t\tint64(bytes[offset+4]&0xff)', '\t\tint64(int32(bytes[offset+1])<<24|int32(bytes[offset+2])<<16|int32(bytes[offset+3])<<8|int32(bytes[offset+4]))')]
main='''
package main

import (
	"fmt"
	"math/big"

	"github.com/prospik/libsignal-protocol-go/fingerprint"
)

func main() {
	text := func(b []byte) string {
		s := ""
		for i := 0; i < 30; i += 5 {
			n := new(big.Int).SetBytes(b[i : i+5])
			s += fmt.Sprintf("%05d", n.Mod(n, big.NewInt(100000)))
		}
		return s
	}
	for i := 0; i < 256; i++ {
		x, y := make([]byte, 32), make([]byte, 32)
		for k := range x {
			x[k], y[k] = byte(i*7+k*31), byte(i*11+k*29)
		}
		d := fingerprint.NewDisplay(x, y).DisplayText()
		check(d == fingerprint.NewDisplay(y, x).DisplayText(), "sides differ")
		check(d == text(x)+text(y) || d == text(y)+text(x), "fingerprint %s", d)
	}
}
'''
