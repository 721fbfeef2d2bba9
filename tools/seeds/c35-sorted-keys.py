prop='C35'
needs='three skipped group messages, the first of them decrypted, then the second'
breaks='removing a skipped group key moves the last one into its place, while looking one up stops at the first later iteration, so stored keys are reported missing'
edits=[('groups/state/record/state_sender_key.go', '\t\t\treturn true\n\t\t}\n\t}\n\treturn false', '\t\t\treturn true\n\t\t}\n\t\tif k.keys[i].Iteration() > iteration {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn false'), ('groups/state/record/state_sender_key.go', '\t\t\tk.keys = append(k.keys[0:i], k.keys[i+1:]...)', '\t\t\tk.keys[i] = k.keys[len(k.keys)-1]\n\t\t\tk.keys = k.keys[:len(k.keys)-1]')]
main='''
package main

import (
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/serialize"
)

func main() {
	ser := serialize.NewJSONSerializer()
	pair, _ := ecc.GenerateKeyPair()
	st := grecord.NewSenderKeyState(1, 9, make([]byte, 32), pair, ser.SenderKeyState)
	for i := uint32(1); i < 6; i++ {
		k, _ := ratchet.NewSenderMessageKey(i, []byte(fmt.Sprint("seed", i)))
		st.AddSenderMessageKey(k)
	}
	for i := uint32(1); i < 6; i++ {
		check(st.HasSenderMessageKey(i), "no key %d", i)
		k := st.RemoveSenderMessageKey(i)
		check(k != nil && k.Iteration() == i, "key %d", i)
		check(!st.HasSenderMessageKey(i), "key %d still there", i)
	}
}
'''
