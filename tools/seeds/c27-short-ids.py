prop='C27'
needs='prekeys generated with ids of 65536 and more'
breaks='ids of generated prekeys are cut to sixteen bits'
edits=[('util/keyhelper/key.go', 'record.NewPreKey(uint32(i), key, serializer)', 'record.NewPreKey(uint32(uint16(i)), key, serializer)')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func main() {
	ser := serialize.NewJSONSerializer()
	for _, start := range []int{0, 1, 65530, 1 << 20} {
		keys, err := keyhelper.GeneratePreKeys(start, 10, ser.PreKeyRecord)
		check(err == nil && len(keys) == 10, "%d keys, %v", len(keys), err)
		for i, k := range keys {
			check(k.ID().Value == uint32(start+i), "key %d from %d has id %d", i, start, k.ID().Value)
		}
	}
}
'''
