prop='C02'
needs='three messages arrive in the order 4, 1, 3: a skipped message key is taken from the list before a later one'
breaks='the position of a skipped key is computed from the first one kept, which is wrong once the list has gaps: the wrong key is used or the receiver crashes'
edits=[('state/record/state_session.go','''	// Loop through our message keys and compare its index with the
	// given counter. When we find a match, remove it from our list.
''','''	// Message keys are kept in order, so the position follows from the
	// counter. Remove it from our list.
'''),('state/record/state_session.go','''	for i, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			rmIndex = i
			break
		}
	}
''','''	if len(messageKeyList) > 0 {
		if i := int(counter - messageKeyList[0].Index()); i < len(messageKeyList) {
			rmIndex = i
		}
	}
''')]
main='''
package main

func main() {
	a, b := pair()
	var ms []wire
	for i := 0; i < 6; i++ {
		ms = append(ms, a.send(b, string(rune('a'+i))))
	}
	for _, i := range []int{5, 1, 3, 0, 4, 2} {
		b.want(a, ms[i], string(rune('a'+i)))
	}
}
'''
