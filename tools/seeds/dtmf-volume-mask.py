prop='C16'
needs='A decoded event with the reserved bit set, or a volume above 63.'
breaks='The reserved bit of a telephone event is taken as part of the volume in both directions, so bytes outside the defined fields are produced.'
edits=[('dtmf/dtmf.go','''		Volume: data[1] & 0x3F,
''','''		Volume: data[1] & 0x7F,
'''),('dtmf/dtmf.go','''	out[1] = ev.Volume & 0x3f
''','''	out[1] = ev.Volume & 0x7f
''')]
pkg='dtmf'
demo='''package dtmf
import "testing"
func TestDemo(t *testing.T) {
	for v := 0; v < 256; v++ {
		var b [4]byte
		_, _ = Encode(b[:], Event{Code: 1, Volume: byte(v), Dur: 160})
		if b[1]&0x40 != 0 { t.Fatal("reserved bit set", v) }
	}
}
'''
