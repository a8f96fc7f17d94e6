prop='C15'
needs='A bulk write that has to drop old elements up to exactly the end of the underlying array.'
breaks='The read position is left one past the end of the array, so the reported length is wrong and the next peek or pop panics.'
edits=[('ring/buffer.go','''		b.read = (b.read + dn) % len(b.buf) // drop old
	}
	dn := copy''','''		b.read += dn // drop old
		if b.read > len(b.buf) {
			b.read -= len(b.buf)
		}
	}
	dn := copy''')]
pkg='ring'
demo='''package ring
import "testing"
func TestDemo(t *testing.T) {
	for size := 2; size < 6; size++ {
		for off := 0; off < size; off++ {
			for k := 1; k < size; k++ {
				b := NewBuffer[int](size)
				for i := 0; i < off; i++ { b.Push(-1); b.Pop() }
				for i := 0; i < size; i++ { b.Push(i) }
				var p []int
				for i := 0; i < k; i++ { p = append(p, size+i) }
				_, _ = b.Write(p)
				if b.Len() != size { t.Fatal("length", b.Len()) }
				for i := 0; i < size; i++ { if v := b.Pop(); v != k+i { t.Fatal(v) } }
			}
		}
	}
}
'''
