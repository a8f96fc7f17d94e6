prop='C14'
needs='Two streams of one sequence writer asking for a timestamp at the same time, the slower one with the smaller timestamp.'
breaks='The shared maximum timestamp is stored instead of compare-and-swapped, so it can move backwards.'
edits=[('rtp/rtp.go','''		if s.maxTS.CompareAndSwap(cur, ts) {
			return ts
		}
''','''		s.maxTS.Store(ts)
		return ts
''')]
pkg='rtp'
timeout=200
demo='''package rtp
import ("testing";"sync";"sync/atomic";"time")
func TestDemo(t *testing.T) {
	end := time.Now().Add(20*time.Second)
	for time.Now().Before(end) {
		s := NewSeqWriter(&Buffer{})
		var bad atomic.Bool
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := uint32(0); i < 20000; i++ {
					ts := 1+i*8+uint32(g)
					s.CurTS(ts, 1<<28)
					if s.maxTS.Load() < ts { bad.Store(true) }
				}
			}(g)
		}
		wg.Wait()
		if bad.Load() { t.Fatal("shared timestamp moved backwards") }
	}
}
'''
