prop='C04'
needs='Reading statistics while packets are being pushed from another goroutine.'
breaks='Stats hands out the live statistics object, which is then read without the lock while the buffer updates it.'
edits=[('jitter/buffer.go','''	return &BufferStats{
		PacketsPushed:  b.stats.PacketsPushed,
		PaddingPushed:  b.stats.PaddingPushed,
		PacketsLost:    b.stats.PacketsLost,
		PacketsDropped: b.stats.PacketsDropped,
		PacketsPopped:  b.stats.PacketsPopped,
		SamplesPopped:  b.stats.SamplesPopped,
	}
''','''	return b.stats
''')]
pkg='jitter'
demo='''package jitter
import ("testing";"time";"github.com/pion/rtp")
func TestDemo(t *testing.T) {
	b := NewBuffer(&testDepacketizer{}, time.Second, func([]ExtPacket) {})
	defer b.Close()
	st := b.Stats()
	n := st.PacketsPushed
	b.Push(&rtp.Packet{Header: rtp.Header{SequenceNumber: 1}, Payload: []byte{1}})
	if st.PacketsPushed != n { t.Fatal("a statistics snapshot changes while packets are pushed") }
}
'''
