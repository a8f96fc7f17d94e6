prop='C40'
needs='The latency is lowered while a complete sample waits behind a missing packet, and no packet arrives afterwards.'
breaks='The waiting sample is released only when the old latency has passed.'
edits=[('jitter/buffer.go','''	b.latency = latency
	if b.head != nil {
		b.timer.Reset''','''	lower := latency < b.latency
	b.latency = latency
	if b.head != nil && !lower {
		b.timer.Reset''')]
pkg='jitter'
demo='''package jitter
import (
	"testing"
	"time"
	"github.com/pion/rtp"
)
type demoDep struct{}
func (demoDep) Unmarshal(p []byte) ([]byte, error) { return p, nil }
func (demoDep) IsPartitionHead(p []byte) bool { return true }
func (demoDep) IsPartitionTail(m bool, p []byte) bool { return true }
func TestDemo(t *testing.T) {
	got := make(chan int, 10)
	b := NewBuffer(demoDep{}, time.Minute, func(s []ExtPacket) { for range s { got <- 1 } })
	defer b.Close()
	for _, n := range []uint16{10, 11, 13} {
		b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: n, Timestamp: uint32(n)*160}, Payload: []byte{1}})
	}
	for i := 0; i < 2; i++ { select { case <-got: case <-time.After(2*time.Second): t.Fatal("in order packets held") } }
	b.UpdateLatency(50*time.Millisecond)
	select { case <-got: case <-time.After(5*time.Second): t.Fatal("not released") }
}
'''
