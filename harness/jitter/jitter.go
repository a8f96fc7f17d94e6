package jitter

import (
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"
)

// ---- the environment: any clock

//verif:model time.Now
func now() time.Time { return vAny[time.Time]() }

//verif:model github.com/livekit/protocol/utils/mono.Now
func monoNow() time.Time { return vAny[time.Time]() }

//verif:model (time.Time).Before
func timeBefore(a, b time.Time) bool {
	if late {
		return !vKeyEq(b, arrival)
	}
	if early {
		// packets arrive at a time that is never before the expiry, which is the only other time
		return isReceived(b)
	}
	return vAny[bool]()
}

func isReceived(t time.Time) bool {
	if timed {
		return same(t, recvAt[0]) || same(t, recvAt[1]) || same(t, recvAt[2]) || same(t, recvAt[3])
	}
	return vKeyEq(t, arrival)
}

//verif:model (time.Time).After
func timeAfter(a, b time.Time) bool {
	if late {
		return !vKeyEq(a, arrival)
	}
	if early {
		return isReceived(a)
	}
	return vAny[bool]()
}

//verif:model (time.Time).Add
func timeAdd(a time.Time, d time.Duration) time.Time {
	if timed {
		for k := range recvAt {
			if same(a, recvAt[k]) {
				if eq := d == newLatency; vConst(eq) && eq {
					return lowered[k]
				}
				return deadline[k]
			}
		}
	}
	if timed && d < 0 {
		ago = -d
	}
	if early || late {
		return expiry()
	}
	return vAny[time.Time]()
}

//verif:model (time.Time).Sub
func timeSub(a, b time.Time) time.Duration { return vAny[time.Duration]() }

//verif:model time.Until
func until(t time.Time) time.Duration {
	if timed {
		for k := range deadline {
			if same(t, deadline[k]) {
				return time.Duration(k + 1)
			}
			if same(t, lowered[k]) {
				return time.Duration(k + 11)
			}
		}
	}
	return vAny[time.Duration]()
}

//verif:model time.Since
func since(t time.Time) time.Duration { return vAny[time.Duration]() }

//verif:model time.NewTimer
func newTimer(d time.Duration) *time.Timer { return &time.Timer{} }

//verif:model (*time.Timer).Reset
func reset(t *time.Timer, d time.Duration) bool {
	armed, armedFor = true, d
	return vAny[bool]()
}

//verif:model (*time.Timer).Stop
func stop(t *time.Timer) bool { return vAny[bool]() }

// early is set if the latency has not passed for any packet, late if it has for all of them.
var (
	early   bool
	late    bool
	arrival time.Time
)

func expiry() time.Time {
	t := vSym[time.Time]("expiry")
	vAssume(!vKeyEq(t, arrival))
	return t
}

// With timed, the packets have known times, and the time until the latency has passed for the k-th one is k+1.
var (
	timed            bool
	recvAt, deadline [4]time.Time
	lowered          [4]time.Time  // with newLatency
	ago              time.Duration // the last time before now that was used

	armed    bool
	armedFor time.Duration
)

func received() time.Time {
	if timed {
		return recvAt[pushedN-1]
	}
	if early || late {
		return arrival
	}
	return vAny[time.Time]()
}

// The first byte of a payload tells if it is the first one of a sample, and the second one if it is the last one.
type depacketizer struct{}

func (depacketizer) Unmarshal(b []byte) ([]byte, error)         { return b, nil }
func (depacketizer) IsPartitionHead(b []byte) bool              { return b[0] == 1 }
func (depacketizer) IsPartitionTail(marker bool, b []byte) bool { return b[1] == 1 }

const maxPackets = 8

var (
	pushed    [maxPackets]*prtp.Packet
	delivered [maxPackets]int
	duplicate [maxPackets]bool
	total     uint64
	pushedN   int
	samples   int
	packets   int

	lastLost, lastDropped uint64
	told                  int
)

func onLoss(lost, dropped uint64) {
	lastLost, lastDropped = lost, dropped
	told++
}

func onSample(s []jitter.ExtPacket) {
	samples++
	vAssert(len(s) > 0, "no empty sample is delivered")
	for i, p := range s {
		packets++
		if sorted {
			for k := 0; k < pushedN; k++ {
				if p.Packet == pushed[k] {
					vAssert(!anyOff || offset[k] > lastOff, "packets are delivered in order")
					lastOff, anyOff = offset[k], true
				}
			}
		}
		vAssert(!p.Padding, "padding is not delivered")
		found := false
		for k := 0; k < pushedN; k++ {
			if p.Packet == pushed[k] {
				found = true
				delivered[k]++
				vAssert(delivered[k] == 1, "a packet is delivered once")
				vAssert(!duplicate[k], "a duplicate is not delivered")
			}
		}
		vAssert(found, "only packets that were pushed are delivered")
		if i > 0 && !padded {
			vAssert(p.SequenceNumber == s[i-1].SequenceNumber+1, "a sample has no gaps")
			vAssert(s[i-1].Payload[1] != 1, "a sample ends with its last packet")
		}
	}
	if !padded {
		vAssert(s[0].Payload[0] == 1, "a sample begins with its first packet")
		vAssert(s[len(s)-1].Payload[1] == 1, "a sample ends with its last packet")
	}
}

var padded bool

// With sorted, the numbers of all packets are at offsets of each other.
var (
	sorted  bool
	anyOff  bool
	lastOff int
	offset  [maxPackets]int
)

// kinds of packets: bit 0 is the beginning of a sample, bit 1 its end
func newPacket(kind int) *prtp.Packet {
	p := &prtp.Packet{}
	p.SequenceNumber = vAny[uint16]()
	p.Payload = []byte{byte(kind & 1), byte(kind >> 1)}
	return p
}

func anyKind() int {
	switch vRange(0, 3) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	}
	return 3
}

func check(b *jitter.Buffer, st0 *jitter.BufferStats, told0 int) {
	st := b.Stats()
	n := uint64(b.Size())
	vAssert(st.PacketsPushed == uint64(pushedN), "every packet is counted")
	if !padded {
		vAssert(st.PacketsPopped == uint64(packets), "every packet that was delivered is counted")
		vAssert(st.SamplesPopped == uint64(samples), "every sample that was delivered is counted")
		vAssert(st.PacketsPushed == st.PacketsPopped+st.PacketsDropped+n, "every packet is held, delivered or dropped")
	} else {
		vAssert(st.PacketsPushed >= st.PacketsPopped+st.PacketsDropped+n, "no packet is counted twice")
		vAssert(st.PacketsPushed-st.PaddingPushed <= st.PacketsPopped+st.PacketsDropped+n, "every packet is held, delivered or dropped")
	}
	if st.PacketsLost != st0.PacketsLost || st.PacketsDropped != st0.PacketsDropped {
		vAssert(told > told0, "losses are reported")
		vAssert(lastLost == st.PacketsLost && lastDropped == st.PacketsDropped, "the current totals are reported")
	}
}

func newBuffer() *jitter.Buffer {
	return jitter.NewBuffer(depacketizer{}, vAny[time.Duration](), onSample, jitter.WithPacketLossHandler(onLoss))
}

func push(b *jitter.Buffer, p *prtp.Packet) {
	pushed[pushedN] = p
	pushedN++
	st0, told0, size0 := b.Stats(), told, b.Size()
	k := pushedN - 1
	if size0 == k {
		// everything is held
		for i := 0; i < k; i++ {
			if pushed[i].SequenceNumber == p.SequenceNumber {
				duplicate[k] = true
			}
		}
	}
	b.PushAt(p, received())
	check(b, st0, told0)
	st := b.Stats()
	d0 := st0.PacketsPopped + st0.PacketsDropped + uint64(size0)
	d := st.PacketsPopped + st.PacketsDropped + uint64(b.Size())
	vAssert(d == d0 || d == d0+1, "a packet is counted once")
	if !p.Padding {
		vAssert(d == d0+1, "a packet is counted once")
	}
	if duplicate[k] && !p.Padding {
		vAssert(st.PacketsDropped > st0.PacketsDropped, "a duplicate is dropped")
	}
	total = d
}

func flush(b *jitter.Buffer) {
	st0, told0 := b.Stats(), told
	b.Flush()
	check(b, st0, told0)
	vAssert(b.Size() == 0, "nothing is held after a flush")
	st := b.Stats()
	vAssert(st.PacketsPopped+st.PacketsDropped == total, "a packet is counted once")
}

// Two packets of any kinds and numbers, in any order, with any delays, and then a flush.
//
//verif:check C23=assert C03=panic C02=panic unroll track
func Two() {
	b := newBuffer()
	push(b, newPacket(anyKind()))
	push(b, newPacket(anyKind()))
	flush(b)
}

// The same for a buffer that has delivered something before.
//
//verif:check C23=assert C02=panic unroll track
func TwoMore0() { twoMore(0) }

//verif:check C23=assert C02=panic unroll track
func TwoMore1() { twoMore(1) }

//verif:check C23=assert C02=panic unroll track
func TwoMore2() { twoMore(2) }

//verif:check C23=assert C02=panic unroll track
func TwoMore3() { twoMore(3) }

func twoMore(k int) {
	b := newBuffer()
	push(b, newPacket(3))
	push(b, newPacket(k))
	push(b, newPacket(anyKind()))
	flush(b)
}

// The same with padding.
//
//verif:check C23=assert C02=panic unroll track
func TwoPadded() {
	padded = true
	b := newBuffer()
	p := newPacket(anyKind())
	p.Padding = vAny[bool]()
	push(b, p)
	p = newPacket(anyKind())
	p.Padding = vAny[bool]()
	push(b, p)
	flush(b)
}

// The parts of a sample, in any order.
//
//verif:check C23=assert C02=panic unroll track
func Parts0() { three(newBuffer(), 1, 0, 2) }

//verif:check C23=assert C02=panic unroll track
func Parts1() { three(newBuffer(), 1, 2, 0) }

//verif:check C23=assert C02=panic unroll track
func Parts2() { three(newBuffer(), 0, 1, 2) }

//verif:check C23=assert C02=panic unroll track
func Parts3() { three(newBuffer(), 0, 2, 1) }

//verif:check C23=assert C02=panic unroll track
func Parts4() { three(newBuffer(), 2, 1, 0) }

//verif:check C23=assert C02=panic unroll track
func Parts5() { three(newBuffer(), 2, 0, 1) }

// Three packets of any other kinds.
//
//verif:check C23=assert C02=panic unroll track thorough
func Three00() { threeOf(0, 0) }

//verif:check C23=assert C02=panic unroll track thorough
func Three01() { threeOf(0, 1) }

//verif:check C23=assert C02=panic unroll track thorough
func Three02() { threeOf(0, 2) }

//verif:check C23=assert C02=panic unroll track thorough
func Three03() { threeOf(0, 3) }

//verif:check C23=assert C02=panic unroll track thorough
func Three10() { threeOf(1, 0) }

//verif:check C23=assert C02=panic unroll track thorough
func Three11() { threeOf(1, 1) }

//verif:check C23=assert C02=panic unroll track thorough
func Three12() { threeOf(1, 2) }

//verif:check C23=assert C02=panic unroll track thorough
func Three13() { threeOf(1, 3) }

//verif:check C23=assert C02=panic unroll track thorough
func Three20() { threeOf(2, 0) }

//verif:check C23=assert C02=panic unroll track thorough
func Three21() { threeOf(2, 1) }

//verif:check C23=assert C02=panic unroll track thorough
func Three22() { threeOf(2, 2) }

//verif:check C23=assert C02=panic unroll track thorough
func Three23() { threeOf(2, 3) }

//verif:check C23=assert C02=panic unroll track thorough
func Three30() { threeOf(3, 0) }

//verif:check C23=assert C02=panic unroll track thorough
func Three31() { threeOf(3, 1) }

//verif:check C23=assert C02=panic unroll track thorough
func Three32() { threeOf(3, 2) }

//verif:check C23=assert C02=panic unroll track thorough
func Three33() { threeOf(3, 3) }

func threeOf(k1, k2 int) {
	switch vRange(0, 3) {
	case 0:
		three(newBuffer(), k1, k2, 0)
	case 1:
		three(newBuffer(), k1, k2, 1)
	case 2:
		three(newBuffer(), k1, k2, 2)
	default:
		three(newBuffer(), k1, k2, 3)
	}
}

func three(b *jitter.Buffer, k1, k2, k3 int) {
	push(b, newPacket(k1))
	push(b, newPacket(k2))
	push(b, newPacket(k3))
	flush(b)
}

// A gap is counted when it is skipped.
//
//verif:check C23=assert C02=panic unroll track
func Gap() {
	b := newBuffer()
	p := newPacket(3)
	push(b, p)
	d := vRange(1, 2999)
	q := newPacket(3)
	q.SequenceNumber = p.SequenceNumber + uint16(d)
	push(b, q)
	st := b.Stats()
	if delivered[1] == 1 {
		vAssert(st.PacketsLost == uint64(d-1), "the packets that were skipped are counted")
	} else {
		vAssert(d > 1 && st.PacketsLost == 0, "the next packet is delivered at once")
	}
	flush(b)
	st = b.Stats()
	vAssert(delivered[0] == 1 && delivered[1] == 1, "complete samples are delivered")
	vAssert(st.PacketsLost == uint64(d-1), "the packets that were skipped are counted")
}

// A gap that is filled before the latency passes.
//
//verif:check C23=assert C02=panic unroll track
func Filled() {
	early = true
	b := newBuffer()
	p, q, r := newPacket(3), newPacket(3), newPacket(3)
	q.SequenceNumber = p.SequenceNumber + 1
	r.SequenceNumber = p.SequenceNumber + 2
	push(b, p)
	push(b, r)
	vAssert(b.Size() == 1 && delivered[2] == 0, "a packet waits for the ones before it")
	push(b, q)
	vAssert(b.Size() == 0 && samples == 3, "nothing waits when the gap is filled")
	vAssert(b.Stats().PacketsLost == 0 && b.Stats().PacketsDropped == 0, "nothing is lost")
}

//verif:check C23=assert C02=panic unroll track
func Order0() { inOrder(0) }

//verif:check C23=assert C02=panic unroll track
func Order1() { inOrder(1) }

//verif:check C23=assert C02=panic unroll track
func Order2() { inOrder(2) }

//verif:check C23=assert C02=panic unroll track
func Order3() { inOrder(3) }

//verif:check C23=assert C02=panic unroll track
func Order4() { inOrder(4) }

//verif:check C23=assert C02=panic unroll track
func Jump0() { jump(0) }

//verif:check C23=assert C02=panic unroll track
func Jump1() { jump(1) }

//verif:check C23=assert C02=panic unroll track
func Jump2() { jump(2) }

//verif:check C23=assert C02=panic unroll track
func Jump3() { jump(3) }

//verif:check C23=assert C02=panic unroll track
func Jump4() { jump(4) }

func anyOf(n int) int {
	switch vRange(0, n-1) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	}
	return 4
}

// The parts of a sample, in any order and before the latency passes.
func inOrder(first int) {
	early = true
	b := newBuffer()
	p := newPacket(3)
	push(b, p)
	var ps [5]*prtp.Packet
	for i := range ps {
		kind := 0
		if i == 0 {
			kind = 1
		} else if i == 4 {
			kind = 2
		}
		ps[i] = newPacket(kind)
		ps[i].SequenceNumber = p.SequenceNumber + 1 + uint16(i)
	}
	push(b, ps[first])
	done := 1 << first
	for n := 0; n < 4; n++ {
		vAssert(samples == 1, "an incomplete sample is not delivered")
		i := anyOf(5)
		vAssume(done&(1<<i) == 0)
		done |= 1 << i
		push(b, ps[i])
	}
	vAssert(samples == 2 && packets == 6 && b.Size() == 0, "a complete sample is delivered")
	vAssert(b.Stats().PacketsLost == 0 && b.Stats().PacketsDropped == 0, "nothing is lost")
}

// Two samples with a jump of the numbers between them, in any order after the first packet.
func jump(first int) {
	early = true
	b := newBuffer()
	p := newPacket(3)
	push(b, p)
	a := newPacket(1)
	a.SequenceNumber = p.SequenceNumber + 1
	push(b, a)
	var ps [5]*prtp.Packet
	for i := range ps {
		switch i {
		case 0:
			ps[i] = newPacket(0)
			ps[i].SequenceNumber = p.SequenceNumber + 2
		case 1:
			ps[i] = newPacket(2)
			ps[i].SequenceNumber = p.SequenceNumber + 3
		case 2:
			ps[i] = newPacket(1)
			ps[i].SequenceNumber = p.SequenceNumber + 10000
		case 3:
			ps[i] = newPacket(0)
			ps[i].SequenceNumber = p.SequenceNumber + 10001
		default:
			ps[i] = newPacket(2)
			ps[i].SequenceNumber = p.SequenceNumber + 10002
		}
	}
	push(b, ps[first])
	done := 1 << first
	for n := 0; n < 4; n++ {
		i := anyOf(5)
		vAssume(done&(1<<i) == 0)
		done |= 1 << i
		push(b, ps[i])
	}
	vAssert(samples == 3 && packets == 7 && b.Size() == 0, "complete samples are delivered")
	vAssert(b.Stats().PacketsLost == 0 && b.Stats().PacketsDropped == 0, "nothing is lost")
}

//verif:check C40=assert unroll track
func Sorted0() { inSequence(0) }

//verif:check C40=assert unroll track
func Sorted1() { inSequence(1) }

//verif:check C40=assert unroll track
func Sorted2() { inSequence(2) }

//verif:check C40=assert unroll track
func Sorted3() { inSequence(3) }

// Packets of any kinds, at most 1400 apart, are delivered in order.
func inSequence(k int) {
	sorted = true
	b := newBuffer()
	p := newPacket(3)
	push(b, p)
	for i := 1; i < 3; i++ {
		d := vRange(-1400, 1400)
		offset[i] = d
		kind := k
		if i == 2 {
			kind = anyKind()
		}
		q := newPacket(kind)
		q.SequenceNumber = p.SequenceNumber + uint16(d)
		push(b, q)
	}
	flush(b)
}

// Nothing is held when the latency has passed.
//
//verif:check C40=assert unroll track
func Expired0() { expired(0) }

//verif:check C40=assert unroll track
func Expired1() { expired(1) }

//verif:check C40=assert unroll track
func Expired2() { expired(2) }

//verif:check C40=assert unroll track
func Expired3() { expired(3) }

func expired(k int) {
	early = true
	b := newBuffer()
	push(b, newPacket(3))
	push(b, newPacket(k))
	push(b, newPacket(anyKind()))
	early, late = false, true
	vAssume(b.Size() > 0)
	vAssert(armed, "the timer is set while packets are held")
	vRunGo(0)
	vAssert(b.Size() == 0 || armed, "nothing is held when the latency has passed")
}

// The timer fires when it is set.
var fired int

//verif:model recv time.Time
func recvTick() time.Time {
	vAssume(armed)
	armed = false
	fired++
	vAssert(fired < 4, "the timer is not set when nothing is held")
	return time.Time{}
}

// newLatency is lower than that of a new buffer.
const newLatency = time.Millisecond

// The timer is set for the first packet that is held.
//
//verif:check C40=assert unroll track
func Armed() {
	timed, early = true, true
	recvAt = [4]time.Time{vSym[time.Time]("t0"), vSym[time.Time]("t1"), vSym[time.Time]("t2"), vSym[time.Time]("t3")}
	deadline = [4]time.Time{vSym[time.Time]("d0"), vSym[time.Time]("d1"), vSym[time.Time]("d2"), vSym[time.Time]("d3")}
	lowered = [4]time.Time{vSym[time.Time]("l0"), vSym[time.Time]("l1"), vSym[time.Time]("l2"), vSym[time.Time]("l3")}
	b := jitter.NewBuffer(depacketizer{}, time.Second, onSample, jitter.WithPacketLossHandler(onLoss))
	p := newPacket(3)
	push(b, p)
	q := newPacket(3)
	q.SequenceNumber = p.SequenceNumber + 3
	push(b, q)
	vAssert(armed && armedFor == 2, "the timer is set for the packet that is held")
	armed = false
	r := newPacket(3)
	r.SequenceNumber = p.SequenceNumber + 2
	push(b, r)
	vAssert(armed && armedFor == 3, "the timer is set for the first packet that is held")
	armed = false
	b.UpdateLatency(newLatency)
	vAssert(armed && armedFor == 13, "the timer is set for the new latency if that is lower")
	armed, ago = false, 0
	s := newPacket(3)
	s.SequenceNumber = p.SequenceNumber + 4
	push(b, s)
	vAssert(!armed || armedFor == 13, "the new latency is kept")
	vAssert(ago == 0 || ago == newLatency, "the new latency is used")
}

// same tells if the two are known to be the same.
func same(a, b time.Time) bool {
	eq := vKeyEq(a, b)
	return vConst(eq) && eq
}
