package session

import (
	"io"
	"net"
	"sync"

	"github.com/frostbyte73/core"
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
)

const (
	maxPackets = 14
	span       = 10000 // content of the k-th packet starts at this offset times k
)

// The network: packets that arrive, in order, until reading fails.
var (
	arrived int  // packets read from the connection
	avail   int  // packets that can be read before reading fails
	valid   bool // only valid packets arrive
	onlyOne bool // all packets are from the same source

	hdrs   [maxPackets]prtp.Header
	offs   [maxPackets]int // payload offset and length
	lens   [maxPackets]int
	size   int // of the last packet
	usable [maxPackets]bool
	given  [maxPackets]bool // returned by a read
	stop   = vErr("conn")
)

type conn struct{ net.Conn }

func (c *conn) Read(b []byte) (int, error) {
	vAssert(len(b) > rtp.MTUSize, "an oversized packet is recognised")
	if avail == 0 || connClosed {
		return 0, stop
	}
	avail--
	arrived++
	size = vRange(0, len(b))
	if valid {
		vAssume(size >= 12 && size <= rtp.MTUSize)
	}
	vFill(b[:size], "net", arrived*span)
	return size, nil
}

var connClosed bool

func (c *conn) Close() error {
	connClosed = true
	return nil
}

//verif:model (*github.com/pion/rtp.Packet).Unmarshal
func unmarshal(p *prtp.Packet, b []byte) error {
	vAssert(len(b) == size && vIsStream(b, "net", arrived*span), "exactly the bytes that arrived are parsed")
	if size < 12 || !valid && vAny[bool]() {
		return vErr("malformed")
	}
	k := arrived
	from := vRange(12, size)
	to := vRange(from, size)
	var h prtp.Header
	h.SSRC = 1
	if !onlyOne && vAny[bool]() {
		h.SSRC = 2
	}
	h.SequenceNumber = uint16(k)
	h.Timestamp = vAny[uint32]()
	h.PayloadType = vAny[uint8]()
	h.Marker = vAny[bool]()
	hdrs[k], offs[k], lens[k] = h, from, to-from
	usable[k] = size <= rtp.MTUSize
	p.Header = h
	p.Payload = b[from:to]
	return nil
}

//verif:model (github.com/pion/rtp.Header).Clone
func clone(h prtp.Header) prtp.Header { return h }

// The fuse.
var (
	fuse   chan struct{}
	broken bool
)

//verif:model (*github.com/frostbyte73/core.Fuse).Watch
func watch(f *core.Fuse) <-chan struct{} { return fuse }

//verif:model (*github.com/frostbyte73/core.Fuse).Once
func once(f *core.Fuse, fn func()) {
	if !broken {
		fn()
		broken = true
		close(fuse)
	}
}

//verif:model (*github.com/frostbyte73/core.Fuse).IsBroken
func isBroken(f *core.Fuse) bool { return broken }

// The streams that were announced, by source.
var (
	sess    rtp.Session
	streams [3]rtp.ReadStream
	last    [3]int // last packet delivered from the source
)

func start() {
	fuse = make(chan struct{})
	sess = rtp.NewSession(nil, &conn{})
}

// accept receives packets until a new source is announced or reading fails.
func accept() {
	from := arrived
	r, ssrc, err := sess.AcceptStream()
	if err != nil {
		vAssert(err == stop && (avail == 0 || connClosed), "only a failing connection ends the session")
		vAssert(r == nil, "a failed call returns no stream")
		for k := from + 1; k <= arrived; k++ {
			vAssert(!usable[k] || streams[hdrs[k].SSRC] != nil, "every new source is announced")
		}
		return
	}
	vAssert(r != nil && usable[arrived] && hdrs[arrived].SSRC == ssrc, "the source announced is that of the packet")
	vAssert(streams[ssrc] == nil, "a source is announced once")
	streams[ssrc] = r
}

// read reads from the stream of the source into a buffer of any size.
func read(ssrc uint32) bool {
	buf := make([]byte, vRange(0, 2000))
	var h prtp.Header
	n, err := streams[ssrc].ReadRTP(&h, buf)
	vAssert(vLocksHeld() == 0, "no lock is held after a read")
	if err != nil {
		vAssert(broken && err == io.EOF, "reading ends only after the session is closed")
		vAssert(n == 0, "nothing is read after the end")
		return false
	}
	k := int(h.SequenceNumber)
	vAssert(k > 0 && k <= arrived && usable[k], "a packet that arrived is returned")
	vAssert(!given[k], "a packet is returned once")
	given[k] = true
	w := hdrs[k]
	vAssert(w.SSRC == ssrc, "a stream returns packets of its own source")
	vAssert(h.SSRC == w.SSRC && h.Timestamp == w.Timestamp && h.PayloadType == w.PayloadType && h.Marker == w.Marker, "the header is that of the packet")
	if len(buf) < lens[k] {
		vAssert(n == len(buf), "the payload is cut to the size of the buffer")
	} else {
		vAssert(n == lens[k], "the whole payload is returned")
	}
	vAssert(vIsStream(buf[:n], "net", k*span+offs[k]), "the payload is that of the packet")
	vAssert(k > last[ssrc] || readers != 0, "packets of a source are returned in order")
	last[ssrc] = k
	return true
}

func pending(ssrc uint32) (n int) {
	for k := 1; k <= arrived; k++ {
		if usable[k] && !given[k] && hdrs[k].SSRC == ssrc {
			n++
		}
	}
	return
}

// What the others do while a read waits or is preempted.
var (
	acts  int  // packets that may still arrive while a read runs
	inEnv bool // the others are running
)

func arrive() {
	inEnv = true
	avail = 1
	accept()
	inEnv = false
}

func shut() {
	inEnv = true
	vAssert(sess.Close() == nil, "closing succeeds")
	inEnv = false
}

// block is called when a read waits: packets arrive, and finally the session is closed if there are none for it.
//
//verif:model block
func block() {
	vAssert(vLocksHeld() == 0, "no lock is held while waiting")
	vAssert(!inEnv, "accepting packets does not wait for readers")
	if readers == 1 && vAny[bool]() {
		another()
	}
	wanted := 1 // packets needed to serve everyone who waits
	if readers == 2 {
		wanted = 2
	}
	if broken || pending(waiting) >= wanted {
		return
	}
	for wanted > 1 && acts > 1 && pending(waiting) < wanted-1 {
		acts--
		arrive()
	}
	if acts > 0 && vAny[bool]() {
		acts--
		arrive()
		if pending(waiting) >= wanted {
			if acts > 0 && vAny[bool]() {
				acts--
				arrive()
			}
			if vAny[bool]() {
				shut()
			}
			return
		}
	}
	if !broken {
		shut()
	}
}

// another is a read by another reader of the same stream, which ends before the first one continues.
func another() {
	readers = 2
	read(1)
	readers = 3
}

var readers int // 1 if another reader may start a read, 2 while it does, 3 after that

var waiting uint32 // source that is read

// A read may be preempted before it takes a lock.
//
//verif:model (*sync.Mutex).Lock
func lock(m *sync.Mutex) {
	preempt()
	m.Lock()
}

func preempt() {
	if inEnv || waiting == 0 || broken || vLocksHeld() != 0 {
		return
	}
	if readers == 1 && vAny[bool]() {
		another()
		return
	}
	if acts == 0 {
		return
	}
	switch vRange(0, 2) {
	case 1:
		acts--
		arrive()
	case 2:
		shut()
	}
}

// Three packets of two sources, possibly malformed or too large, and then reads from both streams.
//
//verif:check C28=assert+lock C02=panic unroll track solo
func Demux() {
	start()
	avail = 3
	accept()
	if avail > 0 {
		accept()
	}
	if avail > 0 {
		accept()
	}
	vAssert(avail == 0, "every packet is received")
	for ssrc := uint32(1); ssrc <= 2; ssrc++ {
		if streams[ssrc] == nil {
			continue
		}
		n := pending(ssrc)
		vAssert(n > 0, "the packet that announced a source is kept")
		waiting = ssrc
		for i := 0; i < n; i++ {
			vAssert(read(ssrc), "a packet that arrived is returned")
		}
		waiting = 0
	}
	vReach("demux")
}

// A reader that waits for packets, in any interleaving with their arrival and the end of the session.
//
//verif:check C28=assert+lock unroll track solo
func Reader() {
	start()
	valid, onlyOne = true, true
	avail = 1
	accept()
	acts = 2
	waiting = 1
	if read(1) && read(1) {
		vReach("second")
		if read(1) {
			vReach("third")
		}
	}
}

// The same, and reads go on after the end of the session.
//
//verif:check C28=assert+lock unroll track solo
func Ended() {
	start()
	valid, onlyOne = true, true
	avail = 2
	accept()
	if vAny[bool]() {
		accept()
	}
	acts = 1
	waiting = 1
	for read(1) {
	}
	for i := 0; i < 2; i++ {
		read(1)
	}
}

// Two readers of one stream, the second of which reads while the first one waits or is preempted.
//
//verif:check C28=assert+lock unroll track solo
func Readers() {
	start()
	valid, onlyOne = true, true
	avail = 1
	accept()
	waiting = 1
	if vAny[bool]() {
		read(1)
	}
	readers = 1
	acts = 2
	read(1)
	read(1)
}

// Packets that nobody reads are dropped once the queue is full.
//
//verif:check C28=assert+lock unroll track solo
func Full() {
	start()
	valid, onlyOne = true, true
	avail = 12
	accept()
	accept()
	vAssert(avail == 0, "a full queue does not block the connection")
	n := pending(1)
	for i := 0; i < n; i++ {
		read(1)
		if i == 9 {
			break
		}
	}
	vAssert(last[1] >= 10, "at least ten packets are kept")
}
