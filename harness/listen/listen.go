package listen

import (
	"context"
	"net"
	"net/netip"
	"syscall"

	"github.com/livekit/media-sdk/rtp"
)

// The system's sockets: a port is free, in use, or refused for another reason.
var sys struct {
	min, max int // what is requested, after clamping; both 0 for any port
	single   bool
	kind     int // tells the cases apart
	n        int // ports tried
	next     int // the one that has to follow
	wrapped  bool
	ended    bool // a port was opened or refused
	conn     *net.UDPConn
	err      error
	port     int // the last port turned into text
	texts    int
}

var inUse error = &net.OpError{} // wraps EADDRINUSE

//verif:model errors.Is
func is(err, target error) bool {
	return err == target || err == inUse && target == syscall.EADDRINUSE
}

func open(port int) (*net.UDPConn, error) {
	vAssert(!sys.ended, "nothing is tried after a success or another error")
	if sys.single {
		vAssert(port == sys.min, "a range of a single port is passed on as it is")
		vAssert(sys.n == 0, "a port is tried at most once")
	} else {
		vAssert(sys.min <= port && port <= sys.max, "the port is in the range")
		vAssert(0 <= port && port <= 65535, "the port is valid")
		vAssert(sys.n <= sys.max-sys.min, "no more ports are tried than the range has")
		if sys.n > 0 {
			// The ports are tried in a cycle, so that none comes twice before all were tried.
			vAssert(port == sys.next, "each port is followed by the next, and the last one by the first")
		}
	}
	sys.n++
	sys.next = port + 1
	if sys.next > sys.max {
		sys.next, sys.wrapped = sys.min, true
	}
	switch vRange(0, 2) {
	case 0:
		sys.ended = true
		sys.conn, sys.err = &net.UDPConn{}, nil
	case 1:
		sys.ended = true
		sys.conn, sys.err = nil, vErr("refused")
	default:
		sys.conn, sys.err = nil, inUse
	}
	return sys.conn, sys.err
}

//verif:model net.ListenUDP
func listenUDP(network string, a *net.UDPAddr) (*net.UDPConn, error) {
	vAssert(network == "udp", "UDP is listened on")
	return open(a.Port)
}

//verif:model (*net.ListenConfig).ListenPacket
func listenPacket(lc *net.ListenConfig, ctx context.Context, network, address string) (net.PacketConn, error) {
	vAssert(network == "udp", "UDP is listened on")
	vAssert(sys.texts == 1, "the address has one port")
	sys.texts = 0
	c, err := open(sys.port)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func portText(port int) {
	sys.port = port
	sys.texts++
}

//verif:model fmt.Sprintf
func sprintf(format string, args ...any) string {
	for _, a := range args {
		switch a := a.(type) {
		case int:
			portText(a)
		case uint16:
			portText(int(a))
		}
	}
	return vAny[string]()
}

//verif:model strconv.Itoa
func itoa(n int) string {
	portText(n)
	return vAny[string]()
}

//verif:model strconv.FormatInt
func formatInt(n int64, base int) string {
	vAssert(base == 10, "ports are decimal")
	portText(int(n))
	return vAny[string]()
}

//verif:model strconv.FormatUint
func formatUint(n uint64, base int) string {
	vAssert(base == 10, "ports are decimal")
	portText(int(n))
	return vAny[string]()
}

func listen(min, max int, with bool) {
	var c *net.UDPConn
	var err error
	ip := vAny[netip.Addr]()
	if with {
		c, err = rtp.ListenUDPPortRangeWithConfig(min, max, ip, &net.ListenConfig{})
	} else {
		c, err = rtp.ListenUDPPortRange(min, max, ip)
	}
	vAssert((c != nil) != (err != nil), "either a connection or an error is returned")
	switch {
	case sys.ended:
		vAssert(c == sys.conn && err == sys.err, "the outcome of the last port is returned")
	case sys.single:
		vAssert(sys.n == 1, "a single port is tried")
		vAssert(err != nil, "a port in use is an error")
	case sys.min > sys.max:
		vAssert(sys.n == 0, "an empty range has no port to try")
		vAssert(err != nil, "an empty range is an error")
	default:
		vAssert(sys.n == sys.max-sys.min+1, "all the ports of the range are tried before giving up")
		vAssert(err != nil, "giving up is an error")
	}
}

// A range with any bounds, clamped to valid ports.
func anyRange() (min, max int) {
	min, max = vAny[int](), vAny[int]()
	sys.min, sys.max = min, max
	switch {
	case min <= 0 && max <= 0:
		sys.min, sys.max, sys.single = 0, 0, true // any port
	case min == max:
		sys.single = true
	default:
		if min <= 0 {
			sys.min = 1
		}
		if max <= 0 {
			sys.max, sys.kind = 65535, 1
		} else if max > 65535 {
			sys.max, sys.kind = 65535, 2
		}
	}
	return
}

//verif:check C19=assert C03=panic
func Range() {
	min, max := anyRange()
	listen(min, max, false)
}

// The same, with a configuration for the sockets.
//
//verif:check C19=assert C03=panic
func RangeWithConfig() {
	min, max := anyRange()
	listen(min, max, true)
}

//verif:model math/rand.Intn
func intn(n int) int {
	vCheck("panic", n > 0, "a random number is drawn from an empty range")
	return vRange(0, n-1)
}

//verif:model math/rand/v2.IntN
func intN(n int) int { return intn(n) }
