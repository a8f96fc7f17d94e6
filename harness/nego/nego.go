package nego

import (
	"encoding/base64"
	"io"
	"net/netip"

	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"

	"github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
)

// ---- the environment

// The text of a description is read back as it was written.
var wire psdp.SessionDescription

//verif:model (*github.com/pion/sdp/v3.SessionDescription).Unmarshal
func unmarshal(s *psdp.SessionDescription, b []byte) error {
	*s = wire
	return nil
}

// Random bytes come from one stream.
var randOff int

//verif:model crypto/rand.Read
func randRead(b []byte) (int, error) {
	vFill(b, "rand", randOff)
	randOff += len(b)
	return len(b), nil
}

//verif:model io.ReadFull
func readFull(r io.Reader, b []byte) (int, error) { return randRead(b) }

//verif:model math/rand.Uint64
func randUint64() uint64 { return vAny[uint64]() }

//verif:model math/rand/v2.Uint64
func randUint64v2() uint64 { return vAny[uint64]() }

//verif:model (github.com/pion/srtp/v3.ProtectionProfile).KeyLen
func keyLen(p psrtp.ProtectionProfile) (int, error) {
	switch p {
	case psrtp.ProtectionProfileAes128CmHmacSha1_80, psrtp.ProtectionProfileAes128CmHmacSha1_32:
		return 16, nil
	case psrtp.ProtectionProfileAes256CmHmacSha1_80, psrtp.ProtectionProfileAes256CmHmacSha1_32:
		return 32, nil
	}
	return 0, vErr("keylen")
}

//verif:model (github.com/pion/srtp/v3.ProtectionProfile).SaltLen
func saltLen(p psrtp.ProtectionProfile) (int, error) { return 14, nil }

// Each text of a key stands for the bytes it was made from.
var (
	encN  int
	encOf [8][]byte
)

var encText = [8]string{"B0", "B1", "B2", "B3", "B4", "B5", "B6", "B7"}

//verif:model (*encoding/base64.Encoding).EncodeToString
func encodeToString(e *base64.Encoding, b []byte) string {
	n := encN
	encN++
	encOf[n] = make([]byte, len(b))
	copy(encOf[n], b)
	return encText[n]
}

//verif:model (encoding/base64.Encoding).WithPadding
func withPadding(e base64.Encoding, r rune) *base64.Encoding { return base64.StdEncoding }

//verif:model (*encoding/base64.Encoding).DecodeString
func decodeString(e *base64.Encoding, s string) ([]byte, error) {
	for i := 0; i < encN; i++ {
		if s == encText[i] {
			c := make([]byte, len(encOf[i]))
			copy(c, encOf[i])
			return c, nil
		}
	}
	return nil, vErr("base64")
}

// Addresses: 1 and 2, followed by the port.
const (
	addrA = 1
	addrB = 2
	ports = 1 << 16
)

//verif:model (net/netip.Addr).String
func addrString(a netip.Addr) string {
	switch vTagOf(a) {
	case addrA:
		return "192.0.2.1"
	case addrB:
		return "192.0.2.2"
	}
	return "invalid"
}

//verif:model net/netip.ParseAddr
func parseAddr(s string) (netip.Addr, error) {
	switch s {
	case "192.0.2.1":
		return vTag[netip.Addr](addrA), nil
	case "192.0.2.2":
		return vTag[netip.Addr](addrB), nil
	}
	return netip.Addr{}, vErr("addr")
}

//verif:model net/netip.AddrPortFrom
func addrPortFrom(a netip.Addr, port uint16) netip.AddrPort {
	return vTag[netip.AddrPort](vTagOf(a)*ports + int(port))
}

//verif:model (net/netip.AddrPort).IsValid
func isValid(a netip.AddrPort) bool { return vTagOf(a) >= ports }

//verif:model (net/netip.AddrPort).Port
func portOf(a netip.AddrPort) uint16 { return uint16(vTagOf(a) % ports) }

// The companding tables play no role.
//
//verif:model github.com/livekit/media-sdk/g711.buildLinTable
func buildLin(table []int16, f func(byte) int) {}

//verif:model github.com/livekit/media-sdk/g711.buildLawTable
func buildLaw(table []byte, f func(byte) int, mask int) {}

// ---- two sides

func sameAddr(a, b netip.AddrPort) bool { return vTagOf(a) == vTagOf(b) }

// sameBytes: both are the same part of the random bytes.
func sameBytes(a, b []byte) bool {
	off := vStreamAt(a, "rand")
	return len(a) == len(b) && off >= 0 && vIsStream(a, "rand", off) && vIsStream(b, "rand", off)
}

func negotiate(encA, encB sdp.Encryption) {
	n := 3 // all of them enabled
	if encA == sdp.EncryptionNone || encB == sdp.EncryptionNone {
		n = vRange(0, 3)
	}
	switch n {
	case 0:
		media.CodecSetEnabled("PCMU/8000", false)
	case 1:
		media.CodecSetEnabled("G722/8000", false)
	case 2:
		media.CodecSetEnabled("G722/8000", false)
		media.CodecSetEnabled("PCMU/8000", false)
	}
	portA, portB := vRange(1, 65535), vRange(1, 65535)
	offer, err := sdp.NewOffer(vTag[netip.Addr](addrA), portA, encA)
	vAssert(err == nil && offer != nil, "an offer is made")
	wire = offer.SDP
	got, err := sdp.ParseOffer(nil)
	vAssert(err == nil && got != nil, "an offer is understood")
	vAssert(sameAddr(got.Addr, offer.Addr), "the address of an offer is understood")
	vAssert(got.DTMFType == offer.DTMFType, "the type of telephone events is understood")
	i := 0
	for _, c := range offer.Codecs {
		if c.Type == offer.DTMFType {
			continue
		}
		vAssert(i < len(got.Codecs) && got.Codecs[i].Type == c.Type && got.Codecs[i].Codec == c.Codec, "the codecs of an offer are understood")
		i++
	}
	vAssert(len(got.CryptoProfiles) == len(offer.CryptoProfiles), "the keys of an offer are understood")
	for i, p := range offer.CryptoProfiles {
		q := got.CryptoProfiles[i]
		vAssert(p.Index == q.Index && p.Profile == q.Profile && sameBytes(p.Key, q.Key) && sameBytes(p.Salt, q.Salt), "the keys of an offer are understood")
	}
	ans, b, err := got.Answer(vTag[netip.Addr](addrB), portB, encB)
	if encA == sdp.EncryptionNone && encB == sdp.EncryptionRequire {
		vAssert(err != nil, "keys that are required but not offered are an error")
		vReach("not offered")
		return
	}
	vAssert(err == nil && ans != nil && b != nil, "an offer is answered")
	wire = ans.SDP
	got2, err := sdp.ParseAnswer(nil)
	vAssert(err == nil && got2 != nil, "an answer is understood")
	vAssert(sameAddr(got2.Addr, ans.Addr), "the address of an answer is understood")
	a, err := got2.Apply(offer, encA)
	if encA == sdp.EncryptionRequire && encB == sdp.EncryptionNone {
		vAssert(err != nil, "keys that are required but not in the answer are an error")
		vReach("not answered")
		return
	}
	vAssert(err == nil && a != nil, "an answer is applied")
	vReach("agreed")
	vAssert(sameAddr(a.Local, b.Remote) && sameAddr(a.Remote, b.Local), "both sides know each other's address")
	vAssert(sameAddr(a.Local, offer.Addr) && sameAddr(b.Local, ans.Addr), "both sides know their address")
	vAssert(a.Audio.Codec == b.Audio.Codec && a.Audio.Type == b.Audio.Type && a.Audio.DTMFType == b.Audio.DTMFType, "both sides use the same codec and types")
	vAssert(a.Audio.Codec != nil && media.CodecEnabled(a.Audio.Codec), "the codec is an enabled one")
	best := a.Audio.Codec.Info().Priority
	for _, c := range offer.Codecs {
		vAssert(c.Type == offer.DTMFType || c.Codec.Info().Priority <= best, "the codec is the best that both sides have")
	}
	both := encA != sdp.EncryptionNone && encB != sdp.EncryptionNone
	vAssert((a.Crypto != nil) == both && (b.Crypto != nil) == both, "both sides encrypt, or none")
	if !both {
		return
	}
	vAssert(a.Crypto.Profile == b.Crypto.Profile, "both sides use the same profile")
	vAssert(a.Crypto.Profile != srtp.Config{}.Profile, "both sides use a profile")
	x, y := &a.Crypto.Keys, &b.Crypto.Keys
	vAssert(sameBytes(x.LocalMasterKey, y.RemoteMasterKey) && sameBytes(x.LocalMasterSalt, y.RemoteMasterSalt), "each side reads with the key the other one writes with")
	vAssert(sameBytes(y.LocalMasterKey, x.RemoteMasterKey) && sameBytes(y.LocalMasterSalt, x.RemoteMasterSalt), "each side reads with the key the other one writes with")
	vAssert(!sameBytes(x.LocalMasterKey, x.RemoteMasterKey), "the sides have different keys")
}

//verif:check C31=assert+panic unroll tables track join
func Plain() { negotiate(sdp.EncryptionNone, sdp.EncryptionAllow) }

//verif:check C31=assert+panic unroll tables track join
func PlainNone() { negotiate(sdp.EncryptionNone, sdp.EncryptionNone) }

//verif:check C31=assert+panic unroll tables track join
func PlainRequire() { negotiate(sdp.EncryptionNone, sdp.EncryptionRequire) }

//verif:check C31=assert+panic unroll tables track join
func Allow() { negotiate(sdp.EncryptionAllow, sdp.EncryptionAllow) }

//verif:check C31=assert+panic unroll tables track join
func AllowNone() { negotiate(sdp.EncryptionAllow, sdp.EncryptionNone) }

//verif:check C31=assert+panic unroll tables track join
func AllowRequire() { negotiate(sdp.EncryptionAllow, sdp.EncryptionRequire) }

//verif:check C31=assert+panic unroll tables track join
func Require() { negotiate(sdp.EncryptionRequire, sdp.EncryptionRequire) }

//verif:check C31=assert+panic unroll tables track join
func RequireNone() { negotiate(sdp.EncryptionRequire, sdp.EncryptionNone) }

//verif:check C31=assert+panic unroll tables track join
func RequireAllow() { negotiate(sdp.EncryptionRequire, sdp.EncryptionAllow) }
