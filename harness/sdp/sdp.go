package sdp

import (
	"encoding/base64"
	"fmt"
	"io"
	"net/netip"

	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
)

// ---- the environment

// Random bytes come from one stream, so that it is known which ones were used where.
var (
	randOff  int
	randFail bool
)

//verif:model crypto/rand.Read
func randRead(b []byte) (int, error) {
	if randFail {
		return 0, vErr("rand")
	}
	vFill(b, "rand", randOff)
	randOff += len(b)
	return len(b), nil
}

// randomAt is the position in the random stream of bytes that are all from it, -1 otherwise.
func randomAt(b []byte) int {
	off := vStreamAt(b, "rand")
	if off < 0 || !vIsStream(b, "rand", off) {
		return -1
	}
	return off
}

// disjoint: two parts of the random stream have nothing in common.
func disjoint(a, an, b, bn int) bool { return a >= 0 && b >= 0 && (a+an <= b || b+bn <= a) }

//verif:model io.ReadFull
func readFull(r io.Reader, b []byte) (int, error) { return randRead(b) }

//verif:model (github.com/pion/srtp/v3.ProtectionProfile).KeyLen
func keyLen(p psrtp.ProtectionProfile) (int, error) {
	switch p {
	case psrtp.ProtectionProfileAes128CmHmacSha1_80, psrtp.ProtectionProfileAes128CmHmacSha1_32:
		return 16, nil
	case psrtp.ProtectionProfileAes256CmHmacSha1_80, psrtp.ProtectionProfileAes256CmHmacSha1_32:
		return 32, nil
	}
	return 0, vErr("keylen")
}

//verif:model (github.com/pion/srtp/v3.ProtectionProfile).SaltLen
func saltLen(p psrtp.ProtectionProfile) (int, error) {
	switch p {
	case psrtp.ProtectionProfileAes128CmHmacSha1_80, psrtp.ProtectionProfileAes128CmHmacSha1_32, psrtp.ProtectionProfileAes256CmHmacSha1_80, psrtp.ProtectionProfileAes256CmHmacSha1_32:
		return 14, nil
	}
	return 0, vErr("saltlen")
}

// Keys as text: each text stands for the bytes it was made from.
var (
	encN   int
	encOf [8][]byte // the bytes
)

var encText = [8]string{"B0", "B1", "B2", "B3", "B4", "B5", "B6", "B7"}

//verif:model (*encoding/base64.Encoding).EncodeToString
func encodeToString(e *base64.Encoding, b []byte) string {
	n := encN
	encN++
	encOf[n] = append([]byte{}, b...)
	return encText[n]
}

// encodes: the text stands for the key followed by the salt, both of them random.
func encodes(n int, key, salt []byte) bool {
	b := encOf[n]
	if len(b) != len(key)+len(salt) {
		return false
	}
	k, s := randomAt(key), randomAt(salt)
	return k >= 0 && s >= 0 && randomAt(b[:len(key)]) == k && randomAt(b[len(key):]) == s
}

//verif:model (encoding/base64.Encoding).WithPadding
func withPadding(e base64.Encoding, r rune) *base64.Encoding { return base64.StdEncoding }

// Options of the library by the key identifier they are for.
var (
	mkiN int
	mkis [4][]byte
)

//verif:model github.com/pion/srtp/v3.MasterKeyIndicator
func masterKeyIndicator(mki []byte) psrtp.ContextOption {
	mkis[mkiN] = mki
	mkiN++
	return vNonNil[psrtp.ContextOption]()
}

//verif:model math/rand.Uint64
func randUint64() uint64 { return vAny[uint64]() }

//verif:model math/rand/v2.Uint64
func randUint64v2() uint64 { return vAny[uint64]() }

// The text of an address.
var localIP = netip.Addr{}

//verif:model (net/netip.Addr).String
func addrString(a netip.Addr) string { return "192.0.2.1" }

var addrPort uint16

//verif:model net/netip.AddrPortFrom
func addrPortFrom(a netip.Addr, port uint16) netip.AddrPort {
	addrPort = port
	return netip.AddrPort{}
}

type codec struct {
	name string
	info media.CodecInfo
}

func (c *codec) Info() media.CodecInfo                                             { return c.info }
func (c *codec) EncodeRTP(w *rtp.Stream) media.PCM16Writer                         { return nil }
func (c *codec) DecodeRTP(w media.Writer[media.PCM16Sample], typ byte) rtp.Handler { return nil }

// The companding tables play no role.
//
//verif:model github.com/livekit/media-sdk/g711.buildLinTable
func buildLin(table []int16, f func(byte) int) {}

//verif:model github.com/livekit/media-sdk/g711.buildLawTable
func buildLaw(table []byte, f func(byte) int, mask int) {}

// ---- keys

const (
	p80  = srtp.ProtectionProfile("AES_CM_128_HMAC_SHA1_80")
	p32  = srtp.ProtectionProfile("AES_CM_128_HMAC_SHA1_32")
	q80  = srtp.ProtectionProfile("AES_256_CM_HMAC_SHA1_80")
	q32  = srtp.ProtectionProfile("AES_256_CM_HMAC_SHA1_32")
	none = srtp.ProtectionProfile("F8_128_HMAC_SHA1_80")
)

func anyProfile() srtp.ProtectionProfile {
	switch vRange(0, 3) {
	case 0:
		return p80
	case 1:
		return q32
	case 2:
		return q80
	}
	return none
}

func number(p srtp.ProtectionProfile) psrtp.ProtectionProfile {
	switch p {
	case p80:
		return psrtp.ProtectionProfileAes128CmHmacSha1_80
	case p32:
		return psrtp.ProtectionProfileAes128CmHmacSha1_32
	case q80:
		return psrtp.ProtectionProfileAes256CmHmacSha1_80
	case q32:
		return psrtp.ProtectionProfileAes256CmHmacSha1_32
	}
	return 0
}

// Every locally generated key and salt is random and of the right length.
//
//verif:check C11=assert+panic unroll tables track
func LocalKeys() {
	randFail = vAny[bool]()
	ps, err := srtp.DefaultProfiles()
	if randFail {
		vAssert(err != nil && ps == nil, "without random numbers there are no keys")
		return
	}
	vAssert(err == nil && len(ps) > 0, "there are profiles")
	for i, p := range ps {
		k, err1 := keyLen(number(p.Profile))
		s, err2 := saltLen(number(p.Profile))
		vAssert(err1 == nil && err2 == nil, "profiles are supported by the library")
		vAssert(len(p.Key) == k && len(p.Salt) == s, "keys and salts have the length of the profile")
		ka, sa := randomAt(p.Key), randomAt(p.Salt)
		vAssert(disjoint(ka, k, sa, s), "keys and salts are random and different")
		for j := 0; j < i; j++ {
			q := ps[j]
			kb, sb := randomAt(q.Key), randomAt(q.Salt)
			vAssert(disjoint(ka, k, kb, len(q.Key)) && disjoint(ka, k, sb, len(q.Salt)) && disjoint(sa, s, kb, len(q.Key)) && disjoint(sa, s, sb, len(q.Salt)), "profiles share no key material")
			vAssert(ps[j].Index != p.Index && ps[j].Profile != p.Profile, "profiles are offered once, with different tags")
		}
	}
}

// ---- negotiation

// remoteProfiles is what the other side sent: up to two profiles, known or not, with or without key identifier.
func remoteProfiles() []srtp.Profile {
	var ps []srtp.Profile
	for i, n := 0, vRange(0, 2); i < n; i++ {
		p := srtp.Profile{Index: vAny[int](), Profile: anyProfile(), Key: make([]byte, 16), Salt: make([]byte, 14)}
		vFill(p.Key, "remote", 100*i)
		vFill(p.Salt, "remote", 100*i+50)
		if i == 0 && vAny[bool]() {
			p.MKI = make([]byte, vRange(1, 8))
			vFill(p.MKI, "remote", 90)
		}
		ps = append(ps, p)
	}
	return ps
}

func anyEncryption() sdp.Encryption {
	switch vRange(0, 2) {
	case 0:
		return sdp.EncryptionNone
	case 1:
		return sdp.EncryptionAllow
	}
	return sdp.EncryptionRequire
}

func cryptoAttrs(m *psdp.MediaDescription) (n int, last string) {
	for _, a := range m.Attributes {
		if a.Key == "crypto" {
			n++
			last = a.Value
		}
	}
	return n, last
}

func secure(m *psdp.MediaDescription) bool {
	vAssert(len(m.MediaName.Protos) == 2 && m.MediaName.Protos[0] == "RTP", "the protocol is RTP")
	p := m.MediaName.Protos[1]
	vAssert(p == "AVP" || p == "SAVP", "the profile is one of AVP and SAVP")
	return p == "SAVP"
}

// checkConfig checks the keys of a configuration: the remote ones are those of one profile the remote side sent,
// the local ones were made for the same profile.
func checkConfig(c *srtp.Config, remote []srtp.Profile) (idx int) {
	found := -1
	for i, p := range remote {
		if len(c.Keys.RemoteMasterKey) == len(p.Key) && vIsStream(c.Keys.RemoteMasterKey, "remote", 100*i) && number(p.Profile) == c.Profile {
			found = i
		}
	}
	vAssert(found >= 0, "the remote key is one the remote side sent for the profile")
	if found < 0 {
		return -1
	}
	r := remote[found]
	vAssert(len(c.Keys.RemoteMasterSalt) == len(r.Salt) && vIsStream(c.Keys.RemoteMasterSalt, "remote", 100*found+50), "the remote salt belongs to the remote key")
	k, _ := keyLen(c.Profile)
	sl, _ := saltLen(c.Profile)
	vAssert(len(c.Keys.LocalMasterKey) == k && len(c.Keys.LocalMasterSalt) == sl, "the local key and salt have the length of the profile")
	vAssert(disjoint(randomAt(c.Keys.LocalMasterKey), k, randomAt(c.Keys.LocalMasterSalt), sl), "the local key and salt were made here")
	vAssert(len(c.LocalOptions) == 0, "no key identifier was sent")
	if r.MKI != nil {
		vAssert(len(c.RemoteOptions) == 1 && mkiN == 1 && len(mkis[0]) == len(r.MKI) && vIsStream(mkis[0], "remote", 90), "the remote key identifier is the one the remote side sent")
	} else {
		vAssert(len(c.RemoteOptions) == 0, "the remote side sent no key identifier")
	}
	return found
}

// Answering an offer.
//
//verif:check C10=assert+panic C11=assert+panic C01=panic unroll tables track
func AnswerCrypto() {
	enc := anyEncryption()
	offer := &sdp.Offer{}
	offer.CryptoProfiles = remoteProfiles()
	offer.Codecs = []sdp.CodecInfo{{Type: vAny[byte](), Codec: &codec{name: "a"}}}
	offer.DTMFType = vAny[byte]()
	randFail = vAny[bool]()
	ans, conf, err := offer.Answer(localIP, vRange(1, 65535), enc)
	if err != nil {
		vAssert(ans == nil && conf == nil, "a failed negotiation returns nothing")
		return
	}
	vAssert(ans != nil && conf != nil, "a negotiation returns a configuration")
	vAssert(len(ans.SDP.MediaDescriptions) == 1, "there is one media description")
	m := ans.SDP.MediaDescriptions[0]
	n, attr := cryptoAttrs(m)
	if conf.Crypto == nil {
		vAssert(enc != sdp.EncryptionRequire, "required encryption is not dropped")
		vAssert(!secure(m) && n == 0, "without keys the answer announces no encryption")
		return
	}
	vAssert(enc != sdp.EncryptionNone, "disabled encryption is not configured")
	vAssert(secure(m) && n == 1, "with keys the answer announces encryption")
	i := checkConfig(conf.Crypto, offer.CryptoProfiles)
	if i < 0 {
		return
	}
	r := offer.CryptoProfiles[i]
	vAssert(encN == 1 && encodes(0, conf.Crypto.Keys.LocalMasterKey, conf.Crypto.Keys.LocalMasterSalt), "the answer has the local key and salt")
	vAssert(attr == fmt.Sprintf("%d %s inline:%s", r.Index, r.Profile, encText[0]), "the answer has the tag and profile of the accepted offer")
}

// Applying an answer to an offer.
//
//verif:check C10=assert+panic C11=assert+panic C01=panic unroll tables track
func ApplyCrypto() {
	enc := anyEncryption()
	offer, err := sdp.NewOffer(localIP, vRange(1, 65535), anyEncryption())
	if err != nil {
		vAssert(offer == nil, "a failed offer is no offer")
		return
	}
	ans := &sdp.Answer{}
	ans.CryptoProfiles = remoteProfiles()
	ans.Codecs = []sdp.CodecInfo{{Type: vAny[byte](), Codec: &codec{name: "a"}}}
	ans.DTMFType = vAny[byte]()
	conf, err := ans.Apply(offer, enc)
	if err != nil {
		vAssert(conf == nil, "a failed negotiation returns nothing")
		return
	}
	vAssert(conf != nil, "a negotiation returns a configuration")
	if conf.Crypto == nil {
		vAssert(enc != sdp.EncryptionRequire, "required encryption is not dropped")
		return
	}
	vAssert(enc != sdp.EncryptionNone, "disabled encryption is not configured")
	checkConfig(conf.Crypto, ans.CryptoProfiles)
	sent := false
	for i := 0; i < encN; i++ {
		if encodes(i, conf.Crypto.Keys.LocalMasterKey, conf.Crypto.Keys.LocalMasterSalt) {
			sent = true
		}
	}
	vAssert(sent, "the local key is one that was offered")
}

// Making an offer.
//
//verif:check C10=assert+panic C11=assert unroll tables track
func OfferCrypto() {
	enc := anyEncryption()
	randFail = vAny[bool]()
	offer, err := sdp.NewOffer(localIP, vRange(1, 65535), enc)
	if err != nil {
		vAssert(offer == nil, "a failed offer is no offer")
		return
	}
	m := offer.SDP.MediaDescriptions[0]
	n, _ := cryptoAttrs(m)
	if enc == sdp.EncryptionNone {
		vAssert(!secure(m) && n == 0 && len(offer.CryptoProfiles) == 0, "without encryption no keys are offered")
		return
	}
	vAssert(secure(m) && n == len(offer.CryptoProfiles) && n > 0, "with encryption every profile is offered with its key")
	j := 0
	for _, a := range m.Attributes {
		if a.Key != "crypto" {
			continue
		}
		p := offer.CryptoProfiles[j]
		vAssert(a.Value == fmt.Sprintf("%d %s inline:%s", p.Index, p.Profile, encText[j]), "each profile is offered with its tag and key")
		vAssert(encodes(j, p.Key, p.Salt), "the key and salt offered are those of the profile")
		j++
	}
}
