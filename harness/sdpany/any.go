// Package sdpany reads session descriptions that can hold anything.
package sdpany

import (
	"encoding/base64"
	"net/netip"

	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"

	"github.com/livekit/media-sdk/sdp"
)

// Any bytes, or none, for a text.
//
//verif:model (*encoding/base64.Encoding).DecodeString
func decodeString(e *base64.Encoding, s string) ([]byte, error) {
	if vAny[bool]() {
		return nil, vErr("base64")
	}
	return vAny[[]byte](), nil
}

//verif:model (github.com/pion/srtp/v3.ProtectionProfile).KeyLen
func keyLen(p psrtp.ProtectionProfile) (int, error) {
	if vAny[bool]() {
		return 0, vErr("keylen")
	}
	return vRange(0, 64), nil
}

// The parser of pion: anything, but without nil media descriptions.
//
//verif:model (*github.com/pion/sdp/v3.SessionDescription).Unmarshal
func unmarshal(s *psdp.SessionDescription, b []byte) error {
	if vAny[bool]() {
		return vErr("unmarshal")
	}
	*s = vAny[psdp.SessionDescription]()
	// what ParseMedia does with any attributes is in ParseAnything
	s.MediaDescriptions = nil
	switch vRange(0, 2) {
	case 1:
		s.MediaDescriptions = []*psdp.MediaDescription{anyMedia()}
	case 2:
		s.MediaDescriptions = []*psdp.MediaDescription{anyMedia(), anyMedia()}
	}
	return nil
}

func anyMedia() *psdp.MediaDescription {
	m := vNonNil[*psdp.MediaDescription]()
	m.MediaName.Formats = nil
	switch vRange(0, 2) {
	case 0:
		m.Attributes = nil
	case 1:
		m.Attributes = []psdp.Attribute{{Key: "rtpmap", Value: vAny[string]()}}
	default:
		m.Attributes = []psdp.Attribute{{Key: "crypto", Value: vAny[string]()}}
	}
	return m
}

//verif:model net/netip.ParseAddr
func parseAddr(s string) (netip.Addr, error) {
	if vAny[bool]() {
		return netip.Addr{}, vErr("addr")
	}
	return vAny[netip.Addr](), nil
}

// Whatever the other side sends as a media description.
//
//verif:check C01=assert+panic join
func ParseAnything() {
	d, err := sdp.ParseMedia(vNonNil[*psdp.MediaDescription]())
	vAssert((d == nil) == (err != nil), "a description or an error")
}

//verif:check C01=panic unroll
func ParseDest() {
	s := vNonNil[*psdp.SessionDescription]()
	vAssume(s.MediaDescriptions == nil)
	n := vRange(0, 2)
	for i := 0; i < n; i++ {
		s.MediaDescriptions = append(s.MediaDescriptions, vNonNil[*psdp.MediaDescription]())
	}
	m := sdp.GetAudio(s)
	if vAny[bool]() {
		s = nil
	}
	sdp.GetAudioDest(s, m)
}

//verif:check C01=assert+panic unroll
func ParseText() {
	if vAny[bool]() {
		d, err := sdp.ParseOffer(vAny[[]byte]())
		vAssert((d == nil) == (err != nil), "an offer or an error")
	} else {
		d, err := sdp.ParseAnswer(vAny[[]byte]())
		vAssert((d == nil) == (err != nil), "an answer or an error")
	}
}
