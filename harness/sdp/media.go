package sdp

import (
	"encoding/base64"
	"fmt"
	"net/netip"
	"strconv"

	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
)

// Any bytes, or none, for a text.
var (
	keyBytes []byte
	keyBad   bool
)

//verif:model (*encoding/base64.Encoding).DecodeString
func decodeString(e *base64.Encoding, s string) ([]byte, error) {
	vAssert(s == "S2V5", "the key text is decoded")
	if keyBad {
		return nil, vErr("base64")
	}
	return keyBytes, nil
}

// A key of the other side: "tag profile inline:key|lifetime|identifier:length".
//
//verif:check C11=assert+panic C01=panic unroll tables track
func ParseKey() {
	idx := vAny[int]()
	prof := anyProfile()
	n := vRange(0, 64)
	keyBytes = vStream[[]byte]("key", 0, n)
	keyBad = vAny[bool]()
	v := strconv.Itoa(idx) + " " + string(prof) + " inline:S2V5"
	mkiLen, mkiVal := 0, 0
	switch vRange(0, 4) {
	case 0:
	case 1:
		v += "|2^20"
	case 2:
		v += "|2^20|1:4"
		mkiLen, mkiVal = 4, 1
	case 3:
		v += "||258:2"
		mkiLen, mkiVal = 2, 258
	default:
		v += "|1000|5:1"
		mkiLen, mkiVal = 1, 5
	}
	m := &psdp.MediaDescription{Attributes: []psdp.Attribute{{Key: "crypto", Value: v}}}
	d, err := sdp.ParseMedia(m)
	if keyBad {
		vAssert(err != nil && d == nil, "a bad key is an error")
		return
	}
	k, kerr := keyLen(number(prof))
	if kerr == nil && n < k {
		vAssert(err != nil && d == nil, "a short key is an error")
		return
	}
	vAssert(err == nil && len(d.CryptoProfiles) == 1, "a key is parsed")
	p := d.CryptoProfiles[0]
	vAssert(p.Index == idx && p.Profile == prof, "the tag and profile are those of the text")
	if kerr == nil {
		vAssert(len(p.Key) == k && vIsStream(p.Key, "key", 0), "the key comes first")
		vAssert(len(p.Salt) == n-k && vIsStream(p.Salt, "key", k), "the salt follows")
	}
	vAssert(len(p.MKI) == mkiLen, "the key identifier has the length given")
	if mkiLen > 0 {
		vAssert(p.MKI[mkiLen-1] == byte(mkiVal%256), "the key identifier is the value given")
	}
	if mkiLen > 1 {
		vAssert(p.MKI[mkiLen-2] == byte(mkiVal/256), "the key identifier is the value given")
	}
}

// Codecs in a description: those that are known and enabled, with the types given there.
//
//verif:check C26=assert C18=assert C01=panic unroll tables track
func ParseCodecs() {
	pcmu, g722 := rtp.CodecByPayloadType(0), rtp.CodecByPayloadType(9)
	vAssert(pcmu != nil && g722 != nil, "the codecs are registered")
	on := true
	if vAny[bool]() {
		on = vAny[bool]()
		media.CodecSetEnabled("pcmu/8000", on)
	}
	var pcmuOn media.Codec
	if on {
		pcmuOn = pcmu
	}
	m := &psdp.MediaDescription{}
	var want []sdp.CodecInfo
	dtmfType := byte(0)
	for i := 0; i < 2; i++ {
		t := vAny[byte]()
		a := psdp.Attribute{Key: "rtpmap"}
		switch vRange(0, 7) {
		case 0:
			a.Value = strconv.Itoa(int(t)) + " PCMU/8000"
			want = append(want, sdp.CodecInfo{Type: t, Codec: pcmuOn})
		case 1:
			a.Value = strconv.Itoa(int(t)) + " g722/8000/1"
			want = append(want, sdp.CodecInfo{Type: t, Codec: g722})
		case 2:
			a.Value = strconv.Itoa(int(t)) + " telephone-event/8000"
			dtmfType = t
		case 3:
			a.Value = strconv.Itoa(int(t)) + " telephone-event/8000/1"
			dtmfType = t
		case 4:
			a.Value = strconv.Itoa(int(t)) + " unknown/8000"
			want = append(want, sdp.CodecInfo{Type: t})
		case 5:
			a.Value = strconv.Itoa(int(t)+256) + " PCMU/8000"
		case 6:
			a.Value = strconv.Itoa(int(t))
		default:
			a.Key = "fmtp"
			a.Value = strconv.Itoa(int(t)) + " PCMU/8000"
		}
		m.Attributes = append(m.Attributes, a)
	}
	switch vRange(0, 3) {
	case 0:
		m.MediaName.Formats = []string{"0"}
		want = append(want, sdp.CodecInfo{Type: 0, Codec: pcmuOn})
	case 1:
		m.MediaName.Formats = []string{"9", "96"}
		want = append(want, sdp.CodecInfo{Type: 9, Codec: g722}, sdp.CodecInfo{Type: 96})
	case 2:
		m.MediaName.Formats = []string{"x", "256", "9"}
		want = append(want, sdp.CodecInfo{Type: 9, Codec: g722})
	}
	d, err := sdp.ParseMedia(m)
	vAssert(err == nil, "a description without keys is parsed")
	// codecs that cannot be used may be left out
	i := 0
	for _, w := range want {
		if w.Codec == nil {
			if i < len(d.Codecs) && d.Codecs[i].Codec == nil {
				i++
			}
			continue
		}
		vAssert(i < len(d.Codecs), "every known codec is listed")
		if i >= len(d.Codecs) {
			return
		}
		vAssert(d.Codecs[i].Codec == w.Codec && d.Codecs[i].Type == w.Type, "codecs are listed in order, with their types")
		i++
	}
	vAssert(i == len(d.Codecs), "no other codec is listed")
	vAssert(d.DTMFType == dtmfType, "the type of telephone events is the one given")
}

// The codec chosen: by priority in an offer, the first one in an answer.
//
//verif:check C26=assert C18=assert C01=panic unroll tables track
func Select() {
	var d sdp.MediaDesc
	d.DTMFType = vAny[byte]()
	for i := 0; i < 3; i++ {
		c := sdp.CodecInfo{Type: vAny[byte]()}
		switch vRange(0, 2) {
		case 0:
		case 1:
			c.Codec = media.NewCodec(media.CodecInfo{SDPName: "other", SampleRate: 8000, Priority: 100})
		default:
			f := &codec{name: "a"}
			f.info.Priority = vAny[int]()
			c.Codec = f
		}
		d.Codecs = append(d.Codecs, c)
	}
	answer := vAny[bool]()
	best := -1
	for i, c := range d.Codecs {
		f, ok := c.Codec.(*codec)
		if !ok {
			continue
		}
		if best < 0 || !answer && f.info.Priority > d.Codecs[best].Codec.Info().Priority {
			best = i
		}
	}
	a, err := sdp.SelectAudio(d, answer)
	if best < 0 {
		vAssert(err == sdp.ErrNoCommonMedia && a == nil, "without a usable codec there is no call")
		return
	}
	vAssert(err == nil, "a usable codec is selected")
	vAssert(a.Codec == d.Codecs[best].Codec && a.Type == d.Codecs[best].Type, "the codec is selected by priority, with its type")
	vAssert(a.DTMFType == d.DTMFType, "the type of telephone events is the one given")
}

// The text of an answer agrees with the configuration.
//
//verif:check C26=assert C01=panic unroll tables track
func AnswerText() {
	offer := &sdp.Offer{}
	offer.Addr = vAny[netip.AddrPort]()
	typ := vAny[byte]()
	c := &codec{name: "a"}
	c.info.SDPName = "Abc/8000"
	offer.Codecs = []sdp.CodecInfo{{Type: typ, Codec: c}}
	offer.DTMFType = vAny[byte]()
	port := vRange(1, 65535)
	ans, conf, err := offer.Answer(localIP, port, sdp.EncryptionNone)
	vAssert(err == nil, "an offer with a codec is answered")
	vAssert(conf.Remote == offer.Addr, "the remote address is the offer's")
	vAssert(conf.Local == ans.Addr && int(addrPort) == port, "the local address is the one given")
	vAssert(conf.Audio.Codec == rtp.AudioCodec(c) && conf.Audio.Type == typ && conf.Audio.DTMFType == offer.DTMFType, "the configuration has the codec of the offer")
	vAssert(len(ans.Codecs) == 1 && ans.Codecs[0].Codec == media.Codec(c) && ans.Codecs[0].Type == typ && ans.DTMFType == offer.DTMFType, "the answer has the codec of the configuration")
	checkMedia(ans.SDP, port, []string{fmt.Sprintf("%d Abc/8000", typ)}, []byte{typ}, offer.DTMFType)
}

// checkMedia checks that a description lists the given types, and telephone events if there are any.
func checkMedia(s psdp.SessionDescription, port int, maps []string, types []byte, dtmfType byte) {
	vAssert(s.Origin.UnicastAddress == "192.0.2.1" && s.ConnectionInformation.Address.Address == "192.0.2.1", "the address is the one given")
	vAssert(len(s.MediaDescriptions) == 1, "there is one media description")
	m := s.MediaDescriptions[0]
	vAssert(m.MediaName.Media == "audio" && m.MediaName.Port.Value == port && m.MediaName.Port.Range == nil, "the port is the one given")
	if dtmfType != 0 {
		maps = append(maps, fmt.Sprintf("%d telephone-event/8000", dtmfType))
		types = append(types, dtmfType)
	}
	vAssert(len(m.MediaName.Formats) == len(types), "the types are those of the codecs")
	for i, t := range types {
		vAssert(m.MediaName.Formats[i] == strconv.Itoa(int(t)), "the types are those of the codecs")
	}
	i := 0
	fmtp := 0
	for _, a := range m.Attributes {
		switch a.Key {
		case "rtpmap":
			vAssert(i < len(maps) && a.Value == maps[i], "the names are those of the codecs")
			i++
		case "fmtp":
			fmtp++
			vAssert(dtmfType != 0 && a.Value == fmt.Sprintf("%d 0-16", dtmfType), "the telephone events have a format")
		}
	}
	vAssert(i == len(maps), "every codec has a name")
	vAssert((fmtp == 1) == (dtmfType != 0), "the telephone events have a format")
}

// The configuration that comes from an answer.
//
//verif:check C26=assert C01=panic unroll tables track
func ApplyText() {
	offer := &sdp.Offer{}
	offer.Addr = vSym[netip.AddrPort]("local")
	ans := &sdp.Answer{}
	ans.Addr = vSym[netip.AddrPort]("remote")
	typ := vAny[byte]()
	c := &codec{name: "a"}
	ans.Codecs = []sdp.CodecInfo{{Type: vAny[byte]()}, {Type: typ, Codec: c}, {Type: vAny[byte](), Codec: &codec{name: "b"}}}
	ans.DTMFType = vAny[byte]()
	conf, err := ans.Apply(offer, sdp.EncryptionNone)
	vAssert(err == nil, "an answer with a codec is applied")
	vAssert(conf.Local == offer.Addr && conf.Remote == ans.Addr, "the addresses are those of both sides")
	vAssert(conf.Audio.Codec == rtp.AudioCodec(c) && conf.Audio.Type == typ && conf.Audio.DTMFType == ans.DTMFType, "the codec is the first one of the answer")
}

// An offer lists every enabled codec once, with different types.
//
//verif:check C26=assert C18=assert unroll tables track
func OfferText() {
	a := &codec{name: "a"}
	a.info.SDPName, a.info.Priority = "A/8000", vRange(-200, 200)
	b := &codec{name: "b"}
	b.info.SDPName, b.info.Priority = "B/8000", vRange(-200, 200)
	b.info.Disabled = vAny[bool]()
	media.RegisterCodec(a)
	media.RegisterCodec(b)
	if vAny[bool]() {
		media.CodecSetEnabled("pcmU/8000", false)
	}
	port := vRange(1, 65535)
	offer, err := sdp.NewOffer(localIP, port, sdp.EncryptionNone)
	vAssert(err == nil, "an offer is made")
	vAssert(int(addrPort) == port, "the port is the one given")
	enabled := media.EnabledCodecs()
	vAssert(len(offer.Codecs) == len(enabled), "every enabled codec is offered once")
	var maps []string
	var types []byte
	dtmfType := byte(0)
	for _, e := range enabled {
		n := 0
		for _, c := range offer.Codecs {
			if c.Codec == e {
				n++
			}
		}
		vAssert(n == 1, "every enabled codec is offered once")
	}
	for i, c := range offer.Codecs {
		info := c.Codec.Info()
		if info.RTPIsStatic {
			vAssert(c.Type == info.RTPDefType, "static codecs have their own type")
		} else {
			vAssert(c.Type >= 96 && c.Type <= 127, "other codecs have a dynamic type")
		}
		for j := 0; j < i; j++ {
			vAssert(offer.Codecs[j].Type != c.Type, "the types are different")
		}
		if info.SDPName == "telephone-event/8000" {
			dtmfType = c.Type
		}
		maps = append(maps, strconv.Itoa(int(c.Type))+" "+info.SDPName)
		types = append(types, c.Type)
	}
	vAssert(offer.DTMFType == dtmfType && dtmfType != 0, "the type of telephone events is the one offered")
	m := offer.SDP.MediaDescriptions[0]
	vAssert(len(m.MediaName.Formats) == len(types) && m.MediaName.Port.Value == port, "the types are those of the codecs")
	i, fmtp := 0, 0
	for _, at := range m.Attributes {
		switch at.Key {
		case "rtpmap":
			vAssert(i < len(maps) && at.Value == maps[i] && m.MediaName.Formats[i] == strconv.Itoa(int(types[i])), "the names are those of the codecs")
			i++
		case "fmtp":
			fmtp++
			vAssert(at.Value == fmt.Sprintf("%d 0-16", dtmfType), "the telephone events have a format")
		}
	}
	vAssert(i == len(maps) && fmtp == 1, "every codec has a name")
	vAssert(offer.SDP.Origin.UnicastAddress == "192.0.2.1" && offer.SDP.ConnectionInformation.Address.Address == "192.0.2.1", "the address is the one given")
}
