package codecs

import (
	"strings"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
)

type fake struct {
	info media.CodecInfo
}

func (f *fake) Info() media.CodecInfo { return f.info }

// Two changes by names in any case: the last one that means the codec counts.
//
//verif:check C18=assert+panic track
func Toggle() {
	a, b, c := vAny[string](), vAny[string](), vAny[string]()
	x, y := vAny[bool](), vAny[bool]()
	la, lb := strings.ToLower(a), strings.ToLower(b)
	media.CodecSetEnabled(a, x)
	media.CodecSetEnabled(b, y)
	want := x
	if la == lb {
		want = y
	}
	f := &fake{}
	f.info.SDPName = c
	if vAny[bool]() {
		vAssume(strings.ToLower(c) == la)
	} else {
		vAssume(strings.ToLower(c) != la && strings.ToLower(c) != lb)
		want = true
	}
	vAssert(media.CodecEnabledByName(c) == want, "the last change counts, whatever the case of the name")
	vAssert(media.CodecEnabled(f) == want, "the last change counts for the codec")
}

func inList(list []media.Codec, c media.Codec) int {
	n := 0
	for _, d := range list {
		if d == c {
			n++
		}
	}
	return n
}

// The registry after a change: a disabled codec is neither listed nor found, an enabled one is both.
//
//verif:check C18=assert+panic tables unroll
func Registry() {
	f := &fake{media.CodecInfo{SDPName: "Fake/8000", SampleRate: 8000, RTPClockRate: 8000, Disabled: vAny[bool]()}}
	media.RegisterCodec(f)
	on := !f.info.Disabled
	var name string
	switch vRange(0, 3) {
	case 0:
		name = "fake/8000"
	case 1:
		name = "FAKE/8000"
	case 2:
		name = "other/8000"
	default:
		name = "Fake/8000"
	}
	x := vAny[bool]()
	if vAny[bool]() {
		media.CodecSetEnabled(name, x)
	} else {
		media.CodecsSetEnabled(map[string]bool{name: x})
	}
	if name != "other/8000" {
		on = x
	}
	listed := 0
	if on {
		listed = 1
	}
	vAssert(media.CodecEnabled(f) == on, "a codec is enabled or disabled as asked")
	vAssert(media.CodecEnabledByName("fAKE/8000") == on, "names ignore case")
	vAssert(inList(media.Codecs(), f) == 1, "the list of all codecs has every codec once")
	vAssert(inList(media.EnabledCodecs(), f) == listed, "the list of enabled codecs has the enabled codecs only")
	vAssert((sdp.CodecByName("fake/8000") == f) == on, "a codec is found by name if it is enabled")
	vAssert((sdp.CodecByName("FaKe/8000/1") == f) == on, "a codec is found by name with one channel if it is enabled")
	if !on {
		vAssert(sdp.CodecByName("fake/8000") == nil && sdp.CodecByName("FaKe/8000/1") == nil, "a disabled codec is not found")
	}
	vAssert(sdp.CodecByName("none/8000") == nil, "an unknown codec is not found")
	vAssert(!media.CodecEnabled(nil), "no codec is not enabled")
	// the others
	vAssert(inList(media.EnabledCodecs(), rtp.CodecByPayloadType(0)) == 1, "other codecs are not affected")
	vAssert(sdp.CodecByName("PCMU/8000") == rtp.CodecByPayloadType(0), "other codecs are found")
}

type listener struct {
	got []media.Codec
}

func (l *listener) add(c media.Codec) { l.got = append(l.got, c) }

// Every listener is told about every codec once, whichever comes first.
//
//verif:check C18=assert+panic tables unroll
func Listeners() {
	f := &fake{media.CodecInfo{SDPName: "f/8000", SampleRate: 8000, Disabled: vAny[bool]()}}
	g := &fake{media.CodecInfo{SDPName: "g/8000", SampleRate: 8000, Disabled: vAny[bool]()}}
	l, m := &listener{}, &listener{}
	n := len(media.Codecs())
	media.OnRegister(l.add)
	vAssert(len(l.got) == n, "a listener is told about the codecs there are")
	media.RegisterCodec(f)
	media.OnRegister(m.add)
	media.RegisterCodec(g)
	vAssert(len(l.got) == n+2 && len(m.got) == n+2, "every codec is announced once")
	for _, x := range []*listener{l, m} {
		for _, c := range media.Codecs() {
			vAssert(inList(x.got, c) == 1, "every codec is announced once")
		}
	}
	vAssert(media.CodecEnabled(f) == !f.info.Disabled, "a codec registered as disabled is disabled")
}

// The lists belong to the caller.
//
//verif:check C18=assert+panic tables unroll
func OwnLists() {
	a := media.Codecs()
	n := len(a)
	c := a[0]
	a[0] = nil
	b := media.EnabledCodecs()
	vAssert(len(b) == n && b[0] == c, "changing a list does not change the registry")
	b[0] = nil
	vAssert(media.Codecs()[0] == c && media.EnabledCodecs()[0] == c, "changing a list does not change the registry")
}
