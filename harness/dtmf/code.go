package dtmf

import (
	"io"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/tones"
)

// The standard table: digit, event code, low and high frequency of the keypad.
type key struct {
	digit, code byte
	lo, hi      tones.Hz
}

func standard(i int) key {
	switch i {
	case 0:
		return key{'0', 0, 941, 1336}
	case 1:
		return key{'1', 1, 697, 1209}
	case 2:
		return key{'2', 2, 697, 1336}
	case 3:
		return key{'3', 3, 697, 1477}
	case 4:
		return key{'4', 4, 770, 1209}
	case 5:
		return key{'5', 5, 770, 1336}
	case 6:
		return key{'6', 6, 770, 1477}
	case 7:
		return key{'7', 7, 852, 1209}
	case 8:
		return key{'8', 8, 852, 1336}
	case 9:
		return key{'9', 9, 852, 1477}
	case 10:
		return key{'*', 10, 941, 1209}
	case 11:
		return key{'#', 11, 941, 1477}
	case 12:
		return key{'a', 12, 697, 1633}
	case 13:
		return key{'b', 13, 770, 1633}
	case 14:
		return key{'c', 14, 852, 1633}
	}
	return key{'d', 15, 941, 1633}
}

// Every digit with every flag, volume and duration.
//
//verif:check C16=assert C03=panic track
func DigitRoundTrip() {
	{
		k := standard(vAny[int]())
		code, freq := dtmf.Tone(k.digit)
		vAssert(code == k.code, "the event code of a digit is the standard's")
		vAssert(len(freq) == 2, "a digit has a pair of frequencies")
		vAssert(freq[0] == k.lo && freq[1] == k.hi, "the frequencies of a digit are the keypad's")
		ev := dtmf.Event{Digit: k.digit, Code: vAny[byte](), Volume: vAny[byte](), Dur: vAny[uint16](), End: vAny[bool]()}
		vAssume(ev.Volume < 64)
		buf := make([]byte, 4)
		n, err := dtmf.Encode(buf, ev)
		vAssert(err == nil && n == 4, "an event takes four bytes")
		checkBytes(buf, k.code, ev)
		got, err := dtmf.Decode(buf)
		vAssert(err == nil, "an encoded event can be decoded")
		vAssert(got.Code == k.code && got.Digit == k.digit, "decoding restores the digit")
		vAssert(got.Volume == ev.Volume && got.Dur == ev.Dur && got.End == ev.End, "decoding restores volume, duration and flag")
	}
}

// Events given by code instead of by digit, whatever the code.
//
//verif:check C16=assert C03=panic track
func CodeRoundTrip() {
	ev := dtmf.Event{Code: vAny[byte](), Volume: vAny[byte](), Dur: vAny[uint16](), End: vAny[bool]()}
	vol := ev.Volume
	buf := make([]byte, vRange(0, 1<<40))
	n, err := dtmf.Encode(buf, ev)
	if len(buf) < 4 {
		vAssert(n == 0 && err == io.ErrShortBuffer, "a short buffer is refused")
		return
	}
	vAssert(err == nil && n == 4, "an event takes four bytes")
	vAssert(buf[0] == ev.Code, "the first byte is the code")
	vAssert(buf[1]&0x40 == 0, "the reserved bit is never set")
	got, err := dtmf.Decode(buf)
	vAssert(err == nil, "an encoded event can be decoded")
	vAssert(got.Code == ev.Code && got.Dur == ev.Dur && got.End == ev.End, "decoding restores code, duration and flag")
	vAssert(vol >= 64 || got.Volume == vol, "decoding restores the volume")
	if ev.Code > 15 {
		vAssert(got.Digit == 0, "a code without a digit has none")
	}
}

func checkBytes(buf []byte, code byte, ev dtmf.Event) {
	vAssert(buf[0] == code, "the first byte is the code")
	if ev.End {
		vAssert(buf[1] == 0x80+ev.Volume, "the second byte has flag and volume only")
	} else {
		vAssert(buf[1] == ev.Volume, "the second byte has flag and volume only")
	}
	vAssert(int(buf[2])*256+int(buf[3]) == int(ev.Dur), "the last two bytes are the duration")
}

// Bytes that are not digits have no tone.
//
//verif:check C16=assert C03=panic tables
func UnknownDigits() {
	d := vAny[byte]()
	known := false
	for i := 0; i < 16; i++ {
		if standard(i).digit == d {
			known = true
		}
	}
	_, freq := dtmf.Tone(d)
	if !known {
		vAssert(len(freq) == 0, "an unknown digit produces no tone")
	} else {
		vAssert(len(freq) == 2, "a digit has a pair of frequencies")
	}
}

// Any received payload and header.
//
//verif:check C02=panic+assert C16=assert
func ReceiveEvent() {
	b := vStream[[]byte]("p", 0, vRange(0, 1<<40))
	ev, err := dtmf.Decode(b)
	vAssert((err != nil) == (len(b) < 4), "a payload of four bytes or more is an event")
	if err == nil {
		vAssert(int(ev.Volume) == int(b[1])%64, "the volume is the low six bits of the second byte")
		vAssert(ev.End == (b[1] >= 128), "the flag is the high bit of the second byte")
		vAssert(int(ev.Dur) == int(b[2])*256+int(b[3]), "the duration is in the last two bytes")
		vAssert(ev.Code == b[0], "the code is the first byte")
	}
	h := &prtp.Header{Marker: vAny[bool]()}
	ev2, ok := dtmf.DecodeRTP(h, b)
	vAssert(ok == (h.Marker && len(b) >= 4), "only marked packets with a payload start an event")
	if ok {
		vAssert(ev2.Code == ev.Code && ev2.Digit == ev.Digit && ev2.Dur == ev.Dur && ev2.End == ev.End, "a marked packet is decoded like its payload")
	}
}
