prop='C17'
needs='A digit being played while the playback clock passes a full second, which needs more than a dozen digits.'
breaks='The playback clock restarts every second and caps the reported duration, so a digit that is sent after it restarted mid-tone reports a shrinking or too short duration.'
edits=[('dtmf/dtmf.go','''			dur := step + totalDur - remaining
			first := totalDur == remaining
''','''			dur := min(ts+step, step+totalDur-remaining)
			first := totalDur == remaining
'''),('dtmf/dtmf.go','''		remaining -= step
		ts += step
''','''		remaining -= step
		ts += step
		if ts >= time.Second {
			ts = 0
		}
''')]
pkg='dtmf'
timeout=60
demo='''package dtmf
import ("testing";"context";"github.com/livekit/media-sdk/rtp")
func TestDemo(t *testing.T) {
	var buf rtp.Buffer
	st := rtp.NewSeqWriter(&buf).NewStream(101, SampleRate)
	if err := Write(context.Background(), nil, st, 0, "123456789012345"); err != nil { t.Fatal(err) }
	last := uint16(0)
	for _, p := range buf {
		ev, err := Decode(p.Payload)
		if err != nil { t.Fatal(err) }
		if p.Marker { last = 0 }
		if ev.Dur < last || ev.Dur == 0 || (ev.Dur == last && !ev.End) { t.Fatal("duration does not grow", ev) }
		last = ev.Dur
		if ev.End && ev.Dur != 2080 { t.Fatal("end duration", ev.Dur) }
	}
}
'''
