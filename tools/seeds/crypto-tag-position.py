prop='C11'
needs='An offer whose crypto tags do not count up from one, for example because a suite was left out.'
breaks='The answer carries the position of the accepted suite in the offer instead of its tag.'
edits=[('sdp/offer.go','''				prof.Index = off.Index''','''				prof.Index = i + 1''')]
pkg='sdp'
demo='''package sdp
import (
	"testing"
	"github.com/livekit/media-sdk/srtp"
)
func TestDemo(t *testing.T) {
	a := []srtp.Profile{{Index: 3, Profile: "AES_CM_128_HMAC_SHA1_80", Key: make([]byte, 16), Salt: make([]byte, 14)}}
	b := []srtp.Profile{{Index: 1, Profile: "AES_CM_128_HMAC_SHA1_80", Key: make([]byte, 16), Salt: make([]byte, 14)}}
	_, p, err := SelectCrypto(a, b, true)
	if err != nil { t.Fatal(err) }
	if p.Index != 3 { t.Fatal(p.Index) }
}
'''
