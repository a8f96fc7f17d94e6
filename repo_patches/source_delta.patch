From ec196dae1fab6fd07645015a4d637bb582cfeab5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 01/22] fix: static codec table must cover payload type 255

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From 7f57bb69ef15ad9a5fae6de19baf77a67fbd87a0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 02/22] fix: reject SRTP keys shorter than the profile requires
 instead of panicking

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..2312f54 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(keys) < keyLen {
+			return nil, fmt.Errorf("crypto key is too short: expected at least %d bytes, got %d", keyLen, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 7778c24ce6d75825b2ed85b3cbae30c981c10a3e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 03/22] fix: do not panic on SDP connection line without an
 address

---
 sdp/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..fd1b0a5 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -45,7 +45,9 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 	}
 	var addr string
 	if ci != nil && ci.NetworkType == "IN" {
-		addr = ci.Address.Address
+		if ci.Address != nil { // address is optional for the parser
+			addr = ci.Address.Address
+		}
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
 	}
-- 
2.43.0


From 6c8b60453c3a10b65b0944d5ca81bb692ed3006c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 04/22] fix: ignore SDP payload types that do not fit into a
 byte instead of truncating them

---
 sdp/offer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 2312f54..1f0c357 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -522,7 +522,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := strconv.ParseUint(sub[0], 10, 8)
 			if err != nil {
 				continue
 			}
@@ -547,7 +547,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := strconv.ParseUint(f, 10, 8)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From f73aa1536b645cfd2768ea3bf8cb57795a1fbca7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 05/22] fix: accept 8 byte SRTP master key identifiers

---
 sdp/offer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 1f0c357..46442fd 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,9 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
+	// Shifting by 64 bits gives 0: any value is allowed for 8 bytes.
 	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if maxValue != 0 && value >= maxValue {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From 4e21bd852bf35d36c49d42f5a7933720c569e6d7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 06/22] fix: avoid int16 overflow when averaging stereo samples

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From 4f42e5ccc90d19a76b31850040d3a8cdec99c602 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 07/22] fix: soxr errors are static strings and must not be
 freed

---
 resample_soxr.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..ac34cc3 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -169,7 +169,6 @@ func soxrErr(e C.soxr_error_t) error {
 	if e == nil {
 		return nil
 	}
-	defer C.free(unsafe.Pointer(e))
 	estr := C.GoString(e)
 	switch estr {
 	case "", "0":
-- 
2.43.0


From 77558e59e1f6a5e0b2a5a6dd165eb8e1dd7408c8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 08/22] fix: resampler must consume all the input and flush all
 the output

---
 resample_soxr.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index ac34cc3..25e74f4 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -229,13 +229,14 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			1024,
 		)
 	}
-	// Make sure output has space for new samples. Length is still unchanged.
-	out = slices.Grow(out, dstN)
-	// Slice for the unused capacity, which we will write into.
-	dst := out[len(out) : len(out)+dstN]
 	total := 0
+	flush := len(in) == 0
 	// Always call at least once (for flush to work), thus not considering len(in) here.
-	for len(dst) > 0 {
+	for {
+		// Make sure output has space for new samples. Length is still unchanged.
+		out = slices.Grow(out, dstN)
+		// Slice for the unused capacity, which we will write into.
+		dst := out[len(out) : len(out)+dstN]
 		var read, done C.size_t
 		var e C.soxr_error_t
 		if len(in) != 0 {
@@ -250,13 +251,13 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			return out, 0, err
 		}
 		total += int(done)
-		dst = dst[done:]
+		// Adjust the length to cover written data.
+		out = out[:len(out)+int(done)]
 		in = in[read:]
-		if len(in) == 0 {
+		// All the input must be consumed. When flushing, continue while there's more data than we have space for.
+		if len(in) == 0 && (!flush || int(done) < len(dst)) {
 			break
 		}
 	}
-	// Finally adjust the length to cover written data.
-	out = out[:len(out)+total]
 	return out, total, nil
 }
-- 
2.43.0


From 853af42d760731bc5dccf059a55614dfde2fc6d5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 09/22] fix: resampler close must report flush errors and
 always close the destination

---
 resample_soxr.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 25e74f4..e60945d 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -100,13 +100,12 @@ func (w *resampleWriter) Close() error {
 	// Flush soxr buffer to our buffer.
 	var err error
 	w.buf, _, err = w.r.Resample(w.buf, nil)
-	if err != nil {
-		return err
-	}
 	// Close soxr resampler.
 	_ = w.r.Close()
 	// Flush our own PCM frame buffer to the underlying writer.
-	_ = w.flush(0)
+	if err2 := w.flush(0); err2 != nil {
+		err = err2
+	}
 	err2 := w.w.Close()
 	if err2 != nil {
 		err = err2
-- 
2.43.0


From fa02fc894eb8ad97aa1284a44fd692b9eebbaaee Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 10/22] fix: mixer goroutine must not block on output channel
 after stop

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..7313924 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch():
+			}
 		}
 	}
 }
-- 
2.43.0


From 2776591f6d213f3e09c222650ae9e8e59a6b4f00 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 11/22] fix: data race in Mixer.String

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 7313924..c566d63 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -346,7 +346,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	n := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", n, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
-- 
2.43.0


From 92130c60783b2ed1a015fb7e65e4975137ca4b65 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 12/22] fix: data race in Mux.String

---
 rtp/mux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 30cff5703f2fc23868d310925aaae35edcbe562f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 13/22] fix: jitter handler must copy packets it keeps

---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..defdf60 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -64,7 +65,8 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	// Packet may be kept in the buffer, and the caller may reuse the memory.
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0


From 779e1994b9a4e8d28ee2ee86294cbb79c79fceed Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 14/22] fix: RTP buffer must clone packet headers

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..ad2ab41 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -100,7 +100,7 @@ func (b *Buffer) String() string {
 
 func (b *Buffer) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 	*b = append(*b, &rtp.Packet{
-		Header:  *h,
+		Header:  h.Clone(),
 		Payload: slices.Clone(payload),
 	})
 	return len(payload), nil
-- 
2.43.0


From f34b94af094e81e21037a08a4b6f918a7f9a4da7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 15/22] fix: SRTP reader must not corrupt header extensions

---
 srtp/srtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..bb5ecd2 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -166,7 +166,7 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	*h = p.Header.Clone() // extensions point to buf, which is overwritten below
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From 5aa8bdc3a1af71da3a4277b01ce19fc2b5214c4d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 16/22] fix: RTP session must not write to buffers of a reader
 that has returned

---
 rtp/session.go | 76 +++++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..f14a221 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -161,28 +161,26 @@ type readStream struct {
 
 	closed  <-chan struct{}
 	recv    chan *rtp.Packet
-	copied  chan int
+	copied  chan int // size of the packet copied to hdr and payload of the direct reader
 	mu      sync.Mutex
+	direct  bool // there's a direct reader
 	hdr     *rtp.Header
 	payload []byte
 }
 
 func (r *readStream) write(p *rtp.Packet) {
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	// Header extensions point to the read buffer as well.
+	p.Header = p.Header.Clone()
+	// Must hold the lock while writing, so that the reader won't return the buffers to the caller at the same time.
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if enableZeroCopy && r.hdr != nil {
+		// zero copy
+		*r.hdr = p.Header
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n // never blocks, there's only one direct reader
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -192,16 +190,24 @@ func (r *readStream) write(p *rtp.Packet) {
 }
 
 func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
-	direct := false
-	if enableZeroCopy {
-		r.mu.Lock()
-		if r.hdr == nil {
-			r.hdr = h
-			r.payload = payload
-			direct = true
-		}
+	r.mu.Lock()
+	select {
+	case p := <-r.recv:
+		// Must return all the queued packets before allowing a direct read.
 		r.mu.Unlock()
+		*h = p.Header
+		n := copy(payload, p.Payload)
+		return n, nil
+	default:
+	}
+	direct := false
+	if enableZeroCopy && !r.direct {
+		r.direct = true
+		r.hdr = h
+		r.payload = payload
+		direct = true
 	}
+	r.mu.Unlock()
 	if !direct {
 		select {
 		case p := <-r.recv:
@@ -212,21 +218,21 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		}
 		return 0, io.EOF
 	}
-	defer func() {
-		r.mu.Lock()
-		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
-	}()
 	select {
 	case n := <-r.copied:
-		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
+		r.mu.Lock()
+		defer r.mu.Unlock()
+		r.direct = false
 		return n, nil
 	case <-r.closed:
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.direct = false
+	if r.hdr == nil {
+		// Packet was copied right before the stream was closed.
+		return <-r.copied, nil
+	}
+	r.hdr, r.payload = nil, nil
 	return 0, io.EOF
 }
-- 
2.43.0


From ad5f1f3c8bc6e7cc4c8209b3943a02dbeeb4b6b9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 17/22] fix: DTMF writer must not panic without an event stream

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From e6c39d402d04101e128ea8c1abe986c3fef5309d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 18/22] fix: do not panic when playing an empty list of tones

---
 tones/tones.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tones/tones.go b/tones/tones.go
index 06ce9ef..8a6358c 100644
--- a/tones/tones.go
+++ b/tones/tones.go
@@ -56,6 +56,9 @@ var (
 
 // Play specified audio tones in a loop until the context is cancelled.
 func Play(ctx context.Context, audio media.Writer[media.PCM16Sample], vol int16, tones []Tone) error {
+	if len(tones) == 0 {
+		return nil
+	}
 	const (
 		frameDur     = rtp.DefFrameDur
 		framesPerSec = int(time.Second / frameDur)
-- 
2.43.0


From 88281415d4ae7c29eedf2da7e0883a1756fb3228 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 19/22] fix: jitter buffer must drop duplicates of packets that
 are still buffered

---
 jitter/buffer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..b982abb 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,8 +201,8 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
-		// packet expired
+	if (b.initialized && before(pkt.SequenceNumber, b.prevSN)) || b.isBuffered(pkt.SequenceNumber) {
+		// packet expired or is a duplicate
 		if !pkt.Padding {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
@@ -280,6 +280,19 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// isBuffered checks if the packet with a given sequence number is already in the buffer
+func (b *Buffer) isBuffered(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+		if !before(sn, c.extPacket.SequenceNumber) && withinRange(sn, c.extPacket.SequenceNumber) {
+			return false
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From 49d7367969110a06b0204a93b37d28cd22b47286 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 20/22] fix: flushing the resampler must not emit more samples
 than the duration of the input

---
 resample_soxr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resample_soxr.go b/resample_soxr.go
index e60945d..033326a 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -162,6 +162,9 @@ type soxrResampler struct {
 	dstRate int
 	maxIn   int
 	done    *atomic.Bool
+
+	totalIn  int
+	totalOut int
 }
 
 func soxrErr(e C.soxr_error_t) error {
@@ -230,8 +233,16 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 	}
 	total := 0
 	flush := len(in) == 0
+	r.totalIn += len(in)
 	// Always call at least once (for flush to work), thus not considering len(in) here.
 	for {
+		if flush {
+			// Resampler may round the duration up. Do not emit more than we got.
+			dstN = min(dstN, (r.totalIn*r.dstRate)/r.srcRate-r.totalOut)
+			if dstN <= 0 {
+				break
+			}
+		}
 		// Make sure output has space for new samples. Length is still unchanged.
 		out = slices.Grow(out, dstN)
 		// Slice for the unused capacity, which we will write into.
@@ -250,6 +261,7 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			return out, 0, err
 		}
 		total += int(done)
+		r.totalOut += int(done)
 		// Adjust the length to cover written data.
 		out = out[:len(out)+int(done)]
 		in = in[read:]
-- 
2.43.0


From e69c812a9585b526b32974482cbb93b1aaae8d59 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 21/22] fix: webm: report errors of the underlying writer
 instead of crashing

The container library writes in the background and panics when a write fails, and it ignores
an error of closing the file. Remember the error and return it from WriteSample and Close.
---
 webm/writer.go | 58 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..5304213 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math/rand"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/at-wat/ebml-go/webm"
@@ -31,7 +32,8 @@ func NewPCM16Writer(w io.WriteCloser, sampleRate int, channels int, sampleDur ti
 }
 
 func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRate int, sampleDur time.Duration) media.WriteCloser[T] {
-	ws, err := webm.NewSimpleBlockWriter(w, []webm.TrackEntry{
+	out := &output{w: w}
+	ws, err := webm.NewSimpleBlockWriter(out, []webm.TrackEntry{
 		{
 			Name:            "Audio",
 			TrackNumber:     1,
@@ -48,11 +50,51 @@ func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRa
 	if err != nil {
 		panic(err)
 	}
-	return &writer[T]{codec: codec, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+	return &writer[T]{codec: codec, out: out, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+}
+
+// output remembers the first error of the underlying writer and drops the data that follows it.
+// The container is written in the background, where an error returned to the library would only cause a panic.
+type output struct {
+	w   io.WriteCloser
+	mu  sync.Mutex
+	err error
+}
+
+// Err returns the first error of the underlying writer.
+func (o *output) Err() error {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	return o.err
+}
+
+func (o *output) setErr(err error) {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	if o.err == nil {
+		o.err = err
+	}
+}
+
+func (o *output) Write(data []byte) (int, error) {
+	if o.Err() == nil {
+		if _, err := o.w.Write(data); err != nil {
+			o.setErr(err)
+		}
+	}
+	return len(data), nil
+}
+
+func (o *output) Close() error {
+	if err := o.w.Close(); err != nil {
+		o.setErr(err)
+	}
+	return nil
 }
 
 type writer[T media.Frame] struct {
 	codec      string
+	out        *output
 	ws         webm.BlockWriteCloser
 	channels   int
 	sampleRate int
@@ -81,9 +123,17 @@ func (w *writer[T]) WriteSample(sample T) error {
 	}
 	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
 	w.ts += w.dur.Milliseconds()
-	return err
+	if err != nil {
+		return err
+	}
+	// Frames are written in the background, so this may be an error of one of the previous frames.
+	return w.out.Err()
 }
 
 func (w *writer[T]) Close() error {
-	return w.ws.Close()
+	// Waits for all the frames to be written and the underlying writer to be closed.
+	if err := w.ws.Close(); err != nil {
+		return err
+	}
+	return w.out.Err()
 }
-- 
2.43.0


From a4bf724317c3cedbf04284a7939cd910a912d389 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 22/22] fix: g722: don't panic when encoding frames with an odd
 number of samples

At 16 kHz the encoder takes samples in pairs and reads beyond the end of the frame.
---
 g722/g722.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..572b477 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -135,6 +135,7 @@ func Decode(w media.PCM16Writer) (w2 Writer) {
 type Encoder struct {
 	f   g722.Flags
 	e   *g722.Encoder
+	pcm media.PCM16Sample // only used for frames with an odd number of samples
 	buf Sample
 	w   Writer
 }
@@ -152,6 +153,11 @@ func (e *Encoder) Close() error {
 }
 
 func (e *Encoder) WriteSample(in media.PCM16Sample) error {
+	if n := len(in); n%2 != 0 && e.f&g722.FlagSampleRate8000 == 0 {
+		// Samples are encoded in pairs, so repeat the last one.
+		e.pcm = append(append(e.pcm[:0], in...), in[n-1])
+		in = e.pcm
+	}
 	sz := encodeSize(e.f, len(in))
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
-- 
2.43.0

