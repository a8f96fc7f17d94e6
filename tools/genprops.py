#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only so the text is easy to edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "No session description from the remote side can crash the process",
 "Parsing any byte string as a session description, and answering or applying the parsed description under any encryption setting, ends in a result or an error and never in a panic. "
 "Nothing the remote side puts into formats, payload types, addresses, ports, crypto keys, lifetimes or key identifiers can cause an out-of-range index or slice, a nil dereference, a failing type assertion or a division by zero.",
 ["inputs"], "every SDP text, every encryption mode, every codec enable/disable configuration",
 "The SDP tests parse a dozen fixed descriptions; a crash needs one specific malformed attribute out of an unbounded space.",
 ["sdp/offer.go", "sdp/helpers.go", "sdp/codecs.go", "rtp/codecs.go", "srtp/srtp.go"],
 [("SDP parsing", "sdp/offer.go Parse/ParseMedia/parseSRTPProfile/parseMKI/parseLifetime"), ("address selection", "sdp/helpers.go GetAudioDest"), ("static payload type table", "rtp/codecs.go CodecByPayloadType")])

prop("C02", "No received RTP packet or telephone-event payload can crash a receiver",
 "Every receive-side entry point (payload-type dispatch, audio decoders, telephone-event decoding, jitter buffering, stream readers) accepts any RTP header and any payload, including an empty one, without panicking. "
 "A malformed packet is dropped or reported as an error.",
 ["inputs"], "every header value, every payload of every length, every decoder state reachable from earlier packets",
 "Tests feed well-formed audio of the usual frame sizes; empty, short and odd-sized payloads after arbitrary earlier sizes are not sampled.",
 ["rtp/mux.go", "rtp/rtp.go", "rtp/session.go", "rtp/jitter.go", "g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "opus/opus.go", "dtmf/dtmf.go", "jitter/buffer.go"],
 [("dispatch", "rtp/mux.go Mux.HandleRTP"), ("decoders", "g711, g722, opus WriteSample"), ("telephone-event", "dtmf/dtmf.go Decode/DecodeRTP"), ("buffered reader", "rtp/session.go readStream.ReadRTP")])

prop("C03", "Media processing never panics on any frame length or sample value",
 "Writing any sequence of frames of any length (including empty ones) and any sample values through ring buffers, the mixer, the frame splitter, channel up/down-mixing, PCM writers, pipes, audio encoders, tone and DTMF generators never panics, as long as documented preconditions hold (positive sizes and rates, destination large enough). "
 "Zero-length inputs, absent optional outputs and empty digit strings or tone lists are legal.",
 ["inputs", "histories"], "all frame lengths and all sequences of operations on one object",
 "Tests use the regular 20 ms frame and a few hand-picked ring operations; index errors hide in odd lengths and wrap positions.",
 ["ring/buffer.go", "buffers.go", "mixer/mixer.go", "pcm.go", "pipe.go", "media.go", "tones/tones.go", "dtmf/dtmf.go", "g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "opus/opus.go", "webm/writer.go"],
 [("ring indices", "ring/buffer.go"), ("frame splitter", "buffers.go"), ("mix buffers", "mixer/mixer.go mixInputs"), ("tone/DTMF generators", "tones/tones.go Play, dtmf/dtmf.go Write")])

prop("C04", "State shared between goroutines is only touched under its lock",
 "Every mutable field of an object that several goroutines may use at once (mixer and its inputs, payload mux, RTP streams and sequence writer, packet sessions, jitter buffer, buffered writers) is read and written only while holding the mutex that protects it, through an atomic or channel, or by the single goroutine that owns it. "
 "This includes diagnostic methods that describe an object as text.",
 ["schedules"], "every interleaving of concurrent API calls and background goroutines",
 "The tests run without the race detector and only ever sample a few interleavings.",
 ["mixer/mixer.go", "rtp/mux.go", "rtp/rtp.go", "rtp/session.go", "jitter/buffer.go", "pcm.go", "buffers.go", "resample_soxr.go", "pipe.go", "media.go"],
 [("mutex-guarded fields", "every struct with a sync.Mutex/RWMutex field"), ("atomic fields", "media.go SwitchWriter, rtp/rtp.go SeqWriter.maxTS")])

prop("C05", "Locks are always released and never acquired twice or in conflicting order",
 "Every lock taken by an operation is released on every way out of it, no operation acquires a lock it already holds, and no two operations acquire two locks in opposite orders. "
 "Payload dispatch invokes the selected handler, and the mixer invokes its output writer, with no internal lock held, so that a handler or sink may call back into the mux or mixer.",
 ["schedules", "programs"], "every path through every operation, every combination of concurrently running operations, every handler or sink",
 "A leaked or re-entered lock only shows as a hang on the rarely taken path or interleaving; no test takes those paths.",
 ["mixer/mixer.go", "rtp/mux.go", "rtp/rtp.go", "rtp/session.go", "jitter/buffer.go", "buffers.go", "pcm.go", "pipe.go", "resample_soxr.go"],
 [("lock sections", "all Lock/Unlock/defer Unlock call sites"), ("handler call", "rtp/mux.go Mux.HandleRTP"), ("sink call", "mixer/mixer.go mixOnce/writer")])

prop("C06", "Stopping or closing a component ends its goroutines and unblocks its waiters",
 "After a mixer is stopped or a jitter buffer or packet session is closed, each background goroutine it started terminates, and every call blocked in a wait inside it (packet read, stream accept, pipe read or write, blocked mix output) returns; no wait depends only on a peer that may be gone. "
 "Closing a pipe half also wakes the other half with the recorded error.",
 ["schedules", "fault_sequences"], "every moment at which stop/close may happen relative to the background loops, every downstream behaviour",
 "Tests close idle objects; leaks need the close to land while a goroutine is blocked in one specific operation.",
 ["mixer/mixer.go", "jitter/buffer.go", "rtp/session.go", "rtp/jitter.go", "pipe.go"],
 [("mixer loops", "mixer/mixer.go start/writer/mixOnce"), ("jitter loop", "jitter/buffer.go NewBuffer"), ("session reads", "rtp/session.go ReadRTP/write/Close"), ("pipe", "pipe.go read/write/close")])

prop("C07", "Writers neither keep nor modify a caller's buffer after returning",
 "After a write of samples, bytes or an RTP packet returns, the component keeps no reference through which it would still read or expose the caller's memory, and has not changed its contents; data it stores, queues or hands to another goroutine is a private copy. (The jitter buffer's push takes over the packet by contract.) "
 "Likewise a packet delivered to a reader does not share memory with the connection's reusable receive buffer.",
 ["inputs", "histories", "schedules"], "every write call followed by any reuse of the caller's buffer",
 "Tests write a buffer once and do not reuse it while the data is still in flight, so aliasing is invisible to them.",
 ["pcm.go", "media.go", "buffers.go", "rtp/rtp.go", "rtp/session.go", "rtp/jitter.go", "mixer/mixer.go", "webm/writer.go", "ring/buffer.go", "resample_soxr.go"],
 [("copying writers", "pcm.go, rtp/rtp.go Buffer.WriteRTP, webm/writer.go"), ("queueing", "rtp/session.go write, rtp/jitter.go HandleRTP, mixer/mixer.go mixOnce")])

prop("C08", "Downstream errors are reported, not swallowed",
 "If a downstream writer, handler, file, connection or encoder reports an error during a write or close, the operation that called it returns a non-nil error to its own caller. "
 "Documented exceptions are the mixer (which counts write errors in its statistics), the jitter handler (which reports an error on a later packet) and the Opus decoder's tolerance of a few consecutive corrupt packets.",
 ["fault_sequences"], "every position and combination of downstream failures",
 "Tests use sinks that never fail.",
 ["media.go", "pcm.go", "buffers.go", "resample_soxr.go", "rtp/rtp.go", "rtp/session.go", "srtp/srtp.go", "webm/writer.go", "opus/opus.go", "g711", "g722", "dtmf/dtmf.go", "tones/tones.go", "rtp/jitter.go", "mixer/mixer.go"],
 [("fan-out", "media.go MultiWriter"), ("buffered close", "media.go fileWriter.Close, buffers.go Close, resample_soxr.go Close"), ("stats", "mixer/mixer.go WriteErrors"), ("deferred error", "rtp/jitter.go err channel")])

prop("C09", "Closing a writer closes its downstream exactly once, after flushing pending data",
 "Closing an encoder, decoder, resampler, frame splitter, fan-out, switch, file or container writer that owns a downstream closes that downstream exactly once, even if flushing or an earlier close failed. "
 "Data still buffered is written downstream before the downstream is closed, and nothing is written to it afterwards.",
 ["fault_sequences", "histories"], "every failure position during close, every amount of buffered data",
 "Tests close after a clean, fully flushed run and ignore what happens on error paths.",
 ["media.go", "buffers.go", "resample_soxr.go", "g711", "g722/g722.go", "opus/opus.go", "webm/writer.go", "rtp/jitter.go", "rtp/rtp.go"],
 [("close chains", "all Close methods of writers wrapping a writer"), ("flush before close", "buffers.go, resample_soxr.go, media.go fileWriter")])

prop("C10", "Required encryption is never downgraded, and SAVP is used iff keys are attached",
 "When encryption is required, answering or applying a description yields an encrypted configuration or an error, never an unencrypted one; when encryption is disabled no encryption is configured. "
 "A local description announces the secure profile and crypto attributes exactly when the corresponding configuration carries encryption keys, and a failed negotiation returns no configuration.",
 ["inputs", "configurations"], "every remote description, every encryption mode on either side",
 "Tests cover a handful of mode and profile combinations.",
 ["sdp/offer.go", "srtp/srtp.go"],
 [("policy", "sdp/offer.go Offer.Answer, Answer.Apply"), ("profile announcement", "sdp/offer.go OfferMedia, AnswerMedia")])

prop("C11", "SRTP keys: right direction, one agreed profile, and random",
 "A negotiated encryption configuration uses one profile offered by both sides; the local key, salt and key identifier are those the local side advertised and the remote ones those the remote side advertised, for both the offering and the answering role. "
 "The answer echoes the tag of the offered suite it accepted, and every locally generated key and salt has the profile's length and is filled from the cryptographic random source.",
 ["inputs", "configurations"], "every pair of offered and answered profile lists, both roles",
 "Tests check fixed profile lists; swapped roles, duplicate suites and partial identifiers are not enumerated.",
 ["sdp/offer.go", "srtp/srtp.go"],
 [("selection", "sdp/offer.go SelectCrypto"), ("key generation", "srtp/srtp.go DefaultProfiles"), ("key parsing", "sdp/offer.go parseSRTPProfile")])

prop("C12", "PCM arithmetic saturates or stays in range; it never wraps around",
 "Mixing (of up to 65536 inputs), channel down-mixing and tone generation (amplitude up to 32767) produce every output sample either as the exact in-range value or clamped to the 16-bit range. "
 "No intermediate or final narrowing of sample values wraps around, and the mixer's output for each position is the sum of its inputs clamped to the symmetric range -32767..32767.",
 ["inputs"], "every combination of 16-bit sample values and number of inputs",
 "Tests use quiet or hand-picked samples; wrap-around needs loud, same-sign samples at one position.",
 ["pcm.go", "mixer/mixer.go", "tones/tones.go"],
 [("down-mix", "pcm.go StereoToMono"), ("mix and clamp", "mixer/mixer.go mixInputs/mixOnce"), ("tone synthesis", "tones/tones.go Generate")])

prop("C13", "RTP sequence numbers are consecutive for every packet actually sent",
 "Every packet sent through a sequence writer carries the next 16-bit sequence number after the previously sent one, whichever of the concurrent streams sent it, and a packet whose send failed does not consume a number. "
 "The packet goes out with the stream's own payload type, timestamp and marker, the writer's source identifier and version 2.",
 ["schedules", "fault_sequences"], "every interleaving of streams sharing one writer and every failing send",
 "Tests write from one goroutine to a sink that never fails.",
 ["rtp/rtp.go"],
 [("sequence writer", "rtp/rtp.go SeqWriter.WriteEvent, NewSeqWriter")])

prop("C14", "RTP timestamps advance by the media duration and never run backwards on a stream",
 "Apart from jumping forward to catch up with a more recent stream, a stream's timestamp advances by exactly one packet duration after a successful regular write; after a write at the current time it does not advance, and following packets reuse the same timestamp until an explicit delay or a regular write moves it. "
 "A failed write does not move the timestamp, delays add exactly the requested duration, and the shared maximum timestamp of all streams never decreases.",
 ["histories", "schedules", "fault_sequences"], "every sequence of writes, same-time writes, delays and resets, timestamps below wrap-around",
 "Tests replay two fixed scripts.",
 ["rtp/rtp.go"],
 [("stream clock", "rtp/rtp.go Stream.writePayload/Delay/ResetTimestamp"), ("shared clock", "rtp/rtp.go SeqWriter.CurTS")])

prop("C15", "The ring buffer is a bounded FIFO that drops only the oldest elements",
 "For a ring buffer of positive capacity, the reported length is always between zero and the capacity, pushes and writes keep exactly the newest elements up to capacity in order, and pops and reads return the oldest stored elements in order. "
 "A bulk write reports the number of elements given, a bulk read the number returned, and non-overwriting pushes fail exactly when the buffer is full.",
 ["histories", "inputs"], "every sequence of operations, every capacity, element count and wrap position",
 "Tests check a few sequences at small sizes.",
 ["ring/buffer.go"],
 [("positions and full flag", "ring/buffer.go Buffer")],
 [("read/write position, full flag", "the queue's contents start at the read position and run for Len elements")])

prop("C16", "Telephone-event codes, digits and tone frequencies agree with the standard",
 "Encoding and decoding of a telephone event are inverse for every digit 0-9, *, #, a-d and every flag, volume and duration value, and bytes outside the defined fields are never produced. "
 "Each digit's pair of tone frequencies is the ITU keypad pair for that digit, and unknown digits produce no tone.",
 ["inputs"], "all 16 codes, all bytes, all durations and volumes",
 "Tests check one sample payload and one audio sequence.",
 ["dtmf/dtmf.go"],
 [("tables", "dtmf/dtmf.go eventFreq, eventToChar, charToEvent"), ("codec", "dtmf/dtmf.go Encode/Decode")])

prop("C17", "A DTMF digit is one event: one timestamp, marked start, tripled end",
 "While sending a digit, every packet of the event carries the same timestamp, only the first is marked, the reported duration grows with each frame, the final packet has the end flag and is sent exactly three times, and the clock then advances past the tone and the pause. "
 "Digits are sent in order and pauses produce no event packets.",
 ["inputs", "histories"], "every digit string, every stream state",
 "One digit string is tested, on one stream.",
 ["dtmf/dtmf.go", "rtp/rtp.go"],
 [("generator loop", "dtmf/dtmf.go Write")])

prop("C18", "Disabled or unknown codecs are never offered, looked up or selected",
 "An audio codec that is disabled never appears in the offered list, is never returned by a lookup by name or used for a payload type in a parsed description, and is never selected for a call. "
 "Name lookups ignore case, re-enabling makes the codec available again, and every registered codec is announced to every registration listener exactly once.",
 ["configurations", "inputs"], "every enable/disable combination, every registration order, every description",
 "Tests toggle one or two codecs.",
 ["codecs.go", "sdp/codecs.go", "sdp/offer.go", "rtp/codecs.go"],
 [("registry", "codecs.go"), ("lookup", "sdp/codecs.go CodecByName, rtp/codecs.go CodecByPayloadType"), ("selection", "sdp/offer.go ParseMedia/SelectAudio/OfferCodecs")])

prop("C19", "UDP listening stays inside the requested port range",
 "A port requested from a range is always inside the range after clamping to valid ports (a range of a single port is passed on as it is), every port of the range is tried at most once and all of them before giving up, and only an address-in-use failure moves on to the next port. "
 "An empty range is an error, and a range without bounds lets the system choose.",
 ["inputs", "fault_sequences"], "every pair of bounds, every pattern of busy ports",
 "Tests use a few concrete ranges.",
 ["rtp/listen.go"],
 [("port scan", "rtp/listen.go bindRange")])

prop("C20", "The frame splitter emits only full frames and never loses or reorders samples",
 "Every frame written downstream before close has exactly the configured size, the samples reach the sink once each and in order, and only the last frame, at close, may be shorter (and is never empty). "
 "If the sink fails, the samples not yet handed to it stay buffered for the next write or close; a frame whose write failed counts as handed over.",
 ["inputs", "histories", "fault_sequences"], "every sequence of input lengths, every frame size, every failure position",
 "One test checks a couple of sizes without failures.",
 ["buffers.go"],
 [("splitter", "buffers.go FullFrames/flush/Close")])

prop("C21", "Playback and generators stop on cancellation, pace by ticker, and release it",
 "Playing audio, tones or DTMF returns the context's error as soon as the context is cancelled, waits for one tick per frame written, and writes no frame after an error. "
 "The ticker is stopped on every way out, and playback of a finite list writes each frame exactly once, in order.",
 ["schedules", "fault_sequences"], "every cancellation and failure moment, every list length",
 "Tests do not cancel mid-stream or fail the sink.",
 ["pcm.go", "tones/tones.go", "dtmf/dtmf.go"],
 [("paced loops", "pcm.go PlayAudio, tones/tones.go Play, dtmf/dtmf.go Write")])

prop("C22", "The native resampler is freed exactly once and never used after being freed",
 "Every native resampler that is created is deleted exactly once, by an explicit close or by the garbage-collection hook, and is never called after deletion. "
 "Memory passed to it stays within the Go slices it came from, native static strings are never freed, and all input of a write is consumed.",
 ["programs", "histories"], "every order of writes, closes and collection, every frame length and rate pair",
 "The leak test runs one history; a double free or overrun depends on order and lengths.",
 ["resample_soxr.go"],
 [("handle life cycle", "resample_soxr.go newSoxr/Close/soxrCleanup"), ("native call", "resample_soxr.go Resample")])

prop("C23", "Jitter buffer accounting: every packet is released once and counted once",
 "Every packet that enters the jitter buffer is either dropped as late, delivered exactly once as part of a complete sample, or dropped as incomplete; the reported size equals the number of packets held. "
 "A packet is dropped only if it is late, a duplicate, or incomplete when the latency has passed. Samples are delivered only when complete, padding packets are never delivered, and the loss callback reports the current totals whenever packets are dropped or skipped.",
 ["histories", "inputs"], "every arrival order, duplication and loss pattern",
 "Tests replay fixed arrival patterns.",
 ["jitter/buffer.go", "jitter/packet.go"],
 [("push/pop", "jitter/buffer.go push/popReady/popSample/dropIncomplete"), ("free list", "jitter/packet.go newPacket/free")])

prop("C24", "Writers always receive samples at their own sample rate",
 "When a writer is attached to a switch or to a decoder or resampler whose rate differs, a converter from the source rate to the writer's rate is inserted; when rates match it is used as is. "
 "Each adapter reports the rate at which it expects input, the switch's rate can be set once only, and using or attaching to a switch without a rate fails loudly.",
 ["configurations", "histories"], "every pair of rates, every order of attach, swap and set-rate",
 "Tests cover a few rates.",
 ["media.go", "resample.go", "resample_soxr.go", "g711", "g722/g722.go", "rtp/codecs.go"],
 [("switch", "media.go SwitchWriter.Swap/SetSampleRate"), ("adapter", "resample.go ResampleWriter"), ("codec adapters", "g711 DecodeALaw/DecodeULaw/EncodeALaw/EncodeULaw, g722 Decode/Encode")])

prop("C25", "A pipe transfers every sample once, in order, and honours close errors",
 "A pipe write returns successfully only after readers consumed all of its samples, in order and once each; concurrent writes do not interleave. "
 "After either half is closed, blocked and later calls return the error recorded first for that half, with the standard end-of-stream or closed-pipe default.",
 ["schedules", "histories"], "every interleaving of reads, writes and closes",
 "Tests run one reader and one writer in lock-step.",
 ["pipe.go"],
 [("rendezvous", "pipe.go read/write"), ("error cells", "pipe.go onceError, readCloseError, writeCloseError")])

prop("C26", "The session description sent agrees with the media configuration returned",
 "An answer lists exactly the codec, payload type and DTMF type of the returned configuration, with both sides' addresses as given; an offer lists every enabled codec once with distinct payload types, the static number for static codecs and a dynamic one otherwise (for as many dynamic codecs as there are type values). "
 "A chosen codec always comes from the remote description with the payload type given there, by highest priority for an offer and first usable for an answer, and the DTMF type is the remote's.",
 ["inputs", "configurations"], "every remote description, every registry configuration",
 "Tests compare a few complete descriptions.",
 ["sdp/offer.go", "sdp/helpers.go"],
 [("offer/answer construction", "sdp/offer.go OfferMedia/AnswerMedia/Offer.Answer/Answer.Apply"), ("selection", "sdp/offer.go SelectAudio"), ("payload type parsing", "sdp/offer.go ParseMedia")])

prop("C27", "Packets reach exactly the handler registered for their payload type",
 "A packet is delivered to the handler most recently registered for exactly its payload type, to the default handler if none is registered, and to nobody if there is neither; removing a handler restores the default. "
 "Registering one type never affects another, for static and dynamic types alike.",
 ["inputs", "histories"], "all 256 type values, every sequence of registrations",
 "Tests register two or three types.",
 ["rtp/mux.go"],
 [("dispatch tables", "rtp/mux.go Register/SetDefault/HandleRTP")])

prop("C28", "Packets delivered by a session are attributed to their own source and intact",
 "Each accepted stream receives only packets with its own source identifier, a new source is announced exactly once, and each packet is delivered to at most one read with the header and payload of the same packet. "
 "A packet larger than the MTU or not parseable is ignored without ending the session, and a full queue drops packets instead of blocking the connection. A packet written to a session is sent as one datagram made of its header followed by its payload.",
 ["inputs", "schedules"], "every packet stream, every interleaving of reads with arriving packets",
 "Tests use one stream with a prompt reader.",
 ["rtp/session.go", "srtp/srtp.go"],
 [("demultiplexing", "rtp/session.go AcceptStream"), ("hand-off", "rtp/session.go readStream.write/ReadRTP")])

prop("C29", "Codec registrations match the standard and their implementations",
 "Each built-in codec is registered once under its standard name, clock rate, static payload type and sample rate, and its encoder and decoder refuse or convert streams of any other rate. "
 "Frames of every codec report a size equal to the number of bytes their copy operation writes, and copying into a shorter buffer fails without writing past it.",
 ["inputs", "configurations"], "every codec, every frame length and destination size",
 "Tests look at individual codecs only.",
 ["g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "dtmf/dtmf.go", "opus/opus.go", "pcm.go"],
 [("registrations", "init functions of g711, g722, dtmf"), ("frames", "Size/CopyTo methods")])

prop("C40", "The jitter buffer releases packets in order within its latency bound",
 "Whatever the arrival order of packets whose sequence numbers lie within the reordering window of each other, delivered samples are in increasing sequence order. "
 "Complete samples at the head of the buffer are released as soon as nothing is missing before them, a complete sample preceded by missing packets is released once the configured latency has passed since it arrived, incomplete ones are discarded then, and whenever a packet is held the buffer's timer is set to fire when the latency of the first one passes, also after the latency is changed.",
 ["histories", "inputs"], "every arrival pattern and latency",
 "Fixed patterns are replayed with real timers.",
 ["jitter/buffer.go"], [("ordering and expiry", "jitter/buffer.go push/popReady"), ("timer", "jitter/buffer.go popReady/UpdateLatency")])

prop("C30", "The mixer plays each input's samples once, in order, while it is attached",
 "Every frame the mixer emits is the clamped sum of the next samples of each attached input: an input starts to play when the configured part of its buffer is filled, then adds its samples once each and in order, starts over in the same way after it ran empty, and loses only its oldest samples when it is written to faster than it is mixed. "
 "Inputs that are removed or closed are no longer heard, inputs that are added or removed do not disturb the others, and the statistics count the samples written, dropped and mixed.",
 ["histories", "inputs"], "every sequence of writes, ticks, additions and removals",
 "Tests replay a few fixed sequences.",
 ["mixer/mixer.go", "ring/buffer.go"], [("mixing", "mixer/mixer.go mixInputs/mixOnce"), ("buffering", "mixer/mixer.go readSample/WriteSample"), ("inputs", "mixer/mixer.go NewInput/RemoveInput")])
prop("C31", "Two sides that negotiate with each other agree on codec, address and keys",
 "When one side makes an offer, the other one parses and answers it, and the first one parses and applies the answer, both end with the same codec, payload type and telephone-event type, each with the other's address and port as remote and its own as local, and with mirrored keys of one profile: each reads with exactly the key and salt the other writes with, and the two directions use different keys. "
 "The codec is the one with the highest priority that is enabled; both encrypt exactly if neither disabled encryption, and if one side requires what the other one disabled the negotiation fails.",
 ["configurations", "inputs"], "every pair of encryption settings, enabled codecs, addresses, ports and keys",
 "Tests negotiate a few fixed cases and compare one side at a time.",
 ["sdp/offer.go", "sdp/helpers.go", "srtp/srtp.go"], [("offer and answer", "sdp/offer.go NewOffer/Answer/Apply"), ("parsing", "sdp/offer.go Parse/ParseMedia, sdp/helpers.go GetAudioDest"), ("keys", "sdp/offer.go SelectCrypto, parseSRTPProfile")])
prop("C43", "The mixer emits one frame per tick on average despite scheduling delays",
 "Whatever the delays between ticks, the number of mixed frames differs from the time since the first one, in frames, by less than one. At most the configured number of frames (the size of an input's buffer) is mixed at once; if more than that were missed, counting restarts there.",
 ["schedules"], "all timer and scheduler behaviours",
 "Tests drive the mixer by hand.",
 ["mixer/mixer.go"], [("pacing", "mixer/mixer.go mixUpdate")])

# --- not addressable by static analysis here -------------------------------
prop("C41", "Codecs reproduce audio with bounded distortion",
 "Decoding encoded audio yields the original within the distortion the codec standard allows, and the lookup tables used for companding match the standard's formula.",
 ["inputs"], "all audio signals",
 "Tests compare a few recorded samples.",
 ["g711/g711.go", "g722/g722.go", "opus/opus.go"], [("companding tables", "g711/g711.go")])
prop("C42", "Resampled audio has the right duration and spectrum",
 "The number of output samples over time equals the input duration at the output rate, and in-band content is preserved.",
 ["inputs", "histories"], "all signals and rate pairs",
 "Tests compare a few recorded samples.",
 ["resample_soxr.go", "resampler_beep.go"], [("resampling", "resample_soxr.go, resampler_beep.go")])
prop("C44", "Session descriptions survive a text round trip and container files are playable",
 "A generated description parsed back gives the same codecs, keys and addresses, and a written container file is accepted by standard players with all frames in it.",
 ["inputs"], "all descriptions and frame sequences",
 "One round trip is tested.",
 ["sdp/offer.go", "webm/writer.go"], [("text format", "github.com/pion/sdp, github.com/at-wat/ebml-go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
