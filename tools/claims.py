C["C15"]=(AI,"proof","Every history of Push/TryPush/TryPop/TryPeek/Write/Read on a buffer of every capacity, element contents included, against an unbounded queue; the solved loop invariant is inductive. Assumes no 64-bit overflow.")
C["C20"]=(AI,"proof","Every history of writes and closes on a splitter of every frame size, sample contents included, against the input stream, with a sink that accepts everything or fails at any call; the loop invariants are inductive.")
C["C22"]=(AI,"proof","Every history of writes on a converter between any two rates, closed or not and then collected as garbage, with the native library as documented (any amount consumed and produced per call) and with a failing writer or library.")
C["C13"]=(AI,"proof","A sequence writer shared by streams: one arbitrary packet written by any stream in any state of the writer, with a connection that fails or not; concurrency is covered by the lock obligations of the same scenario.")
C["C14"]=(AI,"proof","Every history of regular writes, same-time writes, delays and resets on one stream, alone or among other streams that move the shared clock, with failing sends; timestamps below the 32-bit wrap-around.")
C["C16"]=(AI,"proof","All 16 codes, all bytes, all payloads: tables evaluated entry by entry from the source, encode/decode composed symbolically.")
C["C17"]=(AI,"proof","Event structure for every digit string, frame duration and stream state by loop invariants; exact clock and order for any three consecutive characters (loops unrolled).")
C["C27"]=(AI,"proof","Every history of registrations followed by a dispatched packet, with any handler.")
ERR="path-sensitive error-obligation dataflow over inlined SSA, and abstract interpretation of the adapters against failing sinks"
FLOW="whole-program static effect, lockset and lock-order analysis over inlined SSA, type-resolved"
C["C04"]=(FLOW,"other","Every access to every field of the shared structs, on every call path from every exported entry point and background goroutine, with the set of locks held, whether the object is published, and which goroutine runs it; one common lock (or atomic, channel, single owning goroutine) is required per field. Does not bound data reached through third-party code.")
C["C05"]=(FLOW,"other","Every lock operation on every inlined path from every entry point: release on all exits, no re-entrance, acyclic lock order, callbacks invoked with no internal lock held.")
C["C06"]=(FLOW,"other","Every blocking wait reachable from an entry point or background goroutine must have a case that the component's stop signals, that case must leave the loop, and every stop entry point raises the signal on all exits. Assumes third-party calls return once their connection is closed.")
C["C07"]=(FLOW,"other","Every flow of a write operation's argument memory (all exported and unexported Write*/HandleRTP methods) into fields, globals, channels, goroutines and retaining third-party writers, every write through it, and every hand-over of a component's own reusable slice. Private fields that are always overwritten before being read are allowed.")
C["C08"]=(ERR,"proof","Every call of a function that can fail, in every function of the module, on every path: the error is returned, wrapped, stored in a field that some other function returns, or sent to a channel that is read into a returned error. In addition the adapters (codecs, resampler, splitter, fan-out, switch, files, WebM, Opus, loops, jitter handler, DTMF, playback) are analysed with a downstream that fails at any call.")
C["C09"]=(AI,"proof","Every history of writes and then a close for every adapter that owns a downstream (codecs, resampler, splitter, fan-out, switch, files, WebM, Opus, loop and jitter handlers), with a downstream that fails at any call or not.")
C["C24"]=(AI,"proof","Every adapter and switch with source and destination at any rates, equal or not; setting the rate twice, and using a switch without rate, must reach an explicit panic; another goroutine may set the rate or replace the writer at any access to the switch's state.")
C["C21"]=(AI,"proof","Lists of any length, tones and digit strings of any length, with a writer that fails at any call and a context that is cancelled at any moment.")
C["C19"]=(AI,"proof","Every pair of bounds, with a system that opens, refuses or reports in use any port: the ports tried form a cycle through the whole clamped range, for both listening functions.")
C["C25"]=(AI,"proof","One write and one read of any length on a pipe, with any other goroutines reading, writing and closing either half in any way at every wait (rely-guarantee: each side is checked against everything the other side is proved to do), sample contents included, and every call after any two closes.")
C["C02"]=(AI,"proof","Any packet header and payload of any length in any decoder state reachable from earlier packets (inductive over the state), for dispatch, G.711, G.722, Opus, telephone events and the session readers; the jitter buffer in histories of two to three arbitrary packets after a delivered one.")
C["C03"]=(AI,"proof","Frames of any length and any sample values in every state reachable by earlier writes, for the ring buffer, mixer, splitter, channel conversion, PCM and WebM writers, pipes, encoders, resamplers, tone and digit generators; native libraries as documented.")
C["C12"]=(AI,"proof","All sample values and any number of inputs up to 65536 by loop invariants; every narrowing conversion reached is a separate obligation, and the mix of each position is compared with the clamped sum.")
C["C23"]=(AI,"proof","Histories of two arbitrary packets (three in the thorough tier) after a delivered one, and the parts of a sample or a jump in any order of arrival; any sequence numbers, contents and clock readings. Longer histories are not enumerated.")
C["C40"]=(AI,"proof","Up to four packets in any order of arrival, lost or not, within 1400 sequence numbers of each other, any contents; the time at which the timer fires is taken to be when it was set for.")
C["C30"]=(AI,"proof","One input receiving any of six amounts of samples before each of four ticks; two inputs of which one is removed or closed before any tick; an input added later; all sample values. Bounded histories of a mixer with three frames of buffer; the mix itself is covered for any size and number of inputs by C12.")
C["C43"]=(AI,"proof","Ticks at any times: three consecutive ticks with catch-up limits one, two, three and the default, every delay. Longer histories are not enumerated.")
C["C31"]=(AI,"proof","Both sides of a negotiation under all nine pairs of encryption settings, with all ports, key bytes followed symbolically from one side's random source to the other side's configuration, and (without encryption) every enabled subset of two of the built-in codecs. The text parser of pion is taken to return the description that was written, base64 to be reversible.")
C["C28"]=(AI,"proof","Three arriving packets of any validity, size, source and content followed by reads with buffers of any size; one and two readers of a stream in every interleaving with two arriving packets and the end of the session (the others may act before every lock and during every wait); twelve packets on an unread stream; writes of any history. The datagram parser of pion is taken to return any header and any part of the datagram, or an error; encrypted sessions are checked against pion's session as documented.")
C["C29"]=(AI,"proof","Every registration made by the package initialisers (executed symbolically) against the standard's table, and every frame length and destination size of every frame type.")
C["C01"]=(AI,"proof","A media description with any number of attributes and formats of any text (keys of any bytes, profiles of any name), a session description with any fields and up to two media parts, and answering or applying descriptions with up to two remote keys and three codecs under every encryption setting. The text parser of pion is taken to return any description without nil entries, or an error.")
C["C10"]=(AI,"proof","Offering, answering and applying under every encryption setting, with no, one or two remote keys of any known or unknown profile, any key bytes, failing random source; every path of the negotiation is followed symbolically and the returned description and configuration are compared.")
C["C11"]=(AI,"proof","Symbolic key bytes traced from the random source (or the remote text) to the configuration and the attribute text, for no, one or two remote keys of any profile, tag, identifier; longer remote lists are not enumerated.")
C["C18"]=(AI,"proof","Every enabled or disabled state of codecs found by name (any letter case), by payload type, in a parsed description of up to two attributes and three formats, and in offers made after registering any two further codecs; every listener registered before or after.")
C["C26"]=(AI,"proof","Offers of the built-in codecs and any two registered ones with any priorities and enabled states; answers to and configurations from descriptions of up to three codecs with any types and priorities; the text of every attribute is compared symbolically.")
NA["C41"]="Distortion is a property of numeric signals over the output of libopus and of the G.722 library, which no static argument over this repository bounds; the remaining part, the 256-entry companding tables, is a finite set that the existing tests enumerate completely."
NA["C42"]="The spectrum and the number of samples produced over time are decided inside libsoxr (or beep's interpolation) from floating-point filters; the part decided in this repository (all input consumed, flushing bounded by the input duration, nothing dropped or reordered) is claimed under C22 and C09."
NA["C44"]="The text format and the container format are produced and parsed by pion/sdp and ebml-go; whether the text survives and whether players accept the file is decided by that code and by players, not by this repository. What this repository puts in and takes out is claimed under C11 and C26."
