#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

SRV = ["boripserver/main.go", "boripserver/devices.go"]
NOTEST_SRV = "boripserver has no tests (and its hardware dependency is absent), so no interleaving of sessions, hardware callbacks and disconnects is ever exercised; "

prop("S01", "A tuner is held by at most one session, and is granted when free",
  "In the BorIP server every tuner is, at every instant, open on behalf of at most one client session; a session performs hardware operations only on the tuner it holds and never on a closed one. "
  "A DEVICE selection is refused with \"no devices available\" only if every tuner was in use by another session, or failed to open, at some moment during that request. "
  "Each successful open is matched by exactly one close, which happens when the session releases the tuner (\"DEVICE !\"), selects again, or ends.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of any number of client sessions selecting, re-selecting, releasing and disconnecting over any number of tuners, with failing opens",
  NOTEST_SRV + "mutual exclusion is a property of every schedule, not of one run.",
  SRV, [("per-device mutex and in-use flag", "boripserver/devices.go: device.open/close"), ("free list snapshot followed by open", "boripserver/devices.go: deviceList; main.go: DEVICE command")],
  [("device in-use flag and handle", "who holds the tuner", "boripserver/devices.go")],
  ["calls on the tuner driver", "DEVICE replies"])

prop("S02", "A session that ends, however it ends, gives everything back",
  "When a BorIP server session ends - the client closes or resets the connection at any point (idle, mid-line, mid-command, while starting, running or stopping a stream), or a reply cannot be written - the server, within bounded time, ends the session's sample stream, closes its tuner, its data sockets and its control connection. "
  "Afterwards the tuner can be selected by another client, and no socket, hardware read or task of the ended session remains. "
  "Likewise every stream that ends while the session lives on (STOP, tuner released or re-selected, tuner lost, failed start) releases its data socket and its hardware read.",
  ["schedules", "crash_points", "fault_sequences"],
  "every disconnect point in every command and stream phase, every interleaving with the hardware's sample callbacks, hardware failures included",
  NOTEST_SRV + "leaks and lost tuners only show at particular disconnect points.",
  SRV, [("session teardown", "boripserver/main.go: handleConnection"), ("stream stop and drain", "boripserver/main.go: stopStreaming/startStreaming")],
  [("stream state of a session", "whether a hardware read is active", "boripserver/main.go: client")],
  ["driver open/close and read activity", "open sockets of the server", "live tasks"])

prop("S03", "No client or tuner fault takes down the server or another session",
  "Whatever bytes clients send, whenever they disconnect, and whatever the tuners do (failing calls, odd gain tables, samples arriving at any moment, unplugging), the BorIP server neither crashes nor stops accepting and serving clients. "
  "After the greeting \"DEVICE -\", every non-blank line of a live session (terminated by a newline and shorter than 4 KiB) is answered, in order and within bounded time, by exactly one line that starts with the line's first word in upper case, \"UNKNOWN\" following it for an unknown command. "
  "A session's replies do not depend on what other sessions do, except for which tuners are free.",
  ["schedules", "inputs", "fault_sequences"],
  "all command texts, fragmentations, interleavings of several sessions with hardware callbacks, and hardware fault sequences",
  NOTEST_SRV + "a panic in any task kills every session, and it needs a particular interleaving or fault.",
  SRV, [("line loop", "boripserver/main.go: loop/handleCommand"), ("one task per connection", "boripserver/main.go: main/handleConnection")],
  None, ["control connections", "server process state"])

prop("S04", "Streamed packets carry the tuner's samples: complete, ordered, numbered",
  "From GO on, the datagrams the BorIP server sends for a stream carry exactly the bytes the tuner delivered for that stream, in order, none lost, repeated or altered, each unsigned 8-bit value b as the 16-bit little-endian signed sample whose two bytes both equal b-128 (mod 256), with at most the announced number of complex samples per packet. "
  "Each datagram starts with a 4-byte header: flags, a zero byte, and a 16-bit little-endian sequence number that starts at 0 and increases by exactly 1 (modulo 65536) per packet, whether or not sending a packet succeeded; the stream-start flag (0x10) is set on the first packet of the stream and no flag on any other. "
  "Concurrent streams of different sessions never mix, and each goes only to the destination its session had set when it issued GO.",
  ["schedules", "fault_sequences", "histories"],
  "all transfer sizes, callback timings, sequence-number wrap-around, socket send errors, and concurrent streams and control traffic",
  NOTEST_SRV + "loss, reuse of the transfer buffer and wrap-around need long histories and particular timings.",
  SRV + ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("packetizer in the hardware callback", "boripserver/main.go: startStreaming"), ("sample widening", "dsp: Ui8toi16b")],
  [("sequence counter, first-packet flag, packet buffer", "per stream", "boripserver/main.go")],
  ["datagrams handed to the data socket", "transfers handed to the callback"])

prop("S05", "GO and STOP tell the truth about streaming",
  "A session streams only between a GO answered OK and the next STOP answered OK, release or re-selection of its tuner, or end of the session: once such a STOP or DEVICE command has been answered, no further packet of that stream is sent. "
  "GO is answered OK exactly when a new hardware read was started for it, RUNNING while the session's stream is active, and an error (FAIL or DEVICE) when there is no destination, no tuner, or starting fails, in which case nothing is streamed; STOP is answered OK while a stream is active and STOPPED when none is. "
  "After STOP is answered, or the stream has died with its tuner, a new GO starts afresh with sequence number 0 and the stream-start flag.",
  ["schedules", "fault_sequences", "histories"],
  "all GO/STOP/DEVICE sequences, back to back or spaced, interleaved at every point with sample callbacks, start failures and unplugging",
  NOTEST_SRV + "the command loop and the hardware callback share the stream state, so the answer depends on the interleaving.",
  SRV, [("stream state machine", "boripserver/main.go: isStreaming/startStreaming/stopStreaming")],
  [("stream state of a session", "idle, active, stopping", "boripserver/main.go: client")],
  ["GO/STOP/DEVICE replies", "driver reads", "datagrams"])

prop("S06", "Control replies report what the tuner really does",
  "Without a selected tuner FREQ, RATE, GAIN and ANTENNA are answered \"<command> DEVICE ...\"; with one, a query of FREQ, RATE or GAIN is answered with the tuner's actual current value in decimal (ANTENNA with an advertised antenna), and a setting applies the requested value to the session's own tuner and is answered OK with the value the tuner then actually has (FREQ: requested value, actual value, 0, 0). "
  "A malformed number, or a tuner operation that fails, is answered with FAIL (or \"-\" for a query) and never with OK or a value, and DEST, once set to a resolvable address, is reported by a DEST query and used by the next GO, an unresolvable one being refused and leaving the old in force. "
  "A successful DEVICE selection sets the tuner to 144.1 MHz and 1 MS/s with AGC off and describes it as name|min gain|max gain|gain step|tuner crystal frequency|4096|antennas, the gains being taken from the tuner's gain table (0, 1, 1 if it cannot be read, step 1 if it has fewer than two entries) and the frequency being 0 if it cannot be read.",
  ["histories", "fault_sequences", "schedules"],
  "all command histories with failing or quantizing tuner operations, negative gains included, alone and while samples are streaming",
  NOTEST_SRV + "no fault or quantization of the hardware is ever exercised.",
  SRV, [("command dispatch", "boripserver/main.go: handleCommand")], None, ["replies", "tuner settings"])

CL = ["borip/client.go"]
NOTEST_CL = "borip has no tests; "
prop("C01", "A client call returns the outcome of its own command, or an error",
  "Each call on a BorIP client session sends one command line (the command and its arguments separated by single spaces) and returns what the server's one reply line to that command says, however the reply is fragmented or delayed: the values it carries, or an error if it is an error reply - for a setting, GO, STOP or refused selection one that carries the server's words - (a status other than OK for a setting, GO or STOP; \"-\", FAIL, DEVICE or UNKNOWN for a query), lacks or garbles a required value, or cannot be read completely. "
  "A reply is never attributed to a different call, a call never reports success or a value when its command failed or the connection broke before the reply was complete, and no reply makes a call panic. "
  "SelectDevice accepts a device description with or without the optional serial number and reports its fields unchanged.",
  ["inputs", "fault_sequences", "histories"],
  "all reply texts, fragmentations, delays and connection failures at every byte of every exchange, over any sequence of calls",
  NOTEST_CL + "no reply, fragmentation or failure is exercised.",
  CL, [("request/response over buffered connection", "borip/client.go: command"), ("reply parsing", "borip/client.go: parseAndCheck, parseDeviceString, SelectDevice, ...")],
  None, ["return values of the client API", "bytes on the wire"])

prop("C02", "Connecting and closing a client leaves nothing behind",
  "Dial either returns a usable session or an error, and in the latter case no connection stays open. "
  "Close sends STOP if a GO was acknowledged and not followed by an acknowledged STOP, then \"DEVICE !\" if a tuner is selected, waits for each answer, and always closes the connection and returns - also when the server answers with errors, disconnects or resets at any point - and calling it again is harmless. "
  "Nothing but these commands is sent by Close, and nothing is sent after it.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of calls before Close, and all points at which the server fails, refuses, disconnects or resets, during Dial and Close",
  NOTEST_CL + "resource release depends on where the exchange breaks off.",
  CL, [("Dial, Close, running flag and selected device", "borip/client.go")],
  [("running, device", "what Close has to undo", "borip/client.go: BorIP")], ["connection state", "bytes on the wire"])

prop("C03", "The packet reader delivers every received sample exactly once, in order",
  "For any sequence of datagrams and any sizes of the caller's buffers, the samples returned by successive reads are exactly the complete 16-bit I/Q pairs of the received datagrams' payloads, in arrival order, each once, the rest of a datagram that does not fit being returned by the following reads before another datagram is awaited, and no read returns more samples than its buffer holds. "
  "With headers enabled, the reported header is that of the datagram the last returned samples came from; a datagram too short for a header yields the short-packet error once and contributes no samples, and a trailing fragment of fewer than four bytes is dropped. "
  "A receive error is returned as it is without losing or inventing samples, later reads continue with later datagrams, and no datagram makes a read panic.",
  ["inputs", "fault_sequences", "histories"],
  "all datagram sequences (lost, duplicated, reordered, truncated, empty, oversized) interleaved with receive errors, read with any buffer sizes, with and without headers",
  NOTEST_CL + "datagram truncation, small buffers and receive errors are never exercised.",
  ["borip/packet.go"], [("buffer position carried across reads", "borip/packet.go: ReadSamples")],
  [("bufI, bufN, header", "unread rest of the current datagram", "borip/packet.go: PacketReader")], ["ReadSamples results", "Header"])

prop("E01", "The BorIP client and server of this repository work together",
  "A session of this repository's client with its server, over any network timing, works end to end: SelectDevice(\"-\") describes the tuner as the hardware does, settings and queries return the values the tuner actually has, Antenna is one of the advertised antennas, and SetDestination returns, and Destination then reports, the address that was set. "
  "After Go, a packet reader bound to that destination obtains exactly the tuner's samples in order, every loss, duplication or reordering on the way being visible as a corresponding step in the header sequence numbers and the first packet of a stream by its stream-start flag, and after Stop nothing more is sent. "
  "When the client closes or vanishes, the tuner becomes available to the next client, and with several clients each gets only its own tuner's samples.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of several real clients and the real server over a simulated network that delays, fragments, drops, duplicates and reorders, with connections cut at any point",
  "no test runs the client against the server at all; agreement of the two sides over histories and network faults is not sampled once.",
  SRV + ["borip/client.go", "borip/packet.go", "dsp/conversion_amd64.s"], [("wire protocol on both sides", "borip/client.go, boripserver/main.go")], None,
  ["client API results", "samples read", "tuner state"])

prop("E02", "The receiver program records exactly what it receives, safely",
  "The receiver of borip/example sets its server up with the commands it is written to send, in that order, each only after the previous one succeeded, listens at the destination the server confirmed before it sends GO, records for its 30 seconds, then sends STOP, deselects the tuner and exits with status 0. "
  "samples.bin holds exactly the samples of the datagrams it received, whole datagrams in the order of arrival, as pairs of little-endian float32; by the time it waits for another datagram everything before it is synced, so that after a power failure at any moment the file is an intact prefix that lacks at most the datagram being written. "
  "If the server refuses or drops any of its setup commands, or a receive, write, sync or file creation fails, it neither goes on nor hangs nor crashes: it ends with an error status, and the file is still such a prefix.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all server scripts, datagram streams, network faults, disk faults and power failures around one run of the program",
  "the program has no tests at all; durability at every crash point and the exit status under every fault and schedule cannot be sampled.",
  ["borip/example/rx.go", "borip/client.go", "borip/packet.go"],
  [("the whole program", "borip/example/rx.go: main"), ("packets to samples", "borip/packet.go: ReadSamples"), ("commands and replies", "borip/client.go")], None,
  ["control connection", "samples.bin, synced contents", "exit status"])

AX = ["dsp/ax25/hdlc.go", "dsp/ax25/crc.go"]
NOTEST_AX = "dsp/ax25 has no tests; "
prop("A01", "An intact AX.25 frame is decoded exactly once whatever came before it",
  "Fed with any bit history - noise, idle, aborted, truncated, oversized or damaged frames, flags shared between frames - the AX.25 decoder returns every well-formed frame (any legal addresses including up to eight repeaters, information field up to 256 bytes) whose bits arrive undamaged between two flags, exactly once, at the last bit of its closing flag, in order. "
  "The returned addresses with SSIDs, AX.25 version and command/response bit, frame type, sequence numbers, poll/final bit, supervisory or unnumbered type and, for I and UI frames, protocol id and information bytes are those the frame was sent with, and for FlexNet-compressed headers so are the destination callsign, SSID and command bit. "
  "After any disturbance ends, the first undamaged frame that follows an opening flag is decoded.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of frames and channel disturbances (bit flips, losses, insertions, collisions, aborts, fades) on the receive bit stream",
  NOTEST_AX + "resynchronisation after arbitrary disturbances is a property of all histories.",
  AX, [("flag/abort/stuffing state machine", "dsp/ax25/hdlc.go: Feed"), ("frame parsing", "dsp/ax25/hdlc.go: processFrame"), ("FCS table", "dsp/ax25/crc.go")],
  [("bitstream, inFrame, rxBits, rxBuf", "receiver state", "dsp/ax25/hdlc.go: AX25")], ["Feed results"])

prop("A02", "A damaged, aborted or oversized AX.25 frame is never delivered",
  "Whatever bits it is fed, the AX.25 decoder returns a frame only at the closing flag of a span since the previous flag that contains no abort, whose destuffed bits are whole octets with a correct frame check sequence, and which is long enough for its addresses and control field; the frame returned is the parse of exactly those octets. "
  "Every other span - corrupted, truncated, aborted, longer than 512 octets, too short - yields nothing, never a panic, and leaves no trace in later frames. "
  "The decoder's memory use stays bounded however long the input runs.",
  ["inputs", "histories", "fault_sequences"],
  "all bit streams, in particular valid traffic with bit flips, insertions, losses, collisions, aborts and overlong spans",
  NOTEST_AX + "rejection must hold for every damage pattern.",
  AX, [("FCS check and length limits", "dsp/ax25/hdlc.go: processFrame, Feed"), ("abort handling", "dsp/ax25/hdlc.go: Feed")], None, ["Feed results", "memory held"])

prop("A03", "Delivered AX.25 frames stay valid and decoders are independent",
  "A frame returned by an AX.25 decoder belongs to the caller: nothing fed to that or any other decoder afterwards changes any of its fields or its information bytes, and writing to them or appending to them affects neither a decoder nor any other frame. "
  "Any number of decoders may run concurrently on different goroutines; each returns exactly what it would return if it ran alone on its own bits.",
  ["schedules", "histories"],
  "all interleavings of several decoders, and of consumers holding earlier frames while later ones are being received",
  NOTEST_AX + "aliasing shows only when frames are kept while reception continues.",
  AX, [("frame construction from the receive buffer", "dsp/ax25/hdlc.go: processFrame")], [("rxBuf", "reused receive buffer", "dsp/ax25/hdlc.go")], ["frames held by consumers"])

NOTEST_D = "tests feed one block to one instance; "
prop("D01", "Streaming filters do not depend on how the stream is cut into blocks",
  "For the biquad, real and complex IIR (any order from 0), DC-blocking, FM-demodulating and complex/rational downsampling filters, feeding a sample stream in blocks of any sizes, empty blocks included, gives exactly the output of feeding it in one piece, the block form and any one-sample form of a filter being interchangeable. "
  "That output is the filter's difference equation with its configured coefficients, started from zero state (biquad/IIR: sum b[k]x[n-k] - sum a[k]y[n-k], over a[0]; DC: w[n]=x[n]+a*w[n-1], y[n]=w[n]-w[n-1]; FM: angle of x[n]*conj(x[n-1]) within 0.011 rad; downsamplers: sums of each group of Downsample samples, or of each Fast/Slow group scaled by Slow/Fast). "
  "Each call consumes its whole input block, writes only its outputs, and, where input and output have the same element type, works in place.",
  ["schedules", "histories", "configurations"],
  "all partitions of all sample streams into delivered blocks, for all filter configurations, with transfers short or empty at any point",
  NOTEST_D + "state carried over a block boundary at every possible position is not sampled.",
  ["dsp/biquad.go", "dsp/filter.go", "dsp/demod.go", "dsp/downsample.go"], [("state carried between calls", "prevIn/prevOut, pIn/pOut, w, pre, now/prevIndex, sum/prevIndex")], None, ["Filter/Demodulate outputs"])

prop("D02", "Signal-processing instances never interfere with each other",
  "Any number of filter and detector instances (biquad, IIR, DC, FM demodulator, downsamplers, sliding DFT, Goertzel, DTMF) may be created, also from the same coefficient, window or frequency slices, and used concurrently on different goroutines on their own data: each behaves exactly as if it were the only one. "
  "Creating or using an instance changes none of the slices it was created from, and later changes to those slices do not affect an instance already created. "
  "Block conversions and other stateless functions may likewise run concurrently on disjoint data.",
  ["schedules", "histories"],
  "all interleavings, down to single statements, of creation and use of several instances on several goroutines, sharing constructor arguments",
  NOTEST_D + "interference needs several instances and particular interleavings.",
  ["dsp/biquad.go", "dsp/filter.go", "dsp/demod.go", "dsp/downsample.go", "dsp/sdft.go", "dsp/goertzel.go", "dsp/dtmf/dtmf.go"], [("all state is per instance; package state is read-only after init", "dsp")], None, ["outputs of each instance", "constructor arguments"])

prop("D03", "Tone detectors depend only on what was fed since the last reset",
  "The Goertzel detectors (real 32/64-bit and complex) report, for each target frequency rounded to its bin k, the DFT of exactly the samples fed since creation or the last Reset - Complex the value sum x[n]*exp(-2*pi*i*k*n/blockSize) for a whole block, up to the phase convention exp(2*pi*i*k*(N)/blockSize) for N samples, and Magnitude its squared modulus - however the samples were split over Feed calls and whatever was fed before the Reset. "
  "Reading results does not disturb the state: repeated and interleaved readings agree with the samples fed so far.",
  ["histories", "schedules", "configurations"],
  "all histories of Feed (any block sizes), Reset, Magnitude and Complex calls, for all frequency sets and block sizes",
  "one test feeds one block to one fresh detector and reads it once.",
  ["dsp/goertzel.go"], [("recurrence state and Reset", "dsp/goertzel.go")], None, ["Magnitude, Complex"])

prop("D04", "Block kernels touch exactly their block and agree wherever it is cut",
  "For the block conversions (unsigned/signed 8-bit, 16/32-bit little-endian, float32/64, complex) block vector operations (scale, multiply, add, absolute value, maximum, minimum) and quarter-turn rotations (in place, in blocks of whole turns), processing a stream in blocks of any sizes, empty ones included, at any buffer offsets and with any detected set of the processor's vector features gives exactly the result of processing it in one piece, which is the documented element-wise value, in place too where input and output have the same type; float-to-16-bit conversion saturates out-of-range values in the same way wherever they fall in a block. "
  "Each call processes exactly as many elements as both its input and its output hold and writes nothing outside those output elements. "
  "The portable Go version of a kernel, where there is one, does the same. The window functions fill exactly the slice they are given, of two or more points, with their window: 1-|2n-(N-1)|/(N+1), or the cosine sums of Hamming (0.53836), Hann, Blackman (0.16) and Nuttall (0.355768, 0.487396, 0.144232, 0.012604) over N-1.",
  ["schedules", "inputs", "configurations"],
  "all partitions of a stream into blocks and all placements of the blocks in (recycled) buffers, short or empty transfers and short outputs included, on amd64 with and without SSE4.1 and AVX2, and on the other processors the package has assembler for",
  "tests compare one or two block lengths at one or two alignments.",
  ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32.go", "dsp/math32_amd64.s"], [("vector body, alignment head and scalar tail of each kernel", "dsp/*_amd64.s")], None, ["output buffers and their surroundings"])

prop("D05", "The sliding DFT tracks the last N samples and forgets everything older",
  "After every sample of a stream of finite samples, the sliding DFT (32- and 64-bit) returns, up to accumulated rounding, the window-weighted sum of the bins around k of the DFT of exactly the last N samples (zeros before the first), with the phase reference at the oldest of them; the package's own frequency-domain windows are those of Hann, Hamming (0.53836) and Blackman (0.16). "
  "Whatever was fed before - bursts, glitches, drop-outs - the output is back to that of the clean signal N samples after the disturbance ends, up to rounding.",
  ["histories", "fault_sequences", "configurations"],
  "all sample histories with bursts and drop-outs, for all N, k and window lengths, over runs many times longer than N",
  "no test exercises the sliding DFT at all.",
  ["dsp/sdft.go"], [("circular history and per-bin recursion", "dsp/sdft.go: Filter")], [("x, i, s", "sample history, position, bin states", "dsp/sdft.go")], ["Filter outputs"])

prop("D06", "DTMF detection depends only on the block fed, and finds the key sent",
  "For any pair of frequency tables, a block that carries one low and one high tone of the tables (any phases, levels within 6 dB of each other, background noise at least 15 dB below, tones of each table at least three bins of the block apart, the two tables at least five bins apart and at least four bins away from zero and from half the sample rate) is reported as key row*columns+column, the magnitude being the smaller of the two tables' largest bin powers of the windowed block; with NewStandard the tables are the standard ones (697, 770, 852, 941 Hz and 1209, 1336, 1477, 1633 Hz) and Keypad names the keys of the standard keypad. "
  "The report depends only on the samples of that block - not on earlier blocks, dropouts, or on other detectors running concurrently - and the caller's samples are left unchanged, so overlapping windows may be fed from one buffer. "
  "The DTMF file decoder prints the keys of a recording, be it a named file or its standard input, and the same ones however the reads are split.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "all sequences of keys, pauses, noise and drop-outs, all block alignments and read splits, several lines decoded concurrently",
  "dsp/dtmf has no tests.",
  ["dsp/dtmf/dtmf.go", "dsp/goertzel.go", "dsp/window.go", "examples/dtmf_file.go"], [("window, reset and feed of both detector banks per block", "dsp/dtmf/dtmf.go: Feed"), ("read loop", "examples/dtmf_file.go")], None, ["Feed results", "caller's buffer", "program output"])

prop("D07", "A designed biquad settles to its response after any disturbance",
  "A filter made by any of the nine biquad constructors is stable, and whatever it was fed before - bursts, drop-outs, stuck levels, lost, repeated or late blocks - and if it was tuned to another specification in use, by setting its coefficients between two blocks, once it is fed clean tones its output settles, as fast as its poles decay, to those tones with the gain and phase of its specification, for float64 and float32 blocks of any sizes, in place or not. "
  "The response is that of the analog prototype given with the constructor (low/high pass 1 or s^2, band pass s or s/Q, notch s^2+1, all pass s^2-s/Q+1, over s^2+s/Q+1; peaking (s^2+sA/Q+1)/(s^2+s/(AQ)+1); low shelf A(s^2+s*sqrt(A)/Q+A)/(A*s^2+s*sqrt(A)/Q+1), high shelf A(A*s^2+s*sqrt(A)/Q+1)/(s^2+s*sqrt(A)/Q+A) with 1/Q=sqrt((A+1/A)(1/S-1)+2); A=10^(dB/40)) at s=j*tan(pi*f/rate)/tan(pi*f0/rate), for corner frequencies f0 from 0.002 to 0.498 of the rate, Q from 0.3 to 10, slopes S from 0.3 to 1 and gains within 24 dB.",
  ["histories", "fault_sequences", "configurations"],
  "all disturbances of the stream before the clean part, retuning among them, all block cuts, all designs, frequencies, Q, slopes and gains, tones from zero to half the sample rate",
  "no test exercises the biquad filters at all.",
  ["dsp/biquad.go"], [("coefficient designs", "dsp/biquad.go: New*BiQuadFilter, *BiQuadFilter"), ("recursion", "dsp/biquad.go: Filter, FilterF32")], [("prevIn, prevOut", "what the filter remembers", "dsp/biquad.go: BiQuadFilter")], ["Filter outputs"])

prop("D08", "Interpolating from a window of a stream gives what the whole stream gives",
  "The linear, Hermite (4-point) and optimal 2x (4- and 6-point) interpolators return, in 64 and 32 bits, the value of their published polynomial at the position, computed from the 2, 4, 4 or 6 samples around it, samples before the first and after the last counting as zero (linear interpolation is zero at positions before the first sample). "
  "So a stream read at any positions, from any window that holds those samples, is interpolated as if it were there as a whole - with a reader whose clock drifts or jumps, late blocks and underruns too. "
  "For no finite position and no slice, empty ones included, does one panic or change the samples; several may read the same samples concurrently.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all positions, windows and deliveries of a stream, with skewed and jumping reader clocks, underruns, and several readers of one stream",
  "no test exercises the interpolators at all.",
  ["dsp/interpolate.go"], [("sample selection and polynomials", "dsp/interpolate.go")], None, ["interpolated values"])

prop("D09", "Phase detectors follow a stream within their documented error",
  "From successive samples x[n] (zero, or of magnitude 1e-6 to 1e6) of any stream, the phase step, the angle of x[n]*conj(x[n-1]), obtained through FMDemodFilter, PolarDiscriminator32, FastPhase32 or FastAtan2 is within 0.011 rad, through FastAtan2_2 within 0.005, through PolarDiscriminator or Phase32 (with Conj32) exact up to rounding, and for integer samples of up to 16 bits through Atan2LUT within 0.005 and FastAtan2Fixed within 0.08 (2^14 units being pi), always within [-pi, pi] up to that error, on the axes and in every quadrant; the fast ones report zero for a zero sample. "
  "This holds after any drop-out, glitch or loss, from the first pair of good samples on, however the stream is cut into blocks and however many detectors run concurrently.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all streams - tones, modulated and keyed carriers, noise, samples on and next to the axes - with drop-outs, bursts and losses, all block cuts, several detectors at once",
  "tests sample a grid of arguments of the arctangents and one block of the demodulator.",
  ["dsp/demod.go", "dsp/math32.go", "dsp/mathfixed.go"], [("approximations and quadrants", "dsp/math32.go: FastAtan2, FastAtan2_2; dsp/mathfixed.go"), ("previous sample", "dsp/demod.go: FMDemodFilter")], [("atanLUT", "table built at start and shared", "dsp/mathfixed.go")], ["angles"])

prop("D10", "Every processor computes what the portable code computes",
  "On every architecture package dsp has assembler for - amd64 with any detected vector features, 386, ARM with NEON, with VFP vectors or with neither, and ARM64 - the assembler defines every function that the Go code declares without a body there, and each of them (8- and 16-bit conversions, scaling, magnitude, maximum and minimum, quarter-turn rotations, FM demodulation, downsampling, arctangents), on any stream of finite samples cut into blocks at any offsets, gives what its portable Go version gives: exactly for conversions to integers, extremes and rotations, within float32 rounding for products and sums, and within the documented error for arctangents. "
  "It accesses nothing outside its arguments (a few elements beside a block may be read, never used), returns, whatever registers and stack held before, and keeps the stack pointer, the goroutine's register and the floating point mode.",
  ["inputs", "configurations", "histories", "schedules"], "all architectures and feature sets, all block cuts and placements, all previous contents of registers, stack and results",
  "tests run on one processor, with its vector features not even detected.",
  ["dsp/conversion_arm.s", "dsp/math32_arm.s", "dsp/conversion_arm64.s", "dsp/math32_arm64.s", "dsp/math32_amd64.s", "dsp/demod_arm.s", "dsp/downsample_arm.s", "dsp/util_arm.s", "dsp/internal/cpu/cpu.go"], [("per-architecture kernels and their fallbacks", "dsp/*.s"), ("detected features", "dsp/cpu_*.go")], None, ["results of each call and the memory around its arguments"])
prop("D11", "Programs find the processor features they may use, and no others",
  "Once the package's processor detection has run, a feature is reported exactly when the processor has it and the system lets programs use it. "
  "On amd64 and 386 from the CPUID leaves that exist (BMI, ERMS, ADX and AVX2 need leaf 7), FMA only with OSXSAVE, AVX and AVX2 only if XGETBV, executed only with OSXSAVE, says that both XMM and YMM registers are saved; the processor's name is its brand string up to the first NUL without leading blanks, or empty. "
  "On Linux on ARM and ARM64 from the kernel's capability bits (on Android never atomics; the identification register is read only with the CPUID capability), on FreeBSD from the fields of ID_AA64ISAR0, on macOS AES, PMULL, SHA1 and SHA2 always, CRC32 and atomics from sysctl, whose failure means no; elsewhere on ARM64 nothing. "
  "Options cpu.NAME=on|off and cpu.all=on|off (comma separated, the last one counts) only ever take features away, never SSE2 on amd64; malformed, unknown and impossible ones change nothing and are warned about, and there is no warning otherwise. "
  "The kernels of package dsp use SSE2, SSE4.1 and AVX2 only if granted on amd64; on ARM NEON exactly if a Features line of /proc/cpuinfo lists neon or asimd, and VFP vectors exactly on a BCM2708 without NEON or as ARMVECTOR (1 or 0) says, however the file arrives in pieces; a missing file or failing read never turns anything on that the part read does not show, and no file stays open.",
  ["inputs", "configurations", "fault_sequences"],
  "all processors, systems, option strings, contents of /proc/cpuinfo, and failing or short system calls",
  "tests see the one processor they run on.",
  ["dsp/internal/cpu/cpu.go", "dsp/internal/cpu/cpu_x86.go", "dsp/internal/cpu/cpu_arm.go", "dsp/internal/cpu/cpu_arm64.go", "dsp/cpu_amd64.go", "dsp/cpu_arm.go"], [("detection per architecture and system", "dsp/internal/cpu/cpu_*.go: doinit, osInit"), ("options", "dsp/internal/cpu/cpu.go: processOptions"), ("choice of kernels", "dsp/cpu_amd64.go, dsp/cpu_arm.go: init")], [("X86, ARM, ARM64", "features found", "dsp/internal/cpu/cpu.go"), ("useSSE2, useSSE4, useAVX2, HaveNEON, UseVector", "kernels chosen", "dsp/cpu_*.go")], ["feature variables after start"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
