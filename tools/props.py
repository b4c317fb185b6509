import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=hook)))
def m(n,w): return dict(name=n,where=w)
asm64=["dsp/conversion.go","dsp/conversion_amd64.s","dsp/conversion_avo_amd64.s","dsp/conversion_386.s"]

p("C01","Integer and byte sample conversions are exact everywhere",
"Every conversion out of 8-, 16- or 32-bit integer samples (and the float32-to-bytes and int16-to-bytes serialisers) produces exactly the documented value for every input value at every position: unsigned 8-bit is re-centred by 128 (and, when widened to 16 bits, replicated into both bytes), signed and little-endian values keep their numeric value times the given scale, interleaved pairs become real/imaginary. The number of elements converted is the largest both slices have room for. The result does not depend on lengths, alignment, spare capacity or which CPU-specific path is taken.",
["inputs","configurations"],"all lengths and length mismatches around every SIMD block size, all start alignments of both buffers, all 65536 16-bit values (256 8-bit values) at every lane and tail position, every combination of CPU dispatch flags",
"the tests use a couple of fixed lengths on freshly allocated (aligned) buffers and a handful of values; head/body/tail splits of the assembly are taken only for particular length/alignment combinations",
asm64,[m("Ui8toi16, Ui8toi16b, Ui8tof32, I8tof32, Ui8toc64, I8toc64, I16ToBLE, I16bleToF64, I16bleToF32, I32bleToF32, F32Tof32ble","dsp/conversion.go and dsp/conversion_*.s")],obs=["output slices of the exported conversion functions"])

p("C02","Bulk routines touch only the memory of their slices and never fault",
"No bulk conversion or vector routine reads or writes memory outside the slices it was given: the input is left unchanged, output elements beyond the common length keep their old value, and bytes before and after both buffers are untouched. Calls with empty, nil or mismatched-length slices return normally and never panic or fault.",
["inputs","configurations"],"all pairs of lengths up to 80 (incl. 0 and nil), all natural alignments, slices with spare capacity, slices that end or start exactly at an unmapped page, every CPU dispatch configuration",
"tests never look at the bytes around a buffer, never pass empty or misaligned slices, and Go's bounds checks do not exist in assembly",
asm64+["dsp/math32.go","dsp/math32_amd64.s","dsp/math32_386.s"],[m("length clamping and alignment prologues of the assembly routines","dsp/*_amd64.s"),m("bounds-check elimination hints","dsp/conversion.go, dsp/math32.go")],obs=["canaries and guard pages around input and output"])

p("C03","Float to integer conversions truncate and do not depend on position",
"Converting scaled float32 samples to 16-bit integers (as integers or little-endian bytes) and complex samples to signed bytes yields the product truncated toward zero whenever it is inside the range of the target type. For every finite sample, in or out of range, the result depends only on the sample and the scale, never on its position in the slice, the slice lengths, the alignment or the path taken.",
["inputs","configurations"],"every int16 boundary and halfway value times several scales, out-of-range values up to the int32 limit, at every lane/tail position, all lengths to 80 and alignments",
"tests use a few in-range values at one length; the vector body and the scalar tail are different instruction sequences",
["dsp/conversion.go","dsp/conversion_amd64.s"],[m("F32toi16, F32toi16ble, C64toi8","dsp/conversion.go, dsp/conversion_amd64.s")],obs=["output slices"])

p("C04","Vector arithmetic is elementwise over the common length, also in place",
"Adding, scaling, multiplying (complex by complex, complex by real) and taking magnitudes of vectors computes the documented elementwise result for every index below the shortest operand and leaves the rest of the output as it was; addition accumulates into the output. The result is the same when the output is the very same slice as an input of the same element type, and for every length, alignment and CPU-specific path.",
["inputs","configurations"],"all lengths to 80 with all mismatches (three operands where applicable), lengths around powers of two, alignments, aliasing of output and input, dispatch configurations, a value alphabet with signed zeros, infinities and subnormals",
"tests compare one length per routine; tails and aliasing are not exercised and the SIMD variants are switched off in ordinary runs",
["dsp/math32.go","dsp/math32_amd64.s","dsp/math32_386.s"],[m("VMulC64xF32, VMulC64, VAddF32, VAddC64, VScaleC64, VScaleF32, VAbsC64","dsp/math32.go, dsp/math32_amd64.s")],obs=["output slices"])

p("C05","Vector maximum and minimum find the extreme at any position",
"The vector maximum (minimum) of float32 samples containing no NaN equals the largest (smallest) element wherever in the slice it lies, for every length and alignment. For an empty slice the maximum is -Inf and the minimum +Inf.",
["inputs","configurations"],"every length to 100 x every position of the extreme x every alignment x sign patterns incl. infinities, all dispatch configurations; all tuples over a small value alphabet for short lengths",
"tests use one array whose extreme sits at one position",
["dsp/math32.go","dsp/math32_amd64.s"],[m("VMaxF32, VMinF32","dsp/math32.go, dsp/math32_amd64.s")],obs=["return value"])

p("C06","Fast arctangents stay within their error bounds in every direction",
"The fast two-argument arctangents return, for every direction and for every magnitude from 1e-15 to 1e37 of the larger coordinate (the other may be zero or arbitrarily small), the true angle modulo 2*Pi within 0.011 rad (first float version, also as fast phase), 0.005 rad (second float version), 0.005 rad (lookup table, Pi = 16384) and 0.08 rad (fixed point, Pi = 16384; integer inputs up to 2^31 in magnitude on 64-bit platforms, 2^17 on 32-bit ones), always a finite angle within [-Pi, Pi] up to rounding, on the side of the branch cut that the sign of y (zero being positive) demands. The origin gives 0, the axes give exactly their quadrant angle up to the bound, and negating y negates the float results (up to rounding) away from the branch cut.",
["inputs"],"a complete grid of directions (all 2^12 slopes per octant edge plus every integer pair up to +-600 for the integer versions) x magnitudes over the full exponent range x all sign combinations incl. signed zeros",
"tests sample some angles at magnitude near one; overflow of the ratio, quadrant seams and table ends are not reached",
["dsp/math32.go","dsp/mathfixed.go"],[m("FastAtan2, FastAtan2_2, FastPhase32, Phase32","dsp/math32.go"),m("Atan2LUT, FastAtan2Fixed and the table built at start-up","dsp/mathfixed.go")],obs=["return value"])

p("C07","FM demodulation yields the phase step, however the stream is chunked",
"Each demodulated output equals the angle of the current sample times the conjugate of the previous one (within the 0.011 rad bound of the arctangent, modulo 2*Pi), where the previous sample of the first sample of a call is the last sample of the call before it, and of a fresh demodulator is zero. The call returns the number of input samples, an empty call changes nothing, the input is not modified, and cutting a stream into calls in any way gives the same output as one call. The single-pair polar discriminators compute the same angle, and all angles lie within [-Pi, Pi] (up to rounding).",
["inputs","histories"],"all sequences up to length 5 over an alphabet of complex samples covering all quadrant pairs, all compositions of a 12-sample stream into calls incl. empty ones",
"tests feed one buffer in one call",
["dsp/demod.go","dsp/demod_amd64.s"],[m("FMDemodFilter.Demodulate carries the previous sample","dsp/demod.go")],state=[dict(name="pre",meaning="last sample of the previous call",where="dsp/demod.go")],obs=["output slice and returned count"])

p("C08","Decimators emit exact group sums at the exact rate for any chunking",
"The integer decimator emits, for each complete group of D consecutive complex samples of the whole stream, the sum of the group; the rational decimator has emitted floor(n*slow/fast) outputs after n samples and each output is the sum of the samples since the previous output times slow/fast (0 < slow <= fast). Outputs are placed at the start of the buffer passed in, which also is the returned slice, and depend only on the stream and not on how it was cut into calls.",
["inputs","histories"],"all factors D in 1..9 and all ratios slow<=fast<=12, all compositions of streams up to 12 samples into calls (incl. empty), integer-valued samples so that sums are exact",
"tests use one factor and one buffer per filter",
["dsp/downsample.go","dsp/downsample_amd64.s"],[m("running sum and index carried between calls","dsp/downsample.go")],state=[dict(name="sum/now, prevIndex",meaning="partial group carried between calls",where="dsp/downsample.go")],obs=["returned slice"])

p("C09","Quarter-turn rotators multiply sample n by i to the n",
"For every buffer of a multiple of four samples the complex and the interleaved-integer rotators multiply the n-th sample of the buffer by the n-th power of the imaginary unit, exactly, in place, return the same slice and touch nothing else. Processing a stream in several such buffers equals processing it in one.",
["inputs"],"all buffer lengths 0..64 that are multiples of four, all tuples of a small value alphabet incl. extreme integers and signed zeros, guard memory around the buffer",
"tests use a single buffer",
["dsp/util.go","dsp/util_amd64.s"],[m("Rotate90Filter, I32Rotate90Filter","dsp/util.go")],obs=["returned slice, buffer contents"])

p("C10","Recursive filters follow their difference equation across any call history",
"Real and complex IIR filters, biquads (float64 and float32 entry points mixed) and DC blockers (block and single-sample entry points mixed) compute their difference equation over the whole stream fed so far, independent of how it was cut into calls, and may write their output over their input. Creating a filter leaves the caller's coefficients unchanged, normalises by the leading denominator coefficient, and later changes to the caller's slices or other filters made from the same coefficients do not affect it.",
["inputs","histories"],"all compositions of short streams into calls over both entry points, all orders 0..4, leading coefficients other than one, two filters per coefficient set with interleaved calls, in-place and separate outputs",
"there are no tests for these filters",
["dsp/filter.go","dsp/biquad.go"],[m("direct-form I history arrays","dsp/filter.go, dsp/biquad.go"),m("coefficient normalisation in the constructors","dsp/filter.go")],state=[dict(name="pIn/pOut, prevIn/prevOut, w",meaning="past inputs and outputs",where="dsp/filter.go, dsp/biquad.go")],obs=["output slices, caller's coefficient slices"])

p("C11","Biquad designs realise their documented analog prototype",
"The frequency response of every biquad constructor (low-pass, high-pass, both band-passes, notch, all-pass, peaking, low and high shelf) equals, at every frequency, the bilinear transform (pre-warped at the design frequency) of the transfer function documented for it, for every sample rate, design frequency below Nyquist, Q or slope and gain. The resulting filter is stable and run on an impulse has that response.",
["inputs"],"grid of all constructors x frequencies x Q/slope x gains x response frequencies, plus impulse responses run through the filter",
"there are no tests for the biquads",
["dsp/biquad.go"],[m("Audio-EQ-cookbook coefficient formulas","dsp/biquad.go")],obs=["exported coefficients, filtered impulse"])

p("C12","Goertzel detectors equal the DFT bin for any feeding history",
"After a reset (or on a fresh detector) and any sequence of feed calls totalling one block, the complex result of each detector equals the discrete Fourier coefficient of the block at the bin nearest the target frequency, and the magnitude result is its squared modulus, for real and complex inputs. Results depend only on the samples fed since the last reset, not on how they were split into calls or on how often results were read, and the samples are not modified.",
["inputs","histories"],"all unit-impulse positions and all short streams over a small alphabet for every block size 2..16 and every bin, all compositions into feed calls with reads and resets interleaved",
"tests look at one tone in one block; reset, splitting and phase are unobserved",
["dsp/goertzel.go"],[m("second-order recursion per target frequency","dsp/goertzel.go"),m("Reset","dsp/goertzel.go")],state=[dict(name="q1,q2,q1i,q2i",meaning="resonator state",where="dsp/goertzel.go")],obs=["Complex(), Magnitude()"])

p("C13","Sliding DFT equals the windowed DFT of the last n samples",
"After each sample the sliding DFT returns the sum over the window coefficients of coefficient times the DFT coefficient, at the correspondingly offset bin (wrapping modulo n), of the most recent n samples (zeros before the start), for every bin, length and window, in double and single precision.",
["inputs","histories"],"all lengths n in 1..9, all bins, window lengths 0..5, all streams over a small alphabet to bounded depth plus streams several times n long",
"there are no tests for the sliding DFT",
["dsp/sdft.go"],[m("comb plus resonator with circular history","dsp/sdft.go")],state=[dict(name="x,i,s",meaning="circular history and resonators",where="dsp/sdft.go")],obs=["Filter return value"])

p("C14","Window functions match their formula for every length",
"For every length the triangle, Hamming, Hann, Blackman and Nuttall windows equal their textbook cosine-sum (or triangle) formula over n-1 intervals, are symmetric, finite and never exceed 1 by more than rounding; a window of length one is finite and of length zero is a no-op. The float32 versions equal the rounded float64 versions and only the given slice is written. The published frequency-domain coefficients are the Fourier coefficients of the same windows.",
["inputs"],"every length 0..4096 (more in the thorough run), every index, both precisions",
"there are no tests for windows",
["dsp/window.go"],[m("window generators and frequency coefficient tables","dsp/window.go")],obs=["output slices"])

p("C15","Interpolators evaluate their polynomial at every position and never panic",
"For every finite position the interpolators evaluate their documented kernel (linear, 4-point 3rd-order Hermite, optimal 2x 4- and 6-point) over the samples around the floor of the position, taking samples outside the slice as zero, and return 0 when no sample is in reach (the linear ones also left of the first sample). At integer positions the linear and Hermite interpolators return the sample itself, results are linear in the samples, and no position, however large, small or negative, and no slice length makes them panic.",
["inputs"],"all slice lengths 0..8 with unit impulses at every index (linearity gives all contents) x positions on a 1/16 grid over [-4, len+4] plus extreme positions up to the largest float, both precisions",
"there are no tests for interpolation",
["dsp/interpolate.go"],[m("Linear, Hermite4p3o, Optimal2x4p4o, Optimal2x6p5o and F32 variants","dsp/interpolate.go")],obs=["return value"])

p("C16","DTMF reports the strongest row and column of the current block only",
"For every block the decoder returns the key whose row and column tones have the largest windowed power among the configured tones, together with the smaller of the two powers, so that every key of the standard keypad is recognised at any amplitude and phase. The answer depends only on the samples of this call (at most one block, shorter blocks as if zero padded), not on previous calls, and the caller's samples are not modified.",
["inputs","histories"],"all 16 keys x phases x amplitudes x relative levels x several sample rates and block sizes, all ordered pairs of calls, sliding-window reuse of one buffer, custom tone sets and windows",
"there are no tests for DTMF",
["dsp/dtmf/dtmf.go","dsp/goertzel.go"],[m("windowing, reset and arg-max over Goertzel powers","dsp/dtmf/dtmf.go")],obs=["Feed result, caller's slice"])

p("C17","AX.25 deframing recovers exactly the valid frames of any bit stream",
"For every bit stream the decoder returns a frame exactly at the closing flag of each flag-delimited, zero-bit-stuffed, octet-aligned sequence of at most 512 octets (check sequence included) with a correct check sequence and a complete header, and nothing at any other bit. Noise before a flag, aborts (seven ones), oversize or damaged frames, shared flags, and flags sharing a zero never make it miss or alter a following good frame and never make it panic.",
["inputs","histories"],"all bit strings to a bounded depth and all sequences to a bounded depth of stream segments (flags, shared-zero flags, aborts, idle, good, damaged, misaligned, oversize and stuffing-heavy frames), all frame sizes 0..600",
"there are no tests for the AX.25 decoder",
["dsp/ax25/hdlc.go","dsp/ax25/crc.go"],[m("bit-level state machine of the decoder","dsp/ax25/hdlc.go"),m("check sequence verification","dsp/ax25/crc.go")],state=[dict(name="shift register, in-frame flag, octet buffer",meaning="deframer state",where="dsp/ax25/hdlc.go")],obs=["Feed return value per bit"])

p("C18","AX.25 frames with bit errors the check sequence covers are rejected",
"A frame whose content was altered in up to three bit positions, in any odd number of positions or in a burst of at most 16 bits between the flags is never delivered as a frame, at any error position (including inside the check sequence) and for any frame length. The unaltered frame is delivered.",
["inputs","fault_sequences"],"all single and double bit errors, all triple errors on short frames, all burst patterns of length <= 16 at every position, for frames of several lengths",
"there are no tests for the AX.25 decoder",
["dsp/ax25/crc.go","dsp/ax25/hdlc.go"],[m("CCITT check sequence table and residue","dsp/ax25/crc.go")],obs=["Feed return value"])

p("C19","AX.25 headers, control and protocol fields decode to what was sent",
"For every well-formed frame the decoded source, destination and repeater callsigns (without padding) and station ids, protocol version and command/response bits, frame type, sequence numbers, poll/final bit, supervisory or unnumbered subtype, protocol id and information bytes (also those of test, identification and reject frames) equal the transmitted ones, and the package's named constants stand for the codes the protocol assigns. Frames with FlexNet compressed headers yield the six packed callsign characters (zero meaning absent), the station id and the command bit.",
["inputs"],"all 256 control bytes, all station ids, repeater counts 0..8, callsign lengths 1..6 over all printable callsign characters per position, all C-bit combinations, all information lengths 0..300, all 6-bit values of each packed FlexNet character",
"there are no tests for the AX.25 decoder",
["dsp/ax25/hdlc.go","dsp/ax25/constants.go"],[m("header, control field and FlexNet parsing","dsp/ax25/hdlc.go")],obs=["fields of the returned frame"])

p("C20","A returned AX.25 frame is owned by the caller; decoders are independent",
"Once returned, a frame never changes, whatever is fed to the decoder afterwards, and modifying a returned frame does not influence later decoding. Any number of decoders fed alternately bit by bit behave like decoders fed alone.",
["histories","schedules"],"all ordered sequences of frames (sizes forcing buffer reuse) of bounded length with all earlier frames re-checked after each bit group; all interleavings of two decoders at segment granularity",
"there are no tests for the AX.25 decoder",
["dsp/ax25/hdlc.go"],[m("copying out of the receive buffer","dsp/ax25/hdlc.go")],state=[dict(name="receive buffer",meaning="reused between frames",where="dsp/ax25/hdlc.go")],obs=["fields of earlier frames"])

p("C21","The BorIP packet reader delivers each packet's samples exactly once in order",
"For every sequence of datagrams and every sequence of caller buffer sizes the samples read are exactly the complete little-endian I/Q pairs of the packets' payloads, in order, each exactly once, never more than fit the buffer and never data that was not in the packet, and the header reported is that of the packet last read; the named flags are the protocol's bits. A packet too short for its header yields the short-packet error, a socket error is passed on, and in both cases reading continues correctly with the next packet.",
["inputs","histories","fault_sequences"],"all sequences to a bounded depth of packets (all lengths 0..20 with both header modes, plus full-size ones), socket errors, and caller buffers of 1..6 samples",
"there are no tests for the BorIP client",
["borip/packet.go"],[m("buffer cursor carried between calls","borip/packet.go")],state=[dict(name="bufI, bufN",meaning="cursor into the current packet",where="borip/packet.go")],obs=["returned samples, count, error, Header()"])

p("C22","The BorIP client sends well-formed requests and returns the server's answer",
"Each client call sends exactly one request line with the documented command and arguments, and returns the values carried by the server's response: numbers, names and device descriptions (with or without the optional serial number) as sent. A response other than success is returned as an error that carries the server's reason, a malformed or truncated response or broken connection gives an error, and no response whatsoever makes the client panic.",
["inputs","fault_sequences"],"all client calls x all responses built from a token alphabet (status words, numbers, empty and repeated separators, missing fields) up to a bounded number of tokens, x all truncations and ways the response is split by the network",
"there are no tests for the BorIP client",
["borip/client.go"],[m("command/response line handling and parsing","borip/client.go")],obs=["bytes on the wire, results and errors"])

p("C23","BorIP client state follows the server's answers and closing cleans up",
"The client reports a device exactly while the last answered selection succeeded; closing sends a stop exactly if the last successful start was not followed by a successful stop, then a device release exactly if a device is selected, and always closes the connection, also when the server fails in between. A failed connection set-up leaves no open connection.",
["histories","fault_sequences"],"all sequences to a bounded depth of select/release/start/stop with success or failure answers or a lost connection at every point, followed by close",
"there are no tests for the BorIP client",
["borip/client.go"],[m("running flag and selected device","borip/client.go")],state=[dict(name="running, device",meaning="what must be undone on close",where="borip/client.go")],obs=["commands received by the server, connection closed"])

p("C24","No client behaviour or interleaving crashes or wedges the BorIP server",
"Whatever requests clients send, in whatever order, whenever they disconnect and however that interleaves with the sample stream of the device and with other clients, the server keeps running, answers every complete request with exactly one response line of the protocol in order, and keeps accepting connections, however many there are and however long they are silent; no client has to wait for what another one does next. Each response truthfully reflects the stream and device state: starting when started says running, stopping when stopped says stopped, stopping a running stream makes it end and it can be started again. There are no data races, the connections and sockets of clients and streams that ended are closed, and nothing of them piles up over a long life. An interrupt, and nothing else, ends the server.",
["schedules","histories","fault_sequences"],"all request sequences to a bounded depth, all interleavings up to a preemption bound of two clients and the device's sample callback, with device failures and disconnects at every point, and over a thousand repetitions of every short history",
"the server has no tests and did not even compile at the pinned commit",
["boripserver/main.go","boripserver/devices.go"],[m("command loop, stream start/stop through a channel","boripserver/main.go"),m("device table","boripserver/devices.go")],state=[dict(name="streaming state, selected device",meaning="per client",where="boripserver/main.go")],obs=["response lines, process survival, stream callback result"])

p("C25","A BorIP server device has at most one owner and is always returned",
"At no time do two clients own the same device; a selection fails only if every device was unavailable at some moment during it, and never leaves a device unusable. A device is released, with its stream stopped first, when its owner releases it, selects again or disconnects in any way, after which it can be selected by any client.",
["schedules","histories","fault_sequences"],"all interleavings up to a preemption bound of two and three clients selecting, releasing, starting and disconnecting with one or two devices, device open failures included",
"the server has no tests",
["boripserver/devices.go","boripserver/main.go"],[m("per-device lock and in-use flag","boripserver/devices.go"),m("release on disconnect","boripserver/main.go")],state=[dict(name="inUse",meaning="device owned",where="boripserver/devices.go")],obs=["opens and closes seen by the device layer, responses"])

p("C26","BorIP stream packets are complete, ordered and correctly encoded",
"Each started stream sends to the client's destination packets of a 4-byte header (start flag on the first packet only, sequence number incrementing by one modulo 65536 in little endian) followed by the device's 8-bit I/Q bytes converted to little-endian 16-bit samples, at most 4096 sample pairs per packet. Every byte delivered by the device is sent exactly once and in order for any size of the device's buffers, and nothing is sent before the stream is started or after the device stopped delivering. A datagram the network refuses neither ends the stream nor disturbs the following ones.",
["inputs","histories"],"all buffer sizes around multiples of the packet size and all short sequences of buffers, sequence numbers through wrap-around, stop and restart",
"the server has no tests",
["boripserver/main.go"],[m("packetising callback","boripserver/main.go"),m("Ui8toi16b","dsp/conversion.go")],obs=["datagrams sent"])

p("C27","The BorIP client and server of this repository understand each other",
"Every operation of the client against the server succeeds whenever the server performed it and returns the value the device reports: device selection and release, frequency, rate, gain, antenna, destination, start, stop and the corresponding queries. The samples the client's packet reader delivers are those the device produced, re-centred.",
["histories"],"all sequences of client operations to a bounded depth against the real server over an in-memory network, for several device configurations (gain tables, frequencies, failures)",
"neither side has tests",
["borip/client.go","borip/packet.go","boripserver/main.go"],[m("request/response formats on both sides","borip/client.go, boripserver/main.go")],obs=["results of client calls, device settings, samples"])

p("C28","All exported routines exist and agree on every supported architecture",
"A program using any exported function links for amd64, 386, arm and arm64 on Linux and for Windows on amd64. On amd64, 386, arm (scalar, VFP vector and NEON code) and arm64 every routine gives the documented result for all inputs, within the same bounds, wherever in the address space its slices lie, and returns to its caller as the calling convention has it. (The arithmetic of 32-bit NEON may treat denormal numbers as zero.)",
["configurations","inputs"],"all exported functions x all supported architectures for linking; the whole conversion, vector, arctangent, demodulator, decimator and rotator exploration re-run as 386 code and, on an interpreter of their machine code, with the arm and arm64 routines",
"tests run on one architecture only",
["dsp/conversion_386.s","dsp/math32_386.s","dsp/conversion_arm.s","dsp/conversion_arm64.s","dsp/math32_arm.s","dsp/util_arm.s"],[m("per-architecture assembly routines","dsp/*_386.s, dsp/*_arm.s, dsp/*_arm64.s")],obs=["link result, results of the 386 binary, results of the interpreted arm and arm64 routines"])

p("C29","Instances are isolated: concurrent use never changes anyone's results",
"Using different filters, detectors, demodulators or decoders, and calling the pure functions, from several goroutines at once on separate data gives each goroutine exactly the results it would have alone, for every interleaving, without data races. No call leaves hidden state behind that influences other instances or later instances.",
["schedules","histories"],"all statement-level interleavings up to a preemption bound of pairs of operations of the stateful and pure routines, plus all call-level interleavings; a race-detector pass over the same bodies",
"no test uses two instances or two goroutines",
["dsp/filter.go","dsp/goertzel.go","dsp/sdft.go","dsp/dtmf/dtmf.go","dsp/ax25/hdlc.go","dsp/mathfixed.go"],[m("all state lives in the instance; package tables are read-only after start-up","dsp")],obs=["results per goroutine"])

p("C30","The DTMF file tool prints the same keys however its input arrives",
"Decoding a stream from standard input or a file prints exactly the keys that the samples contain, each held key once, regardless of how the operating system splits the stream into reads and of a partial block at the end of the input.",
["inputs","fault_sequences"],"all placements of up to two short reads at every offset inside a block over several keys, all truncations of the final block, pipes and files",
"the tool has no tests",
["examples/dtmf_file.go"],[m("block reading loop","examples/dtmf_file.go")],obs=["standard output"])

p("C31","CPU feature detection and its overrides select only usable features",
"After initialisation the reported features are exactly those the processor has and the operating system supports (the package compiles for every system it detects features on), on x86 by its identification registers (the reported name is the brand string without padding) and elsewhere by what the system says (hardware capabilities, system controls, facility lists), and an option string of the form cpu.name=on/off (or cpu.all=off), in any order and mixed with malformed or unknown entries, switches off exactly the named optional features, never enables a feature the processor lacks and never disables a required one. The DSP package never selects code paths that need a feature which is not usable; on ARM it selects NEON exactly if the kernel lists it and VFP vectors only on the Raspberry Pi 1 or when ARMVECTOR says so.",
["inputs","configurations"],"all option strings of up to three entries over all feature names, on/off/garbage values and malformed fields, on this processor and on simulated ones with every combination of identification bits; eight other targets' detection with every combination of their capability bits; ARM processor descriptions with the feature at every place, read in pieces",
"the tests cover a single option per process",
["dsp/internal/cpu/cpu.go","dsp/internal/cpu/cpu_x86.go","dsp/internal/cpu/cpu_arm64_hwcap.go","dsp/internal/cpu/cpu_s390x.go","dsp/cpu_arm.go"],[m("option parser and feature table","dsp/internal/cpu/cpu.go")],obs=["feature flags"])

p("C32","A receiver of detector and AX.25 decoder gets exactly the frames of a recording",
"A receiver that feeds the Goertzel detector's decisions to the AX.25 decoder as the AX.25 example does, given a clean recording of 1200 baud packet radio (44.1 kHz, at least half of the full level, at any phase and timing of the tones, starting and pausing anywhere), from a file or standard input, prints each undamaged frame once, in order, with its source, destination, repeaters and the dump of its information, and nothing else, regardless of how the operating system splits the input into reads and where it ends.",
["inputs","fault_sequences"],"frames of every length class, content and address form; all sequences of frames, damaged and aborted frames, idle flags and breaks to a depth; grids of phase, timing, level and lead; all placements of one and two short reads, all ends",
"the receiver has no tests (the example does not even compile: a known finding; a repaired copy is explored)",
["dsp/goertzel.go","dsp/ax25/hdlc.go","examples/ax25.go"],[m("tone detector, frame decoder","dsp/goertzel.go, dsp/ax25/hdlc.go")],obs=["standard output"])

p("C33","The DTMF live tool prints each held key once and ends on an interrupt",
"Each key held (for at least 115 ms, with 45 ms of silence after it) in what the sound card delivers is printed exactly once, in order, however long it is held and at any amplitude and phase, and nothing else is printed; an interrupt at any moment ends the tool with success, after the keys already held long enough, and with the sound device given back. The sound device is used in the order its library demands.",
["inputs","fault_sequences"],"all keys and pairs of keys, grids of holds and distances in fractions of a block, an interrupt at every block, a failure of every operation",
"the tool has no tests (its sound library is not available)",
["examples/dtmf_live.go","dsp/dtmf/dtmf.go"],[m("reading loop","examples/dtmf_live.go")],obs=["standard output, calls of the sound library"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
