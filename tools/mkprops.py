#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of the property texts."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NODEMUX = "No existing test drives the demuxer core at all; the guarantee is over every interleaving of tracks, packets and completion calls."

prop("C01", "Demuxing announces tracks first, completes once, then delivers packets",
 "Whatever is fed to a demuxer, its consumer sees every track that was found exactly once and in index order, then exactly one end-of-tracks notification, and only after that any packet; if probing ends with no track it sees exactly one track-not-found notification and nothing else. Nothing is announced or delivered while probing is in progress, and nothing new is announced after it ended: later streams are refused and their packets are dropped without disturbing the others. Asking for completion again changes nothing.",
 ["histories", "configurations"], "All sequences of explicit track creation, audio and video frames of any codec on any of several buffers, probe-completion requests and probe-duration settings, for every demuxer kind (flv, ps, ts, jt1078).",
 NODEMUX, ["demuxer.go", "tracks.go", "video_stream.go"],
 [("OnProbeComplete", "demuxer.go"), ("processBufferedPacket", "demuxer.go"), ("AddTrack refuses after completion", "demuxer.go")],
 state=[("Completed", "probing has ended", "demuxer.go"), ("Packets", "packets retained per track", "demuxer.go"), ("Tracks", "announced tracks", "tracks.go")],
 observe=["OnUnpackStreamHandler callbacks", "return values of track creation"])

prop("C02", "Packets are delivered once, in order, on their own track, unaltered",
 "Every frame accepted for a track is delivered exactly once, on that track, in arrival order and with the timestamps, key flag, codec, media type, packing and timebase it was given, except that the newest frame of each track is held back until its successor arrives. The frames retained during probing are delivered at completion in ascending decode-time order, frames with equal decode time keeping their arrival order within a track. Video frames are shown to the preprocessing callback once, before delivery and before their times are used; what the callback leaves in a frame is what is delivered.",
 ["histories"], "All interleavings of frames over 1-4 tracks (first frame on any track, any relative rates, equal or non-monotonic timestamps) with completion at any point, including tracks that have 0 or 1 frame at completion.",
 NODEMUX + " Index mix-ups need one track's first frame to arrive before another's.", ["demuxer.go", "collections/linked_list.go"],
 [("per-track retention and hold-back of the newest packet", "demuxer.go processBufferedPacket"), ("sort at completion", "demuxer.go OnProbeComplete")],
 state=[("Packets", "retained packets by track index", "demuxer.go")], observe=["OnPacket"])

prop("C03", "Frame durations and the probe window are computed from decode times",
 "The duration of a delivered frame is the decode time of the next frame of the same track minus its own (decode times as the preprocessing callback leaves them). Probing ends by itself exactly when some track's retained frames span at least the configured probe duration, with a floor of 200 ms (the span being the sum of the frames' durations in whole milliseconds), and never earlier. A soft completion request is ignored as long as a raw PCM or G.726 track has fewer than two frames, and honoured otherwise; a hard request always completes.",
 ["histories", "configurations"], "All decode-time sequences (regular, jittered, equal), timebases 1000 and 90000, probe durations below, at and above the floor, and completion requests at any point, with and without PCM/G.726 tracks.",
 NODEMUX, ["demuxer.go", "av_packet.go", "packet_utils.go"],
 [("duration of the previous packet", "demuxer.go processBufferedPacket"), ("window test", "demuxer.go processBufferedPacket"), ("TryCompleteProbe", "demuxer.go")],
 observe=["AVPacket.Duration at OnPacket", "the frame at which OnTrackComplete fires"])

prop("C04", "Payload bytes survive the pooled buffers until the consumer is done with them",
 "When frames are assembled in the shared per-stream buffers in arbitrary fragments and handed to a demuxer, every delivered frame carries exactly the bytes that were written for it, and those bytes stay unchanged until that frame is released; with automatic release each delivered frame's memory is released exactly once, after its delivery, and frames that are dropped, or taken back before they are submitted, release only themselves. Memory in use stays bounded when the consumer keeps up.",
 ["histories", "configurations"], "All histories of fragmented writes, frames accepted or dropped, out-of-phase release by the consumer or automatic release, probing or completed, with frames from 0 bytes to larger than the whole buffer, on several streams.",
 "No test connects the pooled buffers with the demuxer; corruption appears only when the ring wraps, fills exactly or grows while old frames are still referenced.",
 ["demuxer.go", "streams_buffer.go", "collections/buffer_rb.go", "collections/buffer_direct.go"],
 [("forwardPacket releases after delivery", "demuxer.go"), ("DiscardBackPacket on refusal", "demuxer.go OnAudioPacket/OnVideoPacket"), ("RBBlockBuffer.Alloc", "collections/buffer_rb.go")],
 observe=["packet payload at OnPacket and again before release", "block count of each buffer"])

prop("C05", "Announced tracks describe their stream correctly and own their data",
 "The description of every announced track matches the stream it was created from: codec, media type, the timebase it was declared with or else that of the container, consecutive indexes, the parameter sets and displayed width and height of video, the sample rate and channel count of AAC (where it comes with a configuration, that decides, whatever else the declaration says), an inferred sample rate for raw PCM and bit rate for G.726 from the size and duration of their first frame, and 8 kHz mono 16 bit otherwise. Later changes to the caller's buffer never change an announced description. A stream whose description cannot be parsed yields no track.",
 ["inputs", "configurations"], "All generated parameter sets (AVC and HEVC, both packings), audio headers, PCM/G.726 frame sizes and durations, for every demuxer kind and both ways of creating a track (explicit, from the first frame).",
 "No existing test creates a track; each description field is derived by a different parser and path.",
 ["demuxer.go", "video_stream.go", "codec_paraments.go", "av_stream.go", "utils/aac_util.go"],
 [("createAudioTrack / createVideoTrack copy the extra data", "demuxer.go"), ("calculatePCMFrequency, calculateG726BitRate", "demuxer.go"), ("ExtractAudioExtraData", "video_stream.go")],
 observe=["AVStream fields at OnNewTrack"])

prop("C06", "Ring block pool never overwrites a block that is still in use",
 "Every block obtained from the ring block pool holds exactly the bytes written to it, from the moment it is completed until it is removed, whatever is written, completed or removed around it and however often the pool wraps or grows. Blocks are removed oldest first from the front and newest first from the back, the counts of outstanding and pending data match what was written and not yet removed, and memory in use stays bounded when the outstanding data is bounded. Splitting the pool seals it until it is cleared, and the pool split off shares no byte with it.",
 ["histories", "configurations"], "All sequences of write/alloc/complete/pop/pop-back/clear/split with sizes from 0 to several times the capacity, for initial capacities from 1 byte up, including exact fills, wrap-arounds and repeated growth with blocks outstanding.",
 "The one test writes a few small blocks and prints sizes; overwriting needs an exact fill or a wrap with an old block outstanding.",
 ["collections/buffer_rb.go", "collections/buffer_direct.go"],
 [("Alloc placement", "collections/buffer_rb.go"), ("Pop with discarded blocks", "collections/buffer_rb.go")],
 state=[("blocks", "outstanding blocks in the current array", "collections/buffer_direct.go"), ("discardBlockCount", "blocks left in replaced arrays", "collections/buffer_rb.go")],
 observe=["bytes of fetched blocks", "PendingBlockSize"])

prop("C07", "Linear block pool keeps written data contiguous and intact across splits",
 "The linear block pool returns the bytes written since the last completed block as one contiguous block, exposes all bytes written so far in order, reports used, pending and free space exactly, and never changes bytes of a block already handed out while that block is outstanding, even when it grows. Splitting it seals it against every further change until it is cleared and yields a working pool over the unused remainder; neither ever touches the bytes of the other.",
 ["histories", "configurations"], "All sequences of write/alloc/complete/pop/pop-back/clear/split over capacities from 0 up, with splits of splits.",
 "The existing test checks one write sequence without any split.",
 ["collections/buffer_direct.go", "collections/block_buffer.go"],
 [("Alloc/Fetch", "collections/buffer_direct.go"), ("SplitOff", "collections/buffer_direct.go")], observe=["Fetch, Data, AvailableBytes, Size"])

prop("C08", "Per-stream pipelines keep streams apart and return what was written",
 "For any order in which streams are first used, each stream's buffer yields exactly the bytes written to that stream since its last fetch, unaffected by the other streams; the pending size of a stream equals the bytes written and not yet fetched, and discarding a frame affects only that stream. The single-buffer pipeline likewise returns exactly the bytes written since its last fetch, less any that were taken back.",
 ["histories"], "All interleavings of writes, fetches, discards and pending-size queries on up to 5 stream indexes in any first-use order and of both media types.",
 "No test covers either pipeline; a first use out of index order or a query before any write is enough to reach untested code.",
 ["streams_buffer.go", "direct_pipeline.go", "data_pipeline.go"],
 [("findOrCreateStreamBuffer", "streams_buffer.go"), ("DirectDataPipeline.Write/Fetch/Seek", "direct_pipeline.go")])

prop("C09", "Queue, ring and list behave as the sequences they stand for",
 "The queue is an unbounded double-ended sequence, the ring a bounded one that drops its oldest element when full, and the list an append-only sequence with removal by position: every read, removal, size, emptiness, capacity and content snapshot agrees with that model after any history. Accessing or removing an element that does not exist is refused by a panic or an empty value and never corrupts the container.",
 ["histories", "configurations"], "All operation sequences over all small capacities, including those that wrap, grow while wrapped, empty and refill.",
 "Each existing test prints one fixed sequence and asserts almost nothing.",
 ["collections/queue.go", "collections/ring_buffer.go", "collections/linked_list.go"],
 [("Queue.Push growth", "collections/queue.go"), ("ringBuffer.Data", "collections/ring_buffer.go"), ("LinkedList.Remove", "collections/linked_list.go")])

prop("C10", "Reference counting releases shared data exactly once under any schedule",
 "However many goroutines take and drop references to the same data, exactly one drop reports that it was the last one, it is the one that happens after all others, and the count is exact whenever it is observed at rest. Data may be read by every holder of a reference until that point.",
 ["schedules", "histories"], "All interleavings of take/drop/use-count/read over several goroutines, with balanced totals.",
 "The existing test is sequential; a lost update needs two goroutines at the counter at once.",
 ["collections/reference_counter.go"], [("atomic counter", "collections/reference_counter.go")])

prop("C11", "Bit-level reads and writes touch exactly the addressed bits",
 "Writing a value of n bits at any bit position and reading n bits there returns the value's low n bits, and no other bit of the buffer changes. Reading or writing across the end of the buffer affects or returns only the bits inside it and never fails abruptly; the cursor forms advance by exactly the bits asked for, including skips and aligned byte runs that lie inside the buffer.",
 ["inputs", "histories"], "All buffers, bit offsets, widths 0-64 and values, including offsets at and past the end, and all cursor sequences.",
 "The one test covers a single buffer at a few fixed offsets.", ["bufio/bits_reader.go", "bufio/bits_writer.go"],
 [("ReadBits", "bufio/bits_reader.go"), ("WriteBits", "bufio/bits_writer.go")])

prop("C12", "Byte cursors are bounds-checked big-endian views that never move on error",
 "A byte reader or writer delivers or stores big-endian integers and byte runs at its position and advances by exactly that many bytes; a request that does not fit, in either direction and of any size including negative ones, returns an error, changes neither the position nor the data, and never fails abruptly. Offset, remaining and written views always agree with the position.",
 ["histories", "inputs"], "All sequences of typed reads/writes, seeks in both directions, resets and clears with arbitrary (negative, huge) sizes over buffers of any length.",
 "No test covers the cursors' error behaviour; the parsers of every configuration record rely on it.",
 ["bufio/bytes_buffer.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go", "bufio/util.go"],
 [("peekN", "bufio/bytes_buffer.go")])

prop("C13", "Exp-Golomb and fixed-width bit decoding return the encoded values",
 "For any sequence of unsigned and signed Exp-Golomb codes (of up to 32 leading zeros) and fixed-width fields, decoding returns exactly the values that were encoded, negative ones in two's complement, consuming exactly their bits. How the underlying reader hands out its bytes makes no difference. When the input ends inside a field an error is returned.",
 ["inputs", "histories"], "All field sequences with unsigned values up to 2^33-2, signed values in (-2^32, 2^32), fixed widths up to 64, and truncation at every byte.",
 "No test covers the decoder; a sign error shows only for negative codes and only shifts later fields' meaning.",
 ["bufio/golomb_reader.go"], [("ReadExponentialGolombCode, ReadSE", "bufio/golomb_reader.go")])

prop("C14", "NAL unit scanning finds every unit at its exact boundaries",
 "Start-code search returns the first start code of any byte string, its exact position and whether it is 3 or 4 bytes long, or reports that there is none. Splitting a start-code-delimited stream yields its units in order and loses or duplicates no byte, and extracting the parameter sets from a key frame returns the last unit of each kind behind a 4-byte start code, or an error if one kind is missing.",
 ["inputs"], "All byte strings, in particular those dense in 0, 1, 2 and 3 bytes, truncated at any place, and all NAL sequences with mixed 3/4-byte start codes.",
 "No test checks the scanner; its skip table misbehaves only on particular byte patterns at particular alignments.",
 ["avc/util.go", "hevc/util.go"],
 [("FindStartCode", "avc/util.go"), ("SplitNalU, RemoveStartCode, ParseExtraDataFromKeyNALU", "avc/util.go, hevc/util.go")])

prop("C15", "Start-code and length-prefixed framing convert into each other losslessly",
 "Converting a sequence of NAL units from start-code to length-prefixed framing and back yields the same units in the same order and no empty ones, whatever the start-code lengths, unit sizes, prefix length (HEVC) or unit contents (the H.264 back-conversion into a plain buffer drops SEI units by design). Parameter sets supplied for insertion appear exactly once, directly before the first random-access unit, and for H.264 only if none were in the stream before it. Truncated length-prefixed input yields only the complete leading units (H.264) or an error (HEVC), never garbage.",
 ["inputs", "configurations"], "All NAL sequences of both codecs with valid escaping, sizes from 1 byte to beyond 64 KiB, mixed start codes, prefix lengths 1-4, with and without extra data, truncated anywhere.",
 "No test converts a frame; errors depend on particular leading bytes, repeated slices or unit counts.",
 ["avc/util.go", "hevc/util.go"],
 [("AnnexB2AVCC, AVCC2AnnexB, Mp4ToAnnexB", "avc/util.go"), ("Mp4ToAnnexB", "hevc/util.go")])

prop("C16", "Packet format conversion is complete, cached and leaves the source intact",
 "Converting a video packet to start-code framing yields all its units (H.264 SEI excepted when re-framed), preceded for key frames by the stream's parameter sets unless the frame already begins with them; converting to length-prefixed framing yields all its units. The result is the same on every call, does not depend on the contents of a caller-supplied buffer, is never truncated however many units there are, and the packet's own payload is never modified. Packets of other codecs, or already in the target framing, are returned as they are.",
 ["inputs", "histories"], "All H.264/H.265 frames in both framings, key or not, with and without codec parameters and custom allocators, with up to thousands of tiny units, converted repeatedly.",
 "No test converts a packet; buffer sizing fails only for frames with many small units.",
 ["packet_utils.go", "av_packet.go", "codec_paraments.go"],
 [("AVCCPacket2AnnexB, AnnexBPacket2AVCC", "packet_utils.go")], state=[("dataAVCC/dataAnnexB", "cached conversions", "av_packet.go")])

prop("C17", "Key-frame detection agrees with the first coded slice of the access unit",
 "A start-code-delimited H.264 access unit is reported as a key frame exactly when an IDR slice occurs with only parameter sets, SEI or delimiters before it; an H.265 one exactly when a random-access slice (types 16-23) occurs with only parameter sets, SEI or delimiters before it. Data without any unit, and codecs other than these two, are never key frames.",
 ["inputs"], "All NAL type sequences with arbitrary payloads and start codes, and arbitrary bytes.",
 "Not tested; every type and prefix order is a separate case.",
 ["avc/util.go", "hevc/util.go", "packet_utils.go"], [("IsKeyFrame", "avc/util.go, hevc/util.go, packet_utils.go")])

prop("C18", "H.264 decoder configuration records round-trip",
 "Serialising any valid lists of sequence and picture parameter sets yields a standard configuration record that states their profile, compatibility and level, and parsing it returns exactly those sets, each behind a 4-byte start code, and those fields, whatever the record object held before, without altering the sets it returned before; extracting start-code-delimited extra data from a record yields all sequence sets then all picture sets. Lists that a record cannot hold, and records that are truncated or hold no set, are refused with an error.",
 ["inputs"], "1-31 SPS and 1-255 PPS of any size up to 65535 bytes with 0-, 3- or 4-byte start codes; records from an independent writer with any header fields; truncation at every length.",
 "The existing test parses one record and checks nothing but the absence of an error.",
 ["avc/mp4.go", "avc/util.go", "avc/sps.go", "codec_paraments.go"],
 [("Marshal/Unmarshal/ExtraDataToAnnexB", "avc/mp4.go"), ("M4VCExtraDataToAnnexB", "avc/util.go")])

prop("C19", "H.265 decoder configuration records round-trip",
 "Parsing any valid configuration record returns every header field and exactly the video, sequence and picture parameter sets it holds, in order and behind 4-byte start codes, whatever the order and number of its arrays, whatever other unit types it holds and whatever the record object held before, without altering the sets it returned before. Serialising such lists yields a record that parses back to them and states the profile, tier, level, chroma format, sample depths and layers of the sequence parameter set; extracted extra data is all video, then sequence, then picture sets; lists that a record cannot hold and truncated or incomplete records are refused with an error.",
 ["inputs"], "1-8 sets of each kind in any array order, split arrays, foreign arrays, any header field values, sizes up to 65535 bytes, truncation at every length.",
 "The existing test parses one record with one set of each kind in the usual order.",
 ["hevc/mp4.go", "hevc/sps.go", "codec_paraments.go"], [("Marshal/Unmarshal/ExtraDataToAnnexB", "hevc/mp4.go")])

prop("C20", "H.264 sequence parameter sets decode to the right geometry and rate",
 "For any valid H.264 sequence parameter set the reported profile, level, id, macroblock size, cropping, displayed width and height and frame rate are those that were encoded, for every profile, chroma format, scaling-list, picture-order and interlacing option, with emulation-prevention bytes wherever they are required and with any start code. A set cut off before its picture size is refused with an error.",
 ["inputs", "configurations"], "All syntactically valid SPS over the syntax elements of the standard up to timing information, encoded by an independent bit writer.",
 "No test parses an SPS field; most options (field coding, 4:4:4, scaling lists, escaping) never occur in a handful of samples.",
 ["avc/sps.go", "bufio/golomb_reader.go"], [("ParseSPS", "avc/sps.go")])

prop("C21", "H.265 sequence parameter sets decode to the displayed size",
 "For any valid H.265 sequence parameter set the reported coded size and the displayed width and height (after the conformance window, in units of the chroma format) are those encoded, for every number of sub-layers with any profile/level presence, chroma format and bit depth, with emulation-prevention bytes wherever required and any start code. A set cut off before its picture size is refused with an error.",
 ["inputs", "configurations"], "All syntactically valid SPS prefixes (1-7 sub-layers), encoded by an independent bit writer.",
 "No test parses an HEVC SPS; sub-layer and window handling never occur in a handful of samples.",
 ["hevc/sps.go", "bufio/golomb_reader.go"], [("ParseSPS, parsePTL", "hevc/sps.go")])

prop("C22", "AAC headers and configurations convert consistently",
 "Building an ADTS header from valid fields and reading it back returns those fields, and every field of a header from an independent writer is read correctly; the audio configuration derived from it has the same object type, sampling rate and channel configuration, and parsing it gives the standard rate and channel count; object types beyond 31 and rates written out in a configuration are read as they are. Sampling rate and index lookups are inverse to each other over the standard rates and report anything else as unknown, and data without a valid header is refused with an error.",
 ["inputs"], "All field combinations of both headers, frame lengths 0-8191, all 13 rates and 8 channel layouts, and arbitrary short data.",
 "Not tested; fields overlap byte borders and each combination is a separate case.",
 ["utils/aac_util.go", "video_stream.go"], [("SetADtsHeader, ReadADtsFixedHeader, ADtsHeader2MpegAudioConfigData, ParseMpeg4AudioConfig, GetSampleRateIndex", "utils/aac_util.go")])

prop("C23", "No input bytes make a parser crash, hang or modify its input",
 "For arbitrary bytes, every parser and every demuxer entry point that accepts stream data returns a value or an error within bounded time: it never crashes, never loops forever, never allocates out of proportion and never modifies the bytes it was given. A malformed frame does not stop well-formed frames that follow from being delivered.",
 ["inputs", "fault_sequences"], "Arbitrary, truncated and mutated bytes (from valid parameter sets, records, frames, headers) given to each parser, conversion and demuxer entry point.",
 "The existing tests use one well-formed sample per format.",
 ["avc/util.go", "avc/mp4.go", "avc/sps.go", "hevc/util.go", "hevc/mp4.go", "hevc/sps.go", "utils/aac_util.go", "video_stream.go", "demuxer.go", "packet_utils.go", "codec_paraments.go"],
 [("length checks of each parser", "avc, hevc, utils, video_stream.go")])

prop("C24", "Timestamp conversion is exact",
 "Converting a timestamp or duration between timebases gives the exact rational value truncated toward zero, for every timestamp and timebase whose result is representable: no drift at large values, order is preserved, equal timebases change nothing, and decode time, presentation time, duration and their difference are all converted by the same rule.",
 ["inputs"], "All 64-bit timestamps (negative, zero, past 2^53) and all positive timebases up to 10^9 with representable results.",
 "Not tested; rounding errors occur at isolated values.", ["packet_utils.go", "av_packet.go"],
 [("ConvertTs", "packet_utils.go"), ("ConvertDts, ConvertPts, GetDuration, GetPtsDtsDelta", "av_packet.go")])

prop("C25", "Recycled packets carry nothing over from their previous life",
 "A packet obtained after others were released has exactly the fields it was created with and default values everywhere else: no payload, cached conversion, allocator, timestamp, flag or identity of a released packet is ever visible in it. Two packets in use are never the same object.",
 ["histories", "schedules"], "All histories of creating, converting, modifying and releasing audio and video packets, sequential and from several goroutines.",
 "Not tested; the leak shows only when a recycled packet takes a path its first life did not.",
 ["av_packet.go", "packet_utils.go"], [("FreePacket resets every field", "av_packet.go"), ("NewAudioPacket/NewVideoPacket", "av_packet.go")])

prop("C26", "Independent instances work concurrently without interfering",
 "Demuxers, buffers, packets and parsers that share no object may be used from different goroutines at the same time without data races, and each produces exactly what it produces when used alone; announced tracks and delivered packets may be read concurrently.",
 ["schedules", "histories"], "Random schedules of several goroutines each running its own generated demux and conversion scenario, under the race detector, with results compared with a sequential run.",
 "No existing test starts a goroutine; the packet pool and package-level tables are the only shared state.",
 ["av_packet.go", "demuxer.go", "utils/aac_util.go", "packet_utils.go"], [("PacketPool (sync.Pool)", "av_packet.go")])

prop("C27", "The dump handler writes each track's elementary stream to its own file",
 "Dumping a demuxed session writes, for every track, one file named after media type, index and codec whose contents are the delivered payloads in delivery order, video in start-code framing with parameter sets ahead of key frames; nothing left in an older file of the same name survives in it, and its owner can read it.",
 ["histories", "inputs"], "All generated sessions of one or more audio/video tracks of either packing, into fresh or already existing files.",
 "Not tested; stale bytes remain only when an older, longer dump exists.",
 ["handler.go", "packet_utils.go"], [("OnNewTrack opens the file, OnPacket appends", "handler.go")])

prop("C28", "Track and buffer registries give stable, unique, findable entries",
 "A muxer accepts at most one track per media type, refuses others with an error and leaves its track list unchanged, and returns consecutive indexes that retrieve the track just added; lookups by codec, media type or index return the first matching track or none. Buffer indexes handed out for stream markers are consecutive, distinct for distinct markers and stable.",
 ["histories"], "All sequences of track additions and lookups over all media types and codecs, and all marker sequences.",
 "Not tested.", ["muxer.go", "tracks.go", "demuxer.go", "utils/codec_id.go"],
 [("BaseMuxer.AddTrack", "muxer.go"), ("TrackManager", "tracks.go"), ("FindBufferIndex", "demuxer.go")])

prop("C29", "Random identifiers are well-formed and never repeat; integers stay in range",
 "A random identifier has exactly the requested length and only letters and digits, any of them anywhere, and an identifier of reasonable length is never handed out twice within a process, no matter how many callers ask at the same time, and they do not race. A random integer lies within the inclusive range asked for, whatever its width, every value of the range can come, and a range the wrong way round is refused by a panic.",
 ["inputs", "schedules"], "All lengths, all ranges including those wider than an int, any number of sequential and concurrent calls.",
 "Not tested; repetition needs two callers in the same clock tick, overflow a wide range.", ["utils/random_util.go"],
 [("RandStringBytes", "utils/random_util.go"), ("RandomIntInRange", "utils/random_util.go")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = len([s for s in p["statement"].replace("e.g.", "").split(". ") if s])
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
