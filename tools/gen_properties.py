#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/gen_properties.py` to rewrite it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Fixed-width number codecs have the documented layout and are inverse",
  "For every fixed-width integer and float codec (8 to 64 bits, both byte orders, signed and unsigned), encoding a value writes exactly its width in bytes, holding the two's-complement or IEEE-754 representation in the documented byte order. Decoding any byte pattern of that width yields the value with that representation, bit for bit (NaN payloads and negative zero included). Neither depends on which items the same codec instance handled before.",
  ["inputs", "histories"], "every value and byte pattern of every width and byte order, any sequence of items through one instance",
  "The doc tests encode one hand-picked value per codec (palindromic or small), so sign extension, byte order of upper bytes and residue of an earlier item are not reached.",
  ["src/fixnum.rs", "src/bytes.rs"], [("encode_item/decode_item", "src/fixnum.rs"), ("CopyableBytesDecoder", "src/bytes.rs")],
  [("bytes/offset", "the partial number", "src/bytes.rs CopyableBytesDecoder")], ["EncodeExt::encode_into_bytes", "Decode::decode"])

prop("C02", "Numbers that do not fit a 24/40/48/56-bit field are refused, never truncated",
  "Starting to encode a value that does not fit the 24-, 40-, 48- or 56-bit field of its codec fails with InvalidInput, writes no byte and leaves the encoder idle and fit for the next item. Every value that fits is accepted.",
  ["inputs", "histories"], "every value of the wider host integer type, at any position in a history of accepted and refused items",
  "Existing tests never pass an out-of-range value to these encoders.",
  ["src/fixnum.rs"], [("track_assert!(n <= MAX) in encode_item", "src/fixnum.rs")], [], ["Encode::start_encoding"])

prop("C03", "Decoding does not depend on how the input is fragmented",
  "For any composition of the crate's decoders and any byte stream, feeding the stream in any division into chunks (empty chunks included, end of stream signalled together with the last chunk or in a later empty call, distance to the end given exactly or as unknown) yields the same item from the same bytes, equal to what the composition means for the whole stream, or fails in every division. Each call consumes as many bytes as possible, and none beyond the item.",
  ["inputs", "programs", "schedules"], "every decoder composition over its documented domain, every byte stream, every division into decode calls and every truthful way to describe the distance to the end",
  "Tests feed one contiguous buffer, or one hand-picked split, to a dozen fixed decoders.",
  ["src/decode.rs", "src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/padding.rs", "src/monolithic.rs", "src/macros.rs"],
  [("bytecodec_try_decode!", "src/macros.rs"), ("per-decoder offsets and item slots", "src/bytes.rs, src/combinator.rs")],
  [("offset / remaining_bytes / remaining_items / items / eos / started", "suspended decoding state", "src/bytes.rs, src/combinator.rs")], ["Decode::decode", "Decode::finish_decoding"])

prop("C04", "Encoded bytes do not depend on how the output is buffered",
  "For any composition of the crate's encoders and any item, draining the encoder through output buffers of any sizes (zero included) produces the same byte sequence, equal to the composition's meaning. Each call fills as much of the buffer as the item has bytes left, and the encoder is idle exactly when every byte has been handed out.",
  ["inputs", "programs", "schedules"], "every encoder composition over its documented domain, every item, every sequence of output buffer sizes",
  "Tests drain encoders through one buffer large enough for the whole item.",
  ["src/encode.rs", "src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/padding.rs", "src/monolithic.rs", "src/macros.rs"],
  [("bytecodec_try_encode!", "src/macros.rs"), ("BytesEncoder offset", "src/bytes.rs"), ("WriterChain", "src/monolithic.rs")],
  [("offset / items / pre_encoded / extra buffer", "bytes not yet handed out", "src/bytes.rs, src/combinator.rs, src/monolithic.rs")], ["Encode::encode", "Encode::is_idle"])

prop("C05", "A composed codec round-trips every item, back to back, on one instance",
  "For every matching pair of composed encoder and decoder, decoding the encoding of a sequence of items yields exactly these items, in order, with nothing left over, using a single encoder instance and a single decoder instance. This holds whatever the sizes of the buffers and chunks in between.",
  ["inputs", "programs", "histories"], "every matching codec composition, every sequence of items, every buffering and chunking",
  "Round trips are tested for JSON and bincode with one item each; no composed pair and no instance reuse across many items.",
  ["src/combinator.rs", "src/tuple.rs", "src/bytes.rs", "src/fixnum.rs", "src/json_codec.rs"],
  [("finish_decoding resets the decoder", "src/*.rs"), ("start_encoding on an idle encoder", "src/*.rs")], [], ["Encode::encode", "Decode::decode"])

prop("C06", "The number of bytes an encoder says it needs is the number it writes",
  "At every point of encoding a valid item, if an encoder reports a finite number of required bytes (or, for size-knowing encoders, its exact number), it goes on to write exactly that many bytes before it is idle. An idle encoder reports zero.",
  ["inputs", "programs", "schedules"], "every encoder composition, item and point between two encode calls",
  "Tests never compare reported sizes with bytes produced, beyond one doc test.",
  ["src/encode.rs", "src/combinator.rs", "src/bytes.rs", "src/fixnum.rs", "src/tuple.rs", "src/monolithic.rs"],
  [("requiring_bytes / exact_requiring_bytes", "src/*.rs"), ("ByteCount::add_for_encoding", "src/byte_count.rs")], [], ["Encode::requiring_bytes", "SizedEncode::exact_requiring_bytes"])

prop("C07", "A busy encoder refuses a new item undisturbed; a refused item leaves no bytes",
  "An idle encoder accepts every valid item; an encoder that still has bytes of an item to write refuses another with EncoderFull and then writes exactly the bytes it would have written without the attempt. An item refused as invalid contributes no byte to the output, and the next valid item is encoded as if it had never been offered.",
  ["inputs", "programs", "histories"], "every encoder composition and every interleaving of start attempts with partial encode calls",
  "Tests never offer an item to a busy encoder and rarely reuse one after a refusal.",
  ["src/encode.rs", "src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs"],
  [("track_assert!(self.is_idle(), ErrorKind::EncoderFull)", "src/*.rs start_encoding")], [], ["Encode::start_encoding", "Encode::encode"])

prop("C08", "A decoded item is held, yielded once, and not lost by finishing too early",
  "A decoder that reports an item as complete consumes no further bytes until the item is taken, and taking it yields it exactly once; the decoder then starts the next item from a clean state. Taking an item before it is complete fails with IncompleteDecoding and does not disturb the item in progress: the rest of its bytes complete it.",
  ["inputs", "programs", "histories"], "every decoder composition and every interleaving of decode calls and premature or repeated finish calls",
  "Tests call finish once, at the right moment.",
  ["src/decode.rs", "src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/padding.rs", "src/monolithic.rs"],
  [("track_assert!(.., ErrorKind::IncompleteDecoding)", "src/*.rs finish_decoding")], [("item / inner1 / started / consumed_bytes", "state reset by finish_decoding", "src/combinator.rs")], ["Decode::finish_decoding", "Decode::is_idle"])

prop("C09", "The byte count a decoder asks for is a true lower bound",
  "Whenever a decoder reports that it needs a finite number of bytes for the item in progress, no valid item completes with fewer further bytes unless the end of the stream is signalled; a decoder that reports an infinite need completes only at the end of the stream. Once an item is complete the decoder reports zero, and it reports completion in the very call that consumed the item's last byte.",
  ["inputs", "programs", "schedules"], "every decoder composition, stream and chunking, at every point between two calls",
  "Only doc tests of three leaf decoders read the reported need.",
  ["src/decode.rs", "src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/byte_count.rs"],
  [("requiring_bytes", "src/*.rs"), ("ByteCount::add_for_decoding", "src/byte_count.rs")], [], ["Decode::requiring_bytes", "Decode::is_idle"])

prop("C10", "A stream that ends inside an item is always reported as UnexpectedEos",
  "If the input ends before an item is complete (an item that by definition extends to the end of its stream is complete there), decoding fails with UnexpectedEos: no item is produced, no partial item is dropped in silence, and no call returns success for ever. This holds at every cut position, for every decoder composition, and however the end is signalled (with the last bytes, in a separate empty call, or by the known distance to the end).",
  ["inputs", "programs", "crash_points"], "every proper prefix of every valid stream of every composition, every chunking and every way of signalling the end",
  "Tests truncate three fixed streams in one call.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/io.rs", "src/json_codec.rs"],
  [("track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos)", "src/bytes.rs, src/combinator.rs")], [], ["Decode::decode", "IoDecodeExt::decode_exact"])

prop("C11", "Output that ends inside an item is an error, never a silent truncation",
  "If the end of the output stream is signalled to an encoder while bytes of its item remain after the buffer is filled, the call fails with UnexpectedEos, for every encoder composition, item and position. An encoder whose remaining bytes fit succeeds although the end is signalled.",
  ["inputs", "programs", "crash_points"], "every encoder composition, every item, every position of the end of the output",
  "One doc test (a one-byte encoder with an empty buffer) exercises this.",
  ["src/bytes.rs", "src/combinator.rs", "src/monolithic.rs", "src/tuple.rs"],
  [("track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos)", "src/bytes.rs, src/combinator.rs, src/monolithic.rs")], [], ["Encode::encode"])

prop("C12", "A length-bounded decoder consumes exactly the declared number of bytes",
  "A decoder bounded to n bytes shows its inner decoder exactly the next n bytes of the stream as a stream of its own that ends there, consumes exactly n bytes for every item it yields, and leaves what follows untouched. An inner item that is complete before n bytes, or needs more than n, is an error; a stream known to end before n bytes is UnexpectedEos.",
  ["inputs", "programs", "histories"], "every n (zero and huge included), inner decoder, stream, chunking and knowledge of the distance to the end, over repeated items",
  "One test splits one string in two; no oversized, undersized or truncated inner items under chunking.",
  ["src/combinator.rs"], [("Length::decode", "src/combinator.rs")], [("remaining_bytes", "bytes left in the window", "src/combinator.rs Length")], ["DecodeExt::length"])

prop("C13", "A length-bounded encoder writes exactly the declared bytes per item, or fails",
  "An encoder bounded to n bytes writes exactly n bytes for every item it completes, equal to the inner encoding, and fails with UnexpectedEos for an item that is longer and InvalidInput for one that is shorter. A fresh one is idle and needs no bytes, and after each completed item it is idle and accepts another.",
  ["inputs", "programs", "histories"], "every n, inner encoder, item, output buffering, and sequence of items on one instance",
  "The doc test encodes one item per instance in one large buffer.",
  ["src/combinator.rs"], [("Length::encode/start_encoding", "src/combinator.rs")], [("remaining_bytes", "bytes still to be written", "src/combinator.rs Length")], ["EncodeExt::length"])

prop("C14", "A byte limit is enforced exactly, per item, in both directions",
  "With a limit of n bytes, an item of at most n bytes encodes or decodes as if there were no limit, and an item of more than n bytes fails with InvalidInput, no matter how it is divided into calls. The count starts afresh for every item, and a decoder told that more than n bytes remain (or infinitely many) fails at once.",
  ["inputs", "schedules", "histories"], "every limit around the item size, every division, any number of items per instance, every form of end-of-stream knowledge",
  "Two doc tests use one item below and one above the limit, in one call.",
  ["src/combinator.rs"], [("MaxBytes", "src/combinator.rs")], [("consumed_bytes", "bytes of the current item so far", "src/combinator.rs MaxBytes")], ["DecodeExt::max_bytes", "EncodeExt::max_bytes"])

prop("C15", "Collecting decoders gather every item exactly once, in order",
  "Collecting until the end of the stream yields all items of the stream, in order, none dropped or repeated, and succeeds only if the stream ends at an item boundary; collecting n items yields exactly the first n and consumes no byte beyond them. Neither depends on chunk boundaries.",
  ["inputs", "programs", "schedules"], "every item decoder, item count, stream and chunking, repeated collections on one instance where it is reusable",
  "Tests collect bytes from one contiguous buffer; no multi-byte items, truncation or chunk boundary inside an item.",
  ["src/combinator.rs"], [("Collect::decode, CollectN::decode", "src/combinator.rs")], [("items / remaining_items", "gathered so far", "src/combinator.rs")], ["DecodeExt::collect", "DecodeExt::collectn"])

prop("C16", "Mapping, branching and omitting change the item and nothing else",
  "Mapping, fallible mapping and error mapping of a decoder apply the given function exactly once to each decoded item or error and change neither bytes consumed nor completion; a fallible mapping's error surfaces with its own kind and the next item decodes normally. Conditional decoding decodes the first item, calls the function once with it, then decodes with the decoder it returned from the very next byte, afresh for every item; an omitting decoder yields None and consumes nothing, otherwise the inner item.",
  ["inputs", "programs", "histories"], "every inner decoder, function, stream and chunking, over many items on one instance",
  "Doc tests decode one item each in one call.",
  ["src/combinator.rs", "src/tuple.rs"], [("Map, TryMap, MapErr, AndThen, Omittable", "src/combinator.rs")], [("inner1", "the second decoder", "src/combinator.rs AndThen")], ["DecodeExt::map", "try_map", "and_then", "omit"])

prop("C17", "Slicing multiplexes and demultiplexes streams byte-exactly",
  "A sliced codec consumes or produces at most the currently granted number of bytes, decreases the grant by exactly what it used, suspends at zero and resumes when granted more. Several streams interleaved by any schedule of grants come out of the matching schedule unchanged, and the inner codec is told the end of stream only when no byte is withheld from it.",
  ["inputs", "schedules"], "every set of inner codecs, every schedule of grants and chunk sizes",
  "One doc test interleaves two three-byte strings one byte at a time.",
  ["src/combinator.rs", "src/eos.rs"], [("Slice::decode/encode", "src/combinator.rs"), ("Eos::back", "src/eos.rs")], [("consumable_bytes", "the grant", "src/combinator.rs Slice")], ["DecodeExt::slice", "EncodeExt::slice"])

prop("C18", "An EOS-tolerant decoder forgives the end of stream exactly between items",
  "With the tolerant wrapper, an end of stream that arrives with no bytes and before the first byte of an item is not an error and the decoder stays usable; an end that arrives after at least one byte of an incomplete item is UnexpectedEos. This is decided afresh for every item, and items and consumption are those of the inner decoder.",
  ["inputs", "histories", "schedules"], "every inner decoder, any history of complete items, empty calls and end signals",
  "One doc test: three calls on a fresh decoder.",
  ["src/combinator.rs"], [("MaybeEos::decode/finish_decoding", "src/combinator.rs")], [("started", "an item is in progress", "src/combinator.rs MaybeEos")], ["DecodeExt::maybe_eos"])

prop("C19", "Peeking shows the item that will be taken, without disturbing decoding",
  "A peekable decoder shows nothing until its item is complete, then shows exactly the item (changes made through the mutable view included) that the next take yields, and shows nothing again afterwards. Items and consumption are those of the inner decoder, for any number of items, and an item being shown is never overwritten by later calls.",
  ["inputs", "histories", "schedules"], "every inner decoder, stream and chunking, any interleaving of peek, decode and take",
  "One doc test peeks one tuple once.",
  ["src/combinator.rs"], [("Peekable", "src/combinator.rs")], [("item", "the completed item", "src/combinator.rs Peekable")], ["DecodeExt::peekable"])

prop("C20", "Encoder combinators emit exactly the concatenation of their items' encodings",
  "Repeating, optional, pre-encoding, one-more-item, chaining and (fallible) item-mapping encoders emit exactly the inner encodings of the items they were given, once each, in order, empty encodings and empty sequences included, and nothing for an absent item. A fallible conversion that fails is reported with its own error kind and emits nothing.",
  ["inputs", "programs", "schedules"], "every inner encoder, item sequence (including items that encode to zero bytes) and output buffering, over many rounds on one instance",
  "Doc tests use non-empty items and one buffer.",
  ["src/combinator.rs", "src/encode.rs", "src/tuple.rs"], [("Repeat, Optional, PreEncode, Last, MapFrom, TryMapFrom", "src/combinator.rs")], [("items / item / pre_encoded", "what is still to be encoded", "src/combinator.rs")], ["EncodeExt::repeat", "optional", "pre_encode", "last", "map_from", "try_map_from", "chain"])

prop("C21", "Padding fills or checks everything up to the end; null touches nothing",
  "A padding encoder fills every byte it is offered with its byte until the end of the output is signalled and is then idle; a padding decoder consumes everything up to the end of the stream, completes exactly there, and fails with InvalidInput if any byte differs from the expected one, wherever it is. The null codecs consume and produce no byte, are always idle, and always succeed.",
  ["inputs", "schedules", "histories"], "every padding byte, expectation, length, position of a wrong byte, chunking, reuse and change of the expected byte",
  "Tests use 8 equal bytes in one call.",
  ["src/padding.rs", "src/null.rs"], [("PaddingEncoder, PaddingDecoder, NullEncoder, NullDecoder", "src/padding.rs, src/null.rs")], [("padding_byte / eos", "filling or done", "src/padding.rs")], ["Encode::encode", "Decode::decode"])

prop("C22", "Byte and UTF-8 leaf codecs are faithful, and UTF-8 is validated exactly",
  "Byte-sequence encoders and decoders (fixed-size, one-shot, to end of stream) transfer precisely the given bytes, in order and in the right number. The UTF-8 decoder yields the string for every valid UTF-8 sequence and InvalidInput for every other, no matter where chunks split a character, and stays usable after an error; a one-shot byte decoder fails with DecoderTerminated once used up, until it is given a new buffer.",
  ["inputs", "schedules", "histories"], "every byte sequence (valid and nearly valid UTF-8 in particular), buffer type, chunking and reuse",
  "Tests decode ASCII words from one buffer.",
  ["src/bytes.rs"], [("BytesEncoder, BytesDecoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Encoder, Utf8Decoder", "src/bytes.rs")], [("bytes/offset", "transferred so far", "src/bytes.rs")], ["Encode::encode", "Decode::decode"])

prop("C23", "JSON, bincode and monolithic codecs agree with their serializer on whole items",
  "The JSON and bincode encoders emit exactly the bytes their serializer produces for the item, and the decoders yield exactly the value it reads from the whole stream, or fail whenever it fails, however the bytes are divided into calls. The same holds for any user-supplied whole-item codec: it is run once per item over precisely the item's bytes.",
  ["inputs", "schedules", "histories"], "every JSON value or bincode structure, valid and corrupted text, every chunking and buffering, many items per instance",
  "Tests encode and decode one item in one call.",
  ["src/monolithic.rs", "src/json_codec.rs", "src/bincode_codec.rs"], [("MonolithicDecoder, MonolithicEncoder, WriterChain", "src/monolithic.rs")], [("buf / item", "gathered input, spilled output", "src/monolithic.rs")], ["Decode::decode", "Encode::encode"])

prop("C24", "Blocking decode reads exactly the item's bytes and always terminates",
  "Decoding one item from a blocking reader yields the item the stream holds and takes from the reader no byte beyond it, however short the reader's answers are, so that back-to-back items can be decoded from one reader. A stream that ends early is UnexpectedEos (never an endless loop), a reader error is returned, and decoding can be resumed after a temporary error without losing or repeating a byte.",
  ["inputs", "programs", "fault_sequences"], "every decoder composition, stream, schedule of short reads and injected reader errors, items larger than internal buffers",
  "Tests read from an in-memory slice that answers every read in full.",
  ["src/io.rs", "src/decode.rs"], [("IoDecodeExt::decode_exact", "src/io.rs")], [], ["IoDecodeExt::decode_exact"])

prop("C25", "Whole-item helpers write and read the complete item or report failure",
  "Encoding everything to a blocking writer, or into a byte vector, outputs exactly the encoder's complete byte sequence however short the writer's answers are, and reports every writer error and every encoder that cannot make progress. Decoding from a byte slice succeeds only if the item is complete and the slice is used up exactly; leftover bytes are InvalidInput and missing ones UnexpectedEos.",
  ["inputs", "programs", "fault_sequences"], "every encoder and decoder composition, item, schedule of short writes and writer errors, items larger than internal buffers",
  "Tests write small items to a Vec.",
  ["src/io.rs", "src/encode.rs", "src/decode.rs"], [("encode_all, encode_into_bytes, decode_from_bytes", "src/io.rs, src/encode.rs, src/decode.rs")], [], ["IoEncodeExt::encode_all", "EncodeExt::encode_into_bytes", "DecodeExt::decode_from_bytes"])

prop("C26", "A read buffer is a lossless FIFO between its reader and its consumer",
  "Through any history of fills (short, blocked, failed, ended), reads and decodes, the bytes taken out of a read buffer are exactly the bytes the reader delivered, in order, none lost, repeated or invented. Its length is the number of bytes delivered and not yet taken, length plus room never exceeds capacity, filling goes on until the buffer is full or the reader blocks, ends or fails, and the stream state reports the last such outcome.",
  ["histories", "fault_sequences", "inputs"], "every history of fill, read and decode operations, every capacity (zero included) and scripted reader",
  "One test performs one fill and one read.",
  ["src/io.rs"], [("ReadBuf::fill, Read for ReadBuf, decode_from_read_buf", "src/io.rs")], [("head/tail/stream_state", "unread window", "src/io.rs ReadBuf")], ["ReadBuf"])

prop("C27", "A write buffer is a lossless FIFO between its producer and its writer",
  "Through any history of encodes, writes and flushes (short, blocked, failed, ended), the bytes the writer accepts are exactly the bytes put into the write buffer, in order, none lost, repeated or invented. Its length is the number of bytes put in and not yet flushed, length plus room never exceeds capacity, flushing goes on until the buffer is empty or the writer blocks, ends or fails, and the stream state reports the last such outcome.",
  ["histories", "fault_sequences", "inputs"], "every history of encode, write and flush operations, every capacity (zero included) and scripted writer",
  "One test performs one write and one flush.",
  ["src/io.rs"], [("WriteBuf::flush, Write for WriteBuf, encode_to_write_buf", "src/io.rs")], [("head/tail/stream_state", "unflushed window", "src/io.rs WriteBuf")], ["WriteBuf"])

prop("C28", "A buffered stream moves bytes faithfully both ways and reports its status truly",
  "Driving a buffered stream by repeated I/O rounds transfers every incoming byte to the decoder and every encoded byte to the peer, in order, for any pattern of short, blocked, failed or ended operations. It reports end of stream exactly when either direction's last operation ended, and would-block exactly when neither direction could make progress (input blocked, and output empty or blocked).",
  ["histories", "fault_sequences", "schedules"], "every script of read and write outcomes, buffer sizes, decoders and encoders",
  "Only a doc example runs it once, against an in-memory stream.",
  ["src/io.rs"], [("BufferedIo::execute_io, is_eos, would_block", "src/io.rs")], [("rbuf/wbuf", "the two buffers", "src/io.rs BufferedIo")], ["BufferedIo"])

prop("C29", "Asynchronous buffering does what blocking-free synchronous buffering does",
  "For every script of reader and writer outcomes, the polling versions of fill, flush and I/O rounds transfer the same bytes and leave the same buffer contents and stream state as the synchronous versions do, with Pending in the place of would-block. They return Pending only if the underlying stream did (so that a wake-up is registered), a combined round is Pending only if both directions are, and errors of either direction are returned.",
  ["histories", "fault_sequences", "schedules"], "every script of poll outcomes, buffer size and history of operations",
  "No existing test runs any polling function.",
  ["src/io_async.rs", "src/io.rs"], [("poll_fill, poll_flush, execute_io_poll", "src/io_async.rs")], [("stream_state", "last outcome", "src/io.rs")], ["BufferedIo::execute_io_poll"])

prop("C30", "A task waiting for room in a write buffer is woken when room returns",
  "If a task encoded into a write buffer asynchronously and found it full, then the first flush, synchronous or asynchronous, that gives the buffer free space again wakes that task, the most recent one to have waited. No flush that leaves the buffer full wakes it.",
  ["histories", "schedules", "fault_sequences"], "every history of encodes and flushes with partial, blocked or failing writers, several wakers",
  "No existing test uses wakers.",
  ["src/io.rs", "src/io_async.rs"], [("encode_to_write_buf_async, WriteBuf::flush, poll_flush", "src/io.rs, src/io_async.rs")], [("waker", "the waiting task", "src/io.rs WriteBuf")], ["std::task::Waker"])

prop("C31", "Untrusted input can neither crash decoding nor inflate its memory use",
  "For every decoder composition whose parameters (lengths, counts, limits) come from the input, every byte stream leads to an item or an error: no panic, no arithmetic overflow, no endless loop. The memory used stays proportional to the bytes actually received, whatever sizes the input declares.",
  ["inputs", "programs", "schedules"], "every byte stream, with declared lengths and counts up to the maximum of their types, every chunking",
  "Tests never declare a length larger than the data.",
  ["src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/byte_count.rs", "src/eos.rs"], [("Length, RemainingBytesDecoder, ByteCount addition", "src/combinator.rs, src/bytes.rs, src/byte_count.rs")], [], ["Decode::decode", "allocator"])

prop("C32", "Byte-count and end-of-stream arithmetic obeys its documented rules",
  "Adding byte counts for decoding and for encoding follows the documented tables for every combination of finite, infinite and unknown operands, is commutative and associative where the tables are, and never wraps around or panics. Finite counts are ordered by value and below infinity while unknown is below and above nothing; end of stream is reached exactly at a known distance of zero, and moving back by k from a known distance adds k.",
  ["inputs"], "every pair and triple of byte counts over the full 64-bit range, every distance and step whose sum is representable",
  "One test compares a handful of small constants and adds none.",
  ["src/byte_count.rs", "src/eos.rs"], [("add_for_decoding, add_for_encoding, PartialOrd", "src/byte_count.rs"), ("Eos", "src/eos.rs")], [], ["ByteCount", "Eos"])

prop("C33", "Borrowed, boxed and type-erased codecs behave exactly like the codec itself",
  "Using any decoder or encoder (tagged decoders and size-knowing encoders included) through a mutable reference, a box, or a boxed trait object gives the same results, consumption, sizes, idleness, errors and tag handling, call by call, as using it directly.",
  ["programs", "histories"], "every codec, every sequence of trait calls",
  "No test compares a codec with its boxed or borrowed self.",
  ["src/decode.rs", "src/encode.rs"], [("impl .. for &mut D / Box<D>", "src/decode.rs, src/encode.rs")], [], ["Decode", "Encode", "SizedEncode", "TaggedDecode", "TryTaggedDecode"])

prop("C34", "Combinators tell inner codecs the truth about the distance to the end",
  "In every call a combinator makes to an inner decoder or encoder, the end-of-stream information is truthful for the bytes the inner codec may still get: the end is signalled only if none remain, a finite distance is the exact number remaining for it beyond the given buffer, and an end or a distance known to the combinator is not withheld. Combinators that do not bound the stream pass the information on unchanged.",
  ["programs", "schedules"], "every combinator around an observing inner codec, every chunking and form of end-of-stream knowledge",
  "Tests observe only final items, not what inner codecs are told.",
  ["src/combinator.rs", "src/tuple.rs", "src/eos.rs"], [("Eos::back, Eos::with_remaining_bytes in Length and Slice", "src/combinator.rs")], [], ["Decode::decode arguments seen by an inner codec"])

prop("C35", "Errors keep their kind and reach the caller",
  "An error raised by any inner codec, mapping function, reader or writer reaches the caller of any composition around it with its kind unchanged unless an error mapping replaces it, in which case the replacement is what the caller sees, applied exactly once per mapping layer. An I/O error converts to UnexpectedEos if and only if it is an unexpected end of file, otherwise to Other.",
  ["inputs", "programs", "fault_sequences"], "every composition, every error kind raised at any position and in any phase, every I/O error kind",
  "Tests look at the kinds of a few fixed errors.",
  ["src/error.rs", "src/combinator.rs", "src/io.rs", "src/tuple.rs"], [("track!, From<io::Error>", "src/error.rs"), ("MapErr", "src/combinator.rs")], [], ["Error::kind"])

prop("C36", "Tuples and chains of every arity keep their members in order",
  "Tuple decoders and encoders of every supported arity (2 to 8), and chains built from them, handle their members strictly in order: member i's bytes directly follow member i-1's, and item component i belongs to member i. Their size and need reports are the sums over all members, and they are idle exactly when all members are.",
  ["inputs", "programs", "schedules"], "every arity, member codecs, values and chunking, many items per instance",
  "Tests use arity 2 and 3 with single-byte members only.",
  ["src/tuple.rs", "src/decode.rs", "src/encode.rs"], [("impl_decode!, impl_encode!", "src/tuple.rs")], [("inner", "the members", "src/tuple.rs")], ["TupleDecoder", "TupleEncoder"])

prop("C37", "Parameters changed between items apply to the next item, and never mid-item",
  "Changing the declared length of a length-bounded codec, the limit of a limited one, the remaining count of a collector, the expected padding byte or the omit flag takes effect for the item that follows, and the accessors report the parameters and progress truly. A change of declared length while an item is in progress is refused with IncompleteDecoding and a limit below what is already used with InvalidInput, both without disturbing the item.",
  ["histories", "inputs"], "every history of parameter changes, accessor calls and items, every parameter value",
  "No test changes a parameter after construction.",
  ["src/combinator.rs", "src/padding.rs", "src/bytes.rs"], [("set_expected_bytes, set_max_bytes, set_remaining_items, set_expected_byte, do_omit", "src/combinator.rs, src/padding.rs")], [("expected_bytes / max_bytes / consumed_bytes", "parameters and progress", "src/combinator.rs")], ["Length", "MaxBytes", "CollectN", "Omittable", "PaddingDecoder"])

prop("C38", "An owned slice is exactly the chosen range of its owner",
  "For every owner and valid range, the view (shared or mutable) of an owned slice is exactly the bytes of that range, writes through it change exactly these, and the owner comes back otherwise unchanged; it works as the buffer of byte codecs, which then touch nothing outside the range.",
  ["inputs"], "every owner type, content and range",
  "One test uses one range of a four-element array.",
  ["src/slice.rs", "src/bytes.rs"], [("OwnedSlice AsRef/AsMut", "src/slice.rs")], [], ["OwnedSlice"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
