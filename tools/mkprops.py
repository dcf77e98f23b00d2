import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

SEQC="src/laszip/sequential/compression.rs"; SEQD="src/laszip/sequential/decompression.rs"; APP="src/laszip/sequential/appender.rs"
PARC="src/laszip/parallel/compression.rs"; PARD="src/laszip/parallel/decompression.rs"; PAPP="src/laszip/parallel/appender.rs"

p("C01","Pointwise compression is lossless",
 "For the point layouts of LAS formats 0 to 5 (item versions 1 and 2, any number of extra bytes, any order of items), decompressing what was compressed gives back every point bit for bit, in order. This holds for every value of every field, however it relates to the points before it.",
 ["inputs","configurations"],"all point streams x layouts of formats 0-5 x item versions x extra-byte counts x chunk plans",
 "The tests compress a handful of recorded files of up to about a thousand natural-looking points; predictors, context choices, corrector bit widths and model updates depend on the whole history of values, most of which natural data never produce.",
 ["src/las/point0.rs","src/las/gps.rs","src/las/rgb.rs","src/las/wavepacket.rs","src/las/extra_bytes.rs","src/record.rs"],
 [("field predictors of the version 1 and 2 items","src/las/*.rs modules v1 and v2"),("integer correctors","src/compressors.rs, src/decompressors.rs"),("adaptive arithmetic coder","src/encoders.rs, src/decoders.rs, src/models.rs")],
 ["LasZipCompressor input","LasZipDecompressor output"])
p("C02","Layered compression is lossless",
 "For the point layouts of LAS formats 6 to 10 (item versions 3 and 4, any number of extra bytes), decompressing what was compressed gives back every point bit for bit, in order. This holds for every value of every field and every interleaving of the four scanner channels.",
 ["inputs","configurations"],"all point streams x layouts of formats 6-10 x item versions x extra-byte counts x chunk plans",
 "As for the pointwise layouts; in addition four scanner-channel contexts are created, switched and shared between items, layers can be empty or all-constant, and the recorded test files use one or two channels only.",
 ["src/las/point6.rs","src/las/rgb.rs","src/las/nir.rs","src/las/wavepacket.rs","src/las/extra_bytes.rs","src/record.rs"],
 [("per-channel contexts and layers","src/las/*.rs modules v3 and v4"),("layered record compressor","src/record.rs")],
 ["LasZipCompressor input","LasZipDecompressor output"])
p("C03","Results do not depend on how calls are split",
 "The bytes produced by compressing a sequence of points, and the points produced by decompressing it, do not depend on how the sequence is split over calls nor on which of the equivalent entry points (one point, many points, whole chunks, whole buffer, trait object) carries it.",
 ["inputs","histories"],"all point streams x chunk plans x splits into calls (empty calls included) x entry points",
 "Each test uses one entry point with one split; boundaries between calls that fall on, before or after chunk boundaries are not combined.",
 [SEQC,SEQD,"src/laszip/mod.rs","src/lib.rs"],
 [("chunk accounting of the sequential compressor and decompressor",SEQC+", "+SEQD),("whole-buffer functions",SEQC+", "+SEQD)],["output bytes","decoded points"])
p("C04","Parallel compression writes what sequential compression writes",
 "For any points and chunk plan, compressing in parallel produces byte for byte the file that sequential compression produces, whatever the number of threads, the split into calls and the scheduling.",
 ["inputs","schedules","configurations"],"all point streams x chunk plans x call splits x thread-pool sizes x schedules",
 "The tests compare two recorded files under one pool; partially filled chunks carried between calls, pools smaller or larger than the number of chunks and other schedules are not run.",
 [PARC,"src/laszip/chunk_table.rs"],[("incomplete chunk carried over between calls",PARC),("ordered collection of compressed chunks",PARC)],["output bytes"])
p("C05","Parallel decompression gives the points, in order",
 "For any compressed stream, decompressing in parallel gives exactly the points that were compressed, in order, whatever the number of threads, the split into calls, the entry point and the scheduling.",
 ["inputs","schedules","configurations"],"all point streams x chunk plans x call splits x thread-pool sizes x schedules",
 "The tests read whole files in fixed batches; requests that end inside a chunk, span several chunks or ask for part of the stream only are not combined with variable-size chunks.",
 [PARD],[("decoded rest of a chunk kept between calls",PARD),("splitting of source and destination by chunk",PARD)],["decoded points"])
p("C06","Sequential seek goes to the point asked for",
 "After a seek to any existing point, reading gives that point and the ones after it, whatever was read, sought or failed before. A seek to or beyond the end known from the chunk table is not followed by points: the seek or the next read is an error, and a later seek to an existing point works again.",
 ["inputs","histories"],"all streams x chunk plans x histories of seeks and reads",
 "The tests seek to a few indices of fixed-size chunk files; histories that mix directions, chunk edges, failures, the end of the data and variable-size chunks are not run.",
 [SEQD,"src/laszip/chunk_table.rs"],[("mapping of a point index to a chunk through the chunk table","src/laszip/chunk_table.rs, "+SEQD),("lazy loading of the table and reset of the decoder state",SEQD)],["decoded points after each call"])
p("C07","Parallel seek goes to the point asked for",
 "The parallel decompressor follows the same seek contract as the sequential one: after a seek to any existing point, reading gives that point and the ones after it, whatever happened before, and a seek beyond the known end yields no points.",
 ["inputs","histories","schedules"],"all streams x chunk plans x histories of seeks and reads x pool sizes",
 "One test seeks in one file; buffered left-overs of an earlier chunk, variable-size chunks and seeks past the end are not run.",
 [PARD,"src/laszip/chunk_table.rs"],[("position in the chunk table and left-over points",PARD)],["decoded points after each call"])
p("C08","Appending extends a file without touching the points kept",
 "Opening a compressed stream for appending with a number of points to keep, adding points and finishing gives a stream holding exactly the kept points followed by the added ones, readable sequentially, in parallel and by seeking, with a correct chunk table, any number of times in a row. With fixed-size chunks the stream is the one that would have been written at once.",
 ["inputs","histories","configurations"],"all streams x kept-point counts x appended points x sequences of sessions",
 "The tests append once to a file or two at one position; partially filled last chunks, kept counts at chunk edges, repeated sessions and variable-size chunks are not run.",
 [APP,"src/laszip/chunk_table.rs"],[("rewinding to the start of the last chunk and re-compressing it",APP),("rewriting the chunk table",APP)],["file bytes after each session"])
p("C09","Parallel appending extends a file without touching the points kept",
 "The parallel appender gives the same guarantee as the sequential one, mixed with sequential sessions in any order, and for every pool size.",
 ["inputs","histories","schedules"],"all streams x kept-point counts x appended points x sequences of sequential and parallel sessions x pool sizes",
 "As for the sequential appender; one parallel append of one file is tested.",
 [PAPP,PARC],[("rewinding to the start of the last chunk and carrying its points over",PAPP)],["file bytes after each session"])
p("C10","The chunk table tells the truth and chunks are independent",
 "The chunk table at the position stored in front of the data has one entry per chunk, in order, with its exact size in bytes and (for variable-size chunks) in points, the sizes add up to the compressed data, and every chunk decodes on its own to its own points.",
 ["inputs","configurations"],"all streams x chunk plans x writers",
 "Tests read tables only through the library that wrote them; a wrong count or size that the sequential reader never consults goes unnoticed.",
 [SEQC,PARC,"src/laszip/chunk_table.rs"],[("byte and point accounting per chunk",SEQC+", "+PARC),("writing of the table and of its offset","src/laszip/chunk_table.rs, src/laszip/details.rs")],["file bytes"])
p("C11","Chunk tables survive serialisation",
 "Writing any list of chunk entries as a chunk table and reading it back gives the same list, for fixed-size and variable-size chunks, wherever the table lies in the stream and whether its position is found in front of the data or at the end of the stream. Reading leaves the source where documented.",
 ["inputs","configurations"],"all lists of (point count, byte count) within 32 bits x chunk kinds x positions",
 "Tests write the tables of small files only; entry values at the limits of 32 bits, long tables and the position-at-end form are not produced by them.",
 ["src/laszip/chunk_table.rs","src/laszip/details.rs"],[("integer-coded table","src/laszip/chunk_table.rs"),("offset lookup with fallback to the end of the stream","src/laszip/chunk_table.rs")],["ChunkTable entries, stream position"])
p("C12","The laszip record describes the layout exactly",
 "A laszip record survives serialisation: parsing what was written gives the same chunk size, compressor and item list, and writing what was parsed gives the same bytes. The record built for a point format and number of extra bytes describes a point of exactly that format's size, and unknown formats, items, versions or compressors and impossible combinations are refused with an error.",
 ["inputs","configurations"],"all item lists, chunk sizes and extra-byte counts; all byte strings of record length",
 "Tests build a few records; item sizes, versions and types outside of the usual lists are not parsed.",
 ["src/laszip/vlr.rs","src/laszip/mod.rs","src/las/pointtypes.rs"],[("record parser and writer","src/laszip/vlr.rs"),("items of each point format","src/las/pointtypes.rs, src/laszip/vlr.rs")],["LazVlr accessors and bytes"])
p("C13","Selective decompression gives what was selected",
 "With any selection of fields, every selected field of every point has exactly the value a full decompression gives, and x, y, return counts and scanner channel are always right, sequentially, in parallel and after seeks. What the other fields hold depends on the stream and the selection alone: sequential, parallel and seeked reads give the same bytes. For pointwise layouts the selection changes nothing.",
 ["inputs","configurations","histories"],"all streams x the 4096 selections x entry points x seeks",
 "The tests try a few selections on recorded files of one format; skipped layers next to read ones, contexts that skipped layers would have created and seeks are not combined.",
 ["src/las/selective.rs","src/las/point6.rs","src/las/rgb.rs","src/las/nir.rs","src/las/wavepacket.rs","src/las/extra_bytes.rs"],[("per-layer request flags and skipping of layer bytes","src/las/*.rs modules v3 and v4"),("selection builder","src/las/selective.rs")],["decoded points"])
p("C14","The library stays inside its own part of the stream",
 "Wherever the compressed data lie in a larger stream, writing changes no byte before its start, every stored position is right, the stream is left where documented, and reading uses no byte outside of the compressed data and its chunk table.",
 ["inputs","configurations"],"all streams x start positions x surrounding bytes",
 "Tests use either plain buffers or one LAS header; what is around the data is not compared.",
 [SEQC,SEQD,APP,"src/laszip/chunk_table.rs"],[("offset placeholder and table position relative to the stream","src/laszip/details.rs, "+SEQC)],["offsets and lengths of every read and write"])
p("C15","I/O failures surface as errors and short I/O is harmless",
 "If a read, write or seek of the underlying stream fails, the operation under way returns an error - never a success with missing or wrong data, never a panic. Reads and writes that transfer fewer bytes than asked, or are interrupted, change nothing in the result.",
 ["fault_sequences","inputs"],"all streams x entry points x every position of one failing operation, and all patterns of short and interrupted transfers",
 "Tests use in-memory buffers and files that never fail.",
 [SEQC,SEQD,APP,PARC,PARD,PAPP,"src/laszip/chunk_table.rs"],[("propagation of io::Error","all entry points")],["results of every call against the injected fault"])
p("C16","Corrupt input is refused or decoded, never fatal",
 "Whatever bytes are given as compressed data, chunk table or laszip record, opening, reading, seeking and appending end with a result or an error in time and memory that stay in proportion to the size of the input and of the request: no panic, no abort, no endless loop, no stack exhaustion.",
 ["inputs"],"all byte strings near and far from valid streams x entry points",
 "The tests hold one truncated input; hostile counts, sizes and symbols are not generated.",
 ["src/decoders.rs","src/record.rs","src/laszip/chunk_table.rs","src/laszip/vlr.rs",SEQD,PARD,APP,PAPP],[("validation of symbols, sizes and counts read from the input","src/decoders.rs, src/record.rs, src/laszip/chunk_table.rs")],["outcome, allocation sizes and processor time of each call"])
p("C17","No undefined behaviour or invalid memory access",
 "No sequence of calls through the safe interface, on valid or corrupt data, makes the library read or write outside of live allocations, use uninitialised or freed memory, or otherwise execute undefined behaviour.",
 ["inputs","histories"],"all inputs and histories of calls through the safe interface",
 "Tests only observe results; the unchecked pointer arithmetic and unaligned accesses they execute give right results even when undefined.",
 ["src/encoders.rs","src/packers.rs","src/models.rs","src/decoders.rs","src/byteslice.rs"],[("raw pointers into the encoder's circular buffer","src/encoders.rs"),("unchecked packing and unpacking","src/packers.rs")],["AddressSanitizer and Miri reports"])
p("C18","Parallel operation is free of data races",
 "Under every schedule, parallel compression, decompression, seeking and appending, and independent sequential codecs used on different threads, execute without data races, and codecs moved between threads between calls behave as if they had stayed.",
 ["schedules","histories"],"all schedules x pool sizes x histories",
 "Tests run one schedule per run and cannot see a race that did not change a result.",
 [PARC,PARD,PAPP,"src/record.rs","src/encoders.rs"],[("disjoint splitting of buffers between tasks",PARC+", "+PARD),("Send and Sync assertions on the encoder","src/encoders.rs")],["ThreadSanitizer and Miri reports"])
p("C19","The compressed format does not drift",
 "Streams written by an independent or earlier implementation of the format decode to the right points, and streams written now are byte for byte what that implementation writes, for every layout. The unchunked form written by old versions is readable too.",
 ["inputs","configurations"],"all streams x layouts x directions of exchange",
 "A change made to compressor and decompressor alike passes every round trip; the recorded files cover a few thousand natural points of a few formats.",
 ["src/las","src/encoders.rs","src/decoders.rs","src/models.rs","src/compressors.rs","src/decompressors.rs"],[("the laszip bit stream","src/encoders.rs, src/models.rs, src/compressors.rs, src/las/*.rs")],["compressed bytes, decoded points"])
p("C20","Streams without a usable chunk table are still readable",
 "A stream whose chunk table is missing, unreachable because the source cannot seek, or only pointed at from its end, is read sequentially to its last point exactly as if the table were in place.",
 ["inputs","configurations","fault_sequences"],"all streams x chunk plans x ways of losing the table x sources that cannot seek",
 "The tests read complete seekable files only.",
 [SEQD,"src/laszip/chunk_table.rs","src/record.rs"],[("lenient loading of the chunk table",SEQD),("point count stored in layered chunks","src/record.rs")],["decoded points"])
p("C21","The entropy coder is exact",
 "Any sequence of symbols, bits, raw bits and corrected integers, under any mix of models and contexts, is decoded to the same sequence it was encoded from, for every alphabet size and bit width the format uses and any length of stream.",
 ["inputs","histories"],"all sequences of coder operations x alphabets x widths x contexts",
 "Through points only a small part of coder states is visited: carries across the output buffer, renormalisation edges and saturated models are rare there.",
 ["src/encoders.rs","src/decoders.rs","src/models.rs","src/compressors.rs","src/decompressors.rs"],[("carry propagation in the circular buffer","src/encoders.rs"),("adaptive models","src/models.rs"),("corrector coding","src/compressors.rs, src/decompressors.rs")],["encoder input, decoder output"])
p("C22","The simple file reader agrees with the file",
 "For any LAS or LAZ file with a valid header, the bundled file reader reports the header's point count, size and format, and yields exactly that many points with the stored contents, compressed or not, in whatever mix of single and whole reads.",
 ["inputs","configurations","histories"],"all generated LAS/LAZ files x histories of reads",
 "The tests open the bundled files and read them once.",
 ["src/las/file.rs"],[("header parsing and laszip record lookup","src/las/file.rs"),("compressed and uncompressed reading","src/las/file.rs")],["points yielded"])
p("C23","Typed points survive packing",
 "Every typed point or point component written to its packed form and read back is the same value, bit for bit, and packing uses exactly the documented bytes in the documented order. Every accessor of a typed point reads and changes exactly its own bits.",
 ["inputs"],"all values of all fields of all typed points; all packed byte strings",
 "Tests pack a few fixed points.",
 ["src/packers.rs","src/las/pointtypes.rs","src/las/point0.rs","src/las/point6.rs","src/las/gps.rs","src/las/rgb.rs","src/las/nir.rs","src/las/wavepacket.rs"],[("Packable implementations","src/packers.rs, src/las/*.rs")],["packed bytes and unpacked values"])
p("C26","A truncated stream yields a prefix of its points",
 "If writing stops at any byte, what can be read from the remains of a stream with fixed-size chunks, up to the number of points it was written with, is a prefix of the points that were written, followed by an error - never wrong points. Every chunk whose bytes are complete is recovered.",
 ["crash_points","inputs"],"all streams x every length of what remains",
 "The tests truncate one buffer at one place.",
 [SEQD,"src/record.rs","src/decoders.rs"],[("errors on exhausted input","src/decoders.rs, src/record.rs")],["points read before the first error"])
p("C27","Requests that cannot be served are refused with an error",
 "Layouts without items, with items or versions the library does not know, with a mix of pointwise and layered items, or with an unsupported compressor are refused with an error (a documented panic where the call cannot return one) by every compressor, decompressor, appender and whole-buffer function, before any point is written. A buffer that is not a whole number of points, and in the parallel compressor a call meant for the other kind of chunks, is refused or leads to a stream that reads back as the whole points accepted.",
 ["inputs","configurations","histories"],"all unsupported layouts and buffer lengths x entry points",
 "Tests cover one or two refused configurations.",
 ["src/record.rs","src/laszip/vlr.rs",SEQC,PARC,APP,PAPP],[("construction of record compressors and decompressors from items","src/laszip/details.rs, src/record.rs"),("argument checks","src/laszip/*")],["results of the calls, stream contents"])
p("C28","Empty inputs are harmless",
 "Calls with no points, chunks without points, streams without any point and finishing more than once change nothing: the stream stays readable, holds exactly the points given, and its table has no entries for what was not written.",
 ["histories","configurations"],"all histories of calls containing empty ones x layouts x writers",
 "The tests always give points.",
 [SEQC,PARC,APP,PAPP],[("handling of empty chunks and of finishing",SEQC+", "+PARC)],["file bytes, decoded points"])
p("C29","Reading past the last point is an error, not a crash",
 "Asking any decompressor for more points than the stream holds returns an error wherever the end is known, never panics or loops, never gives wrong points before the end, and leaves the decompressor usable after a seek.",
 ["inputs","histories"],"all streams x overshoots x entry points",
 "The tests never read past the end.",
 [SEQD,PARD,"src/record.rs","src/decoders.rs"],[("end-of-table handling",SEQD+", "+PARD)],["results of the calls"])
p("C30","Damage stays in its chunk",
 "When bytes of one chunk are changed and the chunk table is intact, every other chunk still decodes to its own points: by seeking, sequentially or in parallel, before or after the damaged chunk was tried, and by decoding all chunks at once only the damaged one can differ.",
 ["inputs","histories","fault_sequences"],"all streams x damaged bytes of one chunk x orders of reading",
 "The tests read undamaged streams; state that survives an error inside a chunk is not observed.",
 [SEQD,PARD,"src/record.rs","src/laszip/chunk_table.rs"],[("reset of models, contexts and layers at chunk starts","src/record.rs"),("position of each chunk from the table",SEQD+", "+PARD)],["points of the undamaged chunks"])
p("C31","Record codecs composed by hand behave as in a stream",
 "A record compressor or decompressor used without a stream around it, with its fields added one at a time or from the items, writes each chunk with exactly the bytes the stream writer gives it, reads each chunk back to its points and leaves its source exactly at the chunk's end. Reset between chunks, any split of the calls and any selection made before the first point hold there too.",
 ["inputs","histories","configurations"],"all layouts x chunks x ways of composing the codec x splits of the calls",
 "The tests use the record codecs for one chunk of one file.",
 ["src/record.rs","src/las/mod.rs","src/las"],[("field codecs added by hand and record size","src/record.rs"),("state dropped by reset","src/record.rs"),("reading until the end of the file","src/record.rs")],["chunk bytes, positions, points"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,x['id']; assert x['statement'].count('. ')<=2,(x['id'],x['statement'])
print(len(P))
