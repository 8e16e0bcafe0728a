"""The properties and how each is decided: read by check.py (runs) and gen.py (properties.jsonl, MANIFEST.json)."""
from vbuild import CORE, FILTER, HELP, UTILS

LIST = []
PROPS = {}


def P(id, title, statement, over, text, why, files, mech, runs=(), assumptions=(), na=None, note=''):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), runs=list(runs), assumptions=list(assumptions), na=na, note=note)
    LIST.append(d)
    PROPS[id] = d


def R(file, entry, bounds, q=60, t=300, mods=None, **kw):
    return dict(file=file + '.cpp', entry=entry, mods=CORE + HELP if mods is None else mods, time=(q, t), bounds=bounds, **kw)


PIXELS = CORE + HELP + ['vrs/utils/PixelConversions', 'vrs/utils/PixelFrame', 'vrs/utils/converters/Grey10PackedConverters', 'vrs/utils/converters/Raw10ToGrey10Converter', 'vrs/utils/DecoderFactory', 'vrs/utils/VideoFrameHandler']
SEQ = dict(opts=['--preempt', '0'])

P('C01', 'What is recorded is what is read back',
  'Every record handed to a file writer before the file is closed is found in the file by a reader exactly once, under the stream it was created for, with the same timestamp, record type, format version and payload bytes. Records are presented in timestamp order, records of equal timestamp ordered by stream and then in creation order.',
  'inputs histories configurations', 'for all record contents (timestamps, types, format versions, payload bytes), all interleavings of creation and write requests, and all kinds of file layout (single, chunked, index in front, at the end or in a head file)',
  'The tests write a few fixed recordings with regular timestamps; timestamp ties, special values, empty payloads and their combinations with file layouts are not enumerated.',
  ['vrs/RecordFileWriter.cpp', 'vrs/RecordManager.cpp', 'vrs/Record.cpp', 'vrs/IndexRecord.cpp', 'vrs/RecordFileReader.cpp', 'vrs/DiskFile.cpp'],
  [('RecordFileWriter::writeRecords', 'vrs/RecordFileWriter.cpp'), ('Record::writeRecord', 'vrs/Record.cpp'), ('RecordFileReader::readRecord', 'vrs/RecordFileReader.cpp'), ('RecordManager::collectOldRecords', 'vrs/RecordManager.cpp')],
  [R('h_record', 'h_roundtrip', 'up to 3 records on 2 streams; every timestamp bit pattern that is not NaN, all record types, any format version, payloads of 0-3 symbolic bytes; write at once, in the background, or chunked', q=60, t=400),
   R('h_record', 'h_chunks', 'records of two memory pieces of 0-3 symbolic bytes and a part written directly', q=30, t=100),
   R('h_record', 'h_reuse', 'records after an earlier file or purge: recycled buffers, 2 records of any later timestamps, sizes 0-60', q=60, t=200)])
P('C02', 'The index tells the truth about the file',
  'The list of records a reader reports for a file contains exactly the records in the file, in timestamp order, and each entry leads to the record it describes. The list obtained from the stored index equals the list obtained by scanning the records when the index is missing.',
  'inputs histories configurations', 'for all timestamps and record types, for index stored at the end, in preallocated space, in a separate head file, or lost',
  'Tests compare a rebuilt index for one generated recording; the values that drive ordering and the tight preallocation cases are not explored.',
  ['vrs/IndexRecord.cpp', 'vrs/RecordFileReader.cpp', 'vrs/RecordFileWriter.cpp'],
  [('IndexRecord::Reader', 'vrs/IndexRecord.cpp'), ('IndexRecord::Writer', 'vrs/IndexRecord.cpp')],
  [R('h_index', 'h_index_rebuilt', '3 records, symbolic timestamps and types; stored index against scanned index', q=90, t=400, **SEQ),
   R('h_index', 'h_index_preallocated', 'preallocated index of the right size, too small and too large', q=40, t=200, **SEQ),
   R('h_index', 'h_index_split', 'index in a head file, chunks of any number of records', q=60, t=300, **SEQ)])
P('C03', 'A recording cut short keeps every complete record',
  'If writing stops at any moment, or the end of a file is lost, opening what is left succeeds as soon as one complete record is there and yields every record that was completely on disk, unchanged, and nothing else. Repairing the index of such a file, even if the repair itself is cut short or what follows the last record is garbage, never loses a complete record that is followed by nothing suspicious, and leaves an index that matches the file.',
  'crash_points inputs configurations', 'for every write the process may stop at and every prefix of that write, every truncation length, every moment a repair may stop, every damaged record header after the last record; all file layouts',
  'A test truncates one file at one place; crash points, partial writes and interrupted repairs are not enumerated.',
  ['vrs/IndexRecord.cpp', 'vrs/RecordFileReader.cpp', 'vrs/RecordFileWriter.cpp', 'vrs/DiskFile.cpp'],
  [('IndexRecord::Reader::rebuildIndex', 'vrs/IndexRecord.cpp'), ('RecordFileReader::readFileDetails', 'vrs/RecordFileReader.cpp')],
  [R('h_crash', 'h_crash', '3 records, 2 streams, 4 layouts; symbolic increasing timestamps; crash at every file mutation, any prefix of that write on disk (overwriting bytes within one 512-byte sector is atomic)', q=60, t=300, **SEQ),
   R('h_crash', 'h_truncated', 'every length of the (last) file', q=60, t=300, **SEQ),
   R('h_crash', 'h_crash_repair', 'crash at every mutation, then the repair stopped at every mutation, any prefix of that write on disk', q=60, t=300, **SEQ),
   R('h_crash', 'h_repair_garbage', '0-3 records followed by 16, 33 or 80 bytes: zeroes, or a record header with any sizes, record type and uncompressed size', q=60, t=300, **SEQ)])
P('C04', 'A failed write is never reported as success',
  'If creating, writing, flushing, positioning or closing the file fails at any point, or the disk is full, the writer reports an error for that recording; conversely, when it reports success every record can be read back.',
  'fault_sequences configurations', 'for every file operation failing (once or from then on), partial writes, and writes whose loss is reported only later by a flush, seek or close; any disk capacity; all file layouts',
  'No test injects storage faults into the writer.',
  ['vrs/RecordFileWriter.cpp', 'vrs/IndexRecord.cpp', 'vrs/DiskFile.cpp', 'vrs/Record.cpp'],
  [('RecordFileWriter::completeAndCloseFile', 'vrs/RecordFileWriter.cpp'), ('WriterThreadData::setFileError', 'vrs/RecordFileWriter.cpp'), ('IndexRecord::Writer::finalizeClassicIndexRecord', 'vrs/IndexRecord.cpp'), ('DiskFileT::addChunk', 'vrs/DiskFile.cpp')],
  [R('h_fault', 'h_write_fault', '3 records, 5 layouts; any n-th operation of a class fails with any prefix of its bytes on disk, once or persistently, at once or deferred to the next flush', q=60, t=300, **SEQ),
   R('h_fault', 'h_disk_full', 'every capacity of a file in bytes', q=60, t=300, **SEQ)])
P('C05', 'Opening and reading a damaged file is safe',
  'Whatever the bytes of a file, opening it, listing its records and reading them either succeeds or fails with an error: no access outside of allocated memory, no crash, no endless loop, and no allocation out of proportion to what the file holds.',
  'inputs', 'for all values of the sizes, offsets, counts, ids and kinds stored in the file header, description record, index record, record headers and their payloads',
  'Tests read sound files and a few corrupted ones; the values that lead out of bounds are specific combinations of sizes and offsets.',
  ['vrs/FileFormat.cpp', 'vrs/DescriptionRecord.cpp', 'vrs/IndexRecord.cpp', 'vrs/RecordFileReader.cpp', 'vrs/RecordReaders.cpp', 'vrs/Decompressor.cpp', 'vrs/DiskFile.cpp'],
  [('RecordFileReader::readFileDetails', 'vrs/RecordFileReader.cpp'), ('IndexRecord::Reader', 'vrs/IndexRecord.cpp'), ('DescriptionRecord::readDescriptionRecord', 'vrs/DescriptionRecord.cpp'), ('Decompressor', 'vrs/Decompressor.cpp')],
  [R('h_hostile', 'h_any_file_header', ('any value in one field of the file header (thorough: two fields); 3 layouts',) * 2, q=60, t=200, **SEQ),
   R('h_hostile', 'h_any_record_header', 'any sizes, kinds, type, instance, version, timestamp (a few of these together) in the header of the description, the index or a user record; index used, rebuilt or repaired; declared uncompressed sizes of 81 bytes to 16 MB left out', q=80, t=200, **SEQ),
   R('h_hostile', 'h_any_description', 'any stream count, stream id, tag count, text size, record size, current and older format', q=40, t=100, **SEQ),
   R('h_hostile', 'h_any_index', 'any stream count, ids, record count, record entries, sizes; index at the end, in front, split', q=90, t=250, **SEQ)],
  assumptions=['at most 8 MB may be allocated at once for a file of under 600 bytes'])
P('C06', 'Tags and descriptions come back as they were set',
  'The tags of a file and of each of its streams, whatever bytes their names and values hold, the flavor, original name and record formats of each stream, are read back exactly as they were set, for streams with or without records, added before or after the file was created. Of the original name of a stream only a trailing instance number is dropped.',
  'inputs configurations', 'for all bytes in tag names and values, all numbers of tags, streams joining early or late',
  'Tests use plain ASCII tags; embedded zero bytes, empty and colliding names, and late streams are not combined.',
  ['vrs/DescriptionRecord.cpp', 'vrs/TagsRecord.cpp', 'vrs/RecordFileWriter.cpp', 'vrs/RecordFileReader.cpp', 'vrs/RecordFormat.cpp', 'vrs/Recordable.cpp'],
  [('DescriptionRecord::writeDescriptionRecord', 'vrs/DescriptionRecord.cpp'), ('TagsRecordPlayer', 'vrs/TagsRecord.cpp'), ('RecordFileWriter::addRecordable', 'vrs/RecordFileWriter.cpp')],
  [R('h_tags', 'h_tag_text', ('2 tags of a file or stream with names of 0-1 and values of 0-2 symbolic bytes; stream joins early or late', 'names of 0-2 bytes'), q=40, t=200, **SEQ),
   R('h_tags', 'h_tag_shape', '0-2 tags each for file and 2 streams, values of 1 or 300 bytes', q=40, t=100, **SEQ),
   R('h_tags', 'h_tag_name', 'original names of 0-6 symbolic bytes', q=30, t=60, **SEQ)])
P('C08', 'Records waiting to be written are kept, purged and collected in order',
  'Records not yet written are handed out oldest first, in order of creation for equal times: asking for the records up to a limit gives every record older than it and none newer. Purging old records removes exactly those older than the limit, except the newest configuration and the newest state record and the tags, and leaves the rest in order.',
  'inputs histories', 'for all timestamps (ties included), record types and limits, records created out of order, created after a purge or a collection',
  'Tests create records in one fixed pattern and purge everything.',
  ['vrs/RecordManager.cpp', 'vrs/RecordManager.h'],
  [('RecordManager::createRecord', 'vrs/RecordManager.cpp'), ('RecordManager::purgeOldRecords', 'vrs/RecordManager.cpp'), ('RecordManager::collectOldRecords', 'vrs/RecordManager.cpp')],
  [R('h_manager', 'h_purge', ('3 records of any finite times and types, one purge or two collections with any limits', '4 records'), q=40, t=200, **SEQ),
   R('h_manager', 'h_purge_collect', ('2 records, a purge, another record, a collection', '3 records first'), q=40, t=200, **SEQ)])
P('C09', 'A file split in chunks behaves as one sequence of bytes',
  'Reading, writing, skipping, setting and asking positions in a file made of several chunks does what it would do on one sequence of bytes: the bytes read are those at the position, positions outside the file are refused, reads past the end fail and tell how many bytes were read. Bytes written or overwritten across chunk boundaries land in their place, and cutting a file cuts the chunk holding the position, leaving the others alone.',
  'inputs histories', 'for all chunk sizes, all contents, all sequences of operations, positions and lengths',
  'Tests split a few files at fixed sizes; the boundaries between chunks are met by specific positions and lengths only.',
  ['vrs/DiskFile.cpp', 'vrs/DiskFile.h', 'vrs/FileHandler.h'],
  [('DiskFileT::read', 'vrs/DiskFile.cpp'), ('DiskFileT::setPos', 'vrs/DiskFile.cpp'), ('DiskFileT::overwrite', 'vrs/DiskFile.cpp'), ('DiskFileT::truncate', 'vrs/DiskFile.cpp')],
  [R('h_disk', 'h_disk_read', ('3 chunks of 1-2 symbolic bytes, 3 operations with any 64-bit offset, lengths 0-4', '4 chunks, 4 operations, lengths 0-6'), q=60, t=300, **SEQ),
   R('h_disk', 'h_disk_write', ('3 chunks of 1-2 bytes, new or reopened for changes, 2 operations anywhere in the file, lengths 0-3', '3 operations, lengths 0-4'), q=60, t=300, **SEQ),
   R('h_disk', 'h_disk_text', 'text files of 0-5 symbolic bytes, any operation failing', q=20, t=40, **SEQ)])
P('C11', 'Looking up records answers what a scan of the records would',
  'Asking a reader for records by number, by time, by nearest time, by stream or by type gives what going through its list of records one by one would give: the nth one, the first at or after the time, none nearer within the range, or nothing if there is none. Record counts, positions, first and last data times and sizes on disk agree with that list and with the file, whatever was asked before, and whatever file the reader had open before.',
  'inputs histories', 'for all record timestamps (ties included), types and streams, all asked times, ranges and numbers, all sequences of queries',
  'Tests query files with regularly spaced records; ties, queries between or beyond the records, and query sequences hitting the remembered last answer are not explored.',
  ['vrs/RecordFileReader.cpp', 'vrs/IndexRecord.cpp'],
  [('RecordFileReader::getRecord', 'vrs/RecordFileReader.cpp'), ('RecordFileReader::getRecordByTime', 'vrs/RecordFileReader.cpp'), ('getNearestRecordByTime', 'vrs/RecordFileReader.cpp'), ('RecordFileReader::buildRecordBoundaries', 'vrs/RecordFileReader.cpp')],
  [R('h_query', 'h_query_time', ('3 records on 2 streams, symbolic times with ties, 2 record types; any asked time', '4 records'), q=60, t=400, **SEQ),
   R('h_query', 'h_query_nearest', '3 records at any whole times in 256..511 (ties included), nearest to 384 within 0 or 3; thorough: on 2 streams in any way', q=60, t=300, **SEQ),
   R('h_query', 'h_query_number', ('4 records, 2 types, any 3 queries in sequence with any 32-bit number', '5 records, 2 streams, 3 types'), q=60, t=300, **SEQ),
   R('h_query', 'h_query_counts', ('3 records on 2 streams, any times, all types', '4 records'), q=60, t=300, **SEQ),
   R('h_query', 'h_query_sizes', ('3 records written in up to 4 batches with any time limits', '4 records'), q=60, t=300, **SEQ),
   R('h_query', 'h_query_streams', '3 streams; any number asked', q=20, t=40, **SEQ),
   R('h_query', 'h_query_reopen', 'a file of 3 records asked about, then one of 0-3 records opened, with or without closing or failing to open another in between', q=40, t=100, **SEQ)])
P('C12', 'Compression is transparent',
  'A record written with compression enabled is read back byte for byte identical to one written without, whether it is read at once or in pieces of any sizes.',
  'inputs configurations', 'for all payload sizes around the compression threshold, all presets and both compression formats on reading, all split points of reads',
  'Tests compress a handful of large payloads and read them with one pattern.',
  ['vrs/Compressor.cpp', 'vrs/Decompressor.cpp', 'vrs/Record.cpp', 'vrs/RecordReaders.cpp'],
  [('Record::compressRecord', 'vrs/Record.cpp'), ('CompressedRecordReader', 'vrs/RecordReaders.cpp')],
  [R('h_record', 'h_compressed', 'payloads of 249-252 bytes with 2 symbolic bytes; reads split at any place', q=60, t=200)],
  assumptions=['zstd and lz4 are replaced by an invertible stand-in format with the same streaming interface: properties of the real codecs are not part of this check'])
P('C13', 'A record can be read in pieces',
  'A player that reads a record in pieces of any sizes, into one or two buffers each time, gets the bytes of the record in order and is told how many were read and are left; asking for more than is left is refused and leaves the buffers alone, whether or not the record is compressed. A read that fails is reported, and the next record is read as if nothing had happened, whether the player read all, part or nothing of the one before.',
  'inputs configurations fault_sequences', 'for all sizes and contents of records, splits into pieces and buffers, compressed or not, and each read of the file that may fail',
  'Tests read whole records into one buffer of the right size.',
  ['vrs/RecordReaders.cpp', 'vrs/DataReference.cpp', 'vrs/RecordFileReader.cpp'],
  [('UncompressedRecordReader::read', 'vrs/RecordReaders.cpp'), ('CompressedRecordReader::read', 'vrs/RecordReaders.cpp'), ('DataReference::copyTo', 'vrs/DataReference.cpp')],
  [R('h_read', 'h_pieces', ('2 records; 2 pieces each, of 0-2 sizes or any size that is too large, into 1-2 buffers', '3 pieces'), q=40, t=200, **SEQ)])
P('C14', 'Data layout fields are read back as they were recorded',
  'Every field of a data layout, of fixed or variable size, staged and recorded, is read back with its exact value, both by a reader that knows the layout and by one that has only the description in the file. A reader whose layout has other fields, or the same in another order, gets the values of the fields the file has, the defaults of those it has not, and is told which are missing and whether a required one is. A layout rebuilt from its description has the same fields, sizes, defaults, ranges, tags and required flags.',
  'inputs configurations', 'for all field values, text and map keys of any bytes (zero included), empty or not; all selections and orders of fields in the file and in the reader',
  'Tests use one or two fixed layouts and values; empty fields, absent fields and reordered layouts are hardly combined.',
  ['vrs/DataLayout.cpp', 'vrs/DataLayout.h', 'vrs/DataPieces.h', 'vrs/ContentBlockReader.cpp'],
  [('DataLayout::mapLayout', 'vrs/DataLayout.cpp'), ('DataLayout::collectVariableDataAndUpdateIndex', 'vrs/DataLayout.cpp'), ('ManualDataLayout', 'vrs/DataLayout.cpp'), ('DataLayoutBlockReader::readBlock', 'vrs/ContentBlockReader.cpp')],
  [R('h_layout', 'h_layout_file', 'a layout of 9 fields of all kinds, 2 records followed by another block; one group of fields at a time of any contents (0-2 elements, 0-3 symbolic characters), the others fixed', q=40, t=100, **SEQ),
   R('h_layout', 'h_layout_map', ('every selection of 6 fields in the file and of those the reader looks for, both in 2 orders, one of them required when all are looked for', 'one of them required in every case'), q=40, t=200, **SEQ),
   R('h_layout', 'h_layout_describe', ('9 fields; labels, tags, texts of 1 symbolic non-zero byte, any uint16, int8 and high uint64 defaults and limits, 6 doubles', 'texts of 2 bytes, 0-3 elements'), q=60, t=300, **SEQ)],
  assumptions=['labels, tags and default texts without zero bytes'])
P('C15', 'Reading the fields of a damaged record or description is safe',
  'Whatever bytes a record holds where the fields of a data layout are expected, and whatever the text describing the layout, looking the fields up, reading them and staging them for another record succeeds or fails without touching memory outside of the record, without crashing, and without giving a field more data than the record holds. No field described is given more space than the largest record could have.',
  'inputs', 'for all bytes of the fields and of their offsets and sizes; all short texts at every place of a description',
  'Tests decode sound records only.',
  ['vrs/DataLayout.cpp', 'vrs/DataLayout.h', 'vrs/DataPieces.h', 'vrs/helpers/Rapidjson.hpp'],
  [('DataLayout::isVarDataIndexValid', 'vrs/DataLayout.cpp'), ('ManualDataLayout', 'vrs/DataLayout.cpp'), ('getJVector', 'vrs/helpers/Rapidjson.hpp'), ('loadElement', 'vrs/DataLayout.cpp')],
  [R('h_layout', 'h_layout_hostile', ('a field of each variable-size type of up to 12 arbitrary bytes, or fields at any 32-bit offset and of any 32-bit size in 12 bytes', 'up to 16 bytes'), q=40, t=100, **SEQ),
   R('h_layout', 'h_layout_json', ('every text of 0-3 bytes in 8 places of a description, fields of 7 types', 'texts of 0-4 bytes'), q=40, t=400, **SEQ)])
P('C16', 'The format of records survives its text form',
  'A record format, with any sequence of content blocks and all their attributes (sizes, image and pixel formats, dimensions, strides, codec names of any non-zero bytes, quality, audio formats, channels, rates, custom format names), is rebuilt from its text exactly as it was, with the same text. The record type and format version a record format was registered for are read back from the name of its tag, and no other tag name is mistaken for one.',
  'inputs configurations', 'for all kinds of content blocks, all pixel, image, audio and sample formats, all codec and format names, all numbers',
  'Tests go through a list of sample texts; names with separators or unusual bytes combined with other attributes are not among them.',
  ['vrs/RecordFormat.cpp', 'vrs/RecordFormat.h'],
  [('ContentBlock::asString', 'vrs/RecordFormat.cpp'), ('ImageContentBlockSpec::set', 'vrs/RecordFormat.cpp'), ('RecordFormat::parseRecordFormatTagName', 'vrs/RecordFormat.cpp')],
  [R('h_format', 'h_format_text', ('every kind of block with a second one before or after; names of 1-2 symbolic non-zero bytes, followed by two digits or not, numbers of one digit, two digits, 65536, or within 8 of 2^32', 'names of 1-3 bytes, more numbers'), q=60, t=300, **SEQ),
   R('h_format', 'h_format_tags', 'all record types, versions as above; any 0-3 non-zero bytes in place of the version', q=20, t=60, **SEQ)],
  assumptions=['an audio sample frame takes less than 256 bytes', 'names without zero bytes and short enough to fit a text of 255 bytes'])
P('C17', 'The content blocks of a record are found where its format puts them',
  'The blocks of a record are presented in order, each with the bytes of its place: its size comes from its format, from the fields just before it, or is what the blocks after it leave; a block whose size or description cannot be known is presented as unsupported, and nothing is presented past the end of the record. What the format of an image or audio block leaves open is taken from the fields before it in the record or else from the last configuration record read, unless that one is later, whatever part of it was read.',
  'inputs configurations histories', 'for all sequences of blocks, record sizes, sizes given by fields and field values; configuration records absent, read fully or in part, or read later',
  'Tests read records of a few formats whose sizes are right; records that are too short and sizes that do not fit are not among them.',
  ['vrs/ContentBlockReader.cpp', 'vrs/RecordFormatStreamPlayer.cpp', 'vrs/DataLayoutConventions.cpp', 'vrs/RecordFormat.cpp'],
  [('RecordFormatStreamPlayer::processRecord', 'vrs/RecordFormatStreamPlayer.cpp'), ('ContentBlockReader::findContentBlockSize', 'vrs/ContentBlockReader.cpp'), ('ImageSpec::getImageContentBlock', 'vrs/DataLayoutConventions.cpp')],
  [R('h_format', 'h_blocks', ('2 blocks of 9 kinds each, fields with a text of any stated place and length among them; records of 0-14 symbolic bytes', '3 blocks'), q=30, t=300, **SEQ),
   R('h_format', 'h_blocks_spec', ('raw images and audio without attributes, fields in the record, in 0-2 configuration records at any time before, or read or recorded after, in one of two sets of fields, the second not read; any widths to 7, strides to 200, rates, and any pixel, audio and sample formats in one of them', 'in all of them'), q=30, t=300, **SEQ),
   R('h_format', 'h_blocks_size', ('5 kinds of blocks, alone or followed by one, any 32-bit size given by the fields before it, 2 records of 2-4 bytes', '0-6 bytes'), q=30, t=100, **SEQ)],
  assumptions=['once a stream found its image or audio description in a configuration record, records do not start to describe it themselves'])
P('C18', 'Images and audio blocks have the geometry their format defines',
  'The number of planes of a raw image, the stride and height of each, and the size of the image are those its pixel format defines for its dimensions, with any explicit strides, without wrapping around for images over 4 GB; strides too short for a line are told. The size of a block of audio samples is that of its samples.',
  'inputs', 'for every pixel format with any width, heights and strides; every audio sample format with any number of channels and stride',
  'Tests check a few dimensions for some of the pixel formats.',
  ['vrs/RecordFormat.cpp', 'vrs/RecordFormat.h'],
  [('ImageContentBlockSpec::getRawImageSize', 'vrs/RecordFormat.cpp'), ('ImageContentBlockSpec::getDefaultStride', 'vrs/RecordFormat.cpp'), ('AudioContentBlockSpec::getPcmBlockSize', 'vrs/RecordFormat.cpp')],
  [R('h_format', 'h_image_geometry', ('every pixel format; any width under 2^28, or any stride, or any second stride, the others among 4-6 values; 4 heights up to 65536', '5 heights'), q=30, t=100, **SEQ),
   R('h_format', 'h_audio_geometry', 'every sample format, any channels and stride, 4 sample counts up to 2^32-1', q=20, t=40, **SEQ)],
  assumptions=['images are less than 2^28 pixels wide', 'an audio sample frame takes less than 256 bytes'])
P('C19', 'Streams are found by what they are called, and by nothing else',
  'The numeric name of a stream gives back its type and instance, for all of them, and no text is taken for a name but two numbers of at most 16 bits with the separator between them; nothing past the end of the text is read. Looking up a stream by name, by relative name (the nth of its type), or by type, flavor, tag or serial number gives the first stream, in order of type and instance, that has them, or none if there is none.',
  'inputs', 'for all types and instances, all texts, and all files with streams of any type, flavor and tag',
  'Tests try a dozen names and a few files; numbers too large and texts that are not terminated are not among them.',
  ['vrs/StreamId.cpp', 'vrs/RecordFileReader.cpp'],
  [('fromNumericNameWithSeparator', 'vrs/StreamId.cpp'), ('RecordFileReader::getStreamForName', 'vrs/RecordFileReader.cpp'), ('RecordFileReader::getStreamForFlavor', 'vrs/RecordFileReader.cpp'), ('RecordFileReader::getStreamForTag', 'vrs/RecordFileReader.cpp')],
  [R('h_names', 'h_name_roundtrip', 'all types and instances', q=60, t=60, **SEQ),
   R('h_names', 'h_name_parse', ('0-5 symbolic bytes after one of 5 beginnings, in a buffer of just that size', '0-8 symbolic bytes'), q=20, t=100, **SEQ),
   R('h_names', 'h_name_find', ('3 streams of 2 types, with or without a flavor, a tag of any byte; any number, any tag, any one-digit instance asked for', '4 streams, 3 flavors'), q=60, t=300, **SEQ)])
P('C20', 'A description of a file comes back from its text',
  'The description of a file (storage, name, uri, chunks and their sizes, extra parameters) written as json is read back as it was, whatever the object read into held before; a local path names that one file and comes back as it is. The scheme, path and parameters of a uri are found and decoded, whatever characters they hold, escaped or not. Any other text is refused or read without reading past its end, and refused json leaves the description empty.',
  'inputs', 'for all texts and field contents within the stated sizes',
  'Tests use a few well formed paths and uris.',
  ['vrs/FileSpec.cpp', 'vrs/helpers/Rapidjson.hpp', 'vrs/FileHandlerFactory.cpp'],
  [('FileSpec::fromPathJsonUri', 'vrs/FileSpec.cpp'), ('FileSpec::toJson', 'vrs/FileSpec.cpp'), ('FileSpec::urldecode', 'vrs/FileSpec.cpp')],
  [R('h_spec', 'h_spec_json', ('one field of any 2 characters, the others absent or fixed; up to 2 chunks and sizes', 'any 3 characters'), q=60, t=400, **SEQ),
   R('h_spec', 'h_spec_path', ('any path of up to 4 characters', '5 characters'), q=60, t=200, **SEQ),
   R('h_spec', 'h_spec_uri', 'any character in the path, or a key or value, escaped or not; up to 2 parameters, one possibly malformed', q=60, t=100, **SEQ),
   R('h_spec', 'h_spec_any', ('any text of up to 5 bytes', 'up to 6 bytes'), q=60, t=300, **SEQ),
   R('h_spec', 'h_spec_anyjson', ('any 4 bytes or 3 pieces of json after an opening brace', '5 bytes or 4 pieces'), q=60, t=300, **SEQ)],
  assumptions=['no NUL inside the strings of a description; extra parameters are not named like the fields of the json'])
P('C21', 'Converting an image changes how pixels are stored, not which',
  'Converting an image of any width, line spacing and alignment in memory gives, for every pixel and whatever its value, the color or grey of that same pixel: RGBA and BGR to RGB in the right order, YUY2 to RGB by its formula, grey repeated, 10 and 12 bits scaled to 16 or 8 bits, RAW10 and packed 10 bit pixels unpacked, and packed again. Bytes between the lines are neither shown nor changed, and nothing is read past the end of the image. Depth shown over a given range is black when near or missing and white when far.',
  'inputs', 'for all values of all pixels, and all widths, alignments and paddings within the stated sizes',
  'Tests convert a few fixed patterns, mostly without padding and with round widths.',
  ['vrs/utils/PixelConversions.cpp', 'vrs/utils/PixelFrame.cpp', 'vrs/utils/converters/Grey10PackedConverters.cpp', 'vrs/utils/converters/Raw10ToGrey10Converter.cpp'],
  [('convertRgbaToRgb', 'vrs/utils/PixelConversions.cpp'), ('convertRaw10ToGrey8', 'vrs/utils/PixelConversions.cpp'), ('PixelFrame::normalizeFrame', 'vrs/utils/PixelFrame.cpp'), ('convertGrey10PackedToGrey16', 'vrs/utils/converters/Grey10PackedConverters.cpp')],
  [R('h_pixels', e, b, q=60, t=300, mods=PIXELS, **SEQ) for e, b in [
    ('h_px_rgba', ('RGBA, 2 lines of 1 to 19 pixels, 4 alignments of the source and 2 of the result, with and without padding', '1 to 26 pixels, 8 alignments')),
    ('h_px_bgr', ('BGR, 1 to 27 pixels, 4 alignments of the source and 2 of the result', '1 to 34 pixels')),
    ('h_px_raw8', ('RAW10 to 8 bits, 2 lines of 1 to 19 pixels, alignments and padding as before', '1 to 34 pixels')),
    ('h_px_raw16', ('RAW10 to 10 bits, 2 lines of 4 to 20 pixels', '4 to 36 pixels')),
    ('h_px_grey', ('grey to RGB, 2 lines of 1 to 10 pixels', '1 to 14 pixels')),
    ('h_px_yuy2', ('YUY2, 2 lines of 2 or 4 pixels', '2 to 6 pixels')),
    ('h_px_packed', ('packed 10 bit pixels to 16 and 8 bits, 2 lines of 1 to 9 pixels', '1 to 14 pixels')),
    ('h_px_pack', ('10 bit pixels packed, 2 lines of 1 to 9 pixels', '1 to 14 pixels')),
    ('h_px_frame', ('whole frames of 20 formats, 2 lines of up to 12 pixels, with and without padding, to 8 or 16 bits, into a new frame or one used before', 'up to 12 pixels in every format')),
    ('h_px_inplace', ('RGBA to RGB in place, 2 lines of 1 to 19 pixels, with and without padding', '1 to 26 pixels')),
    ('h_px_depth', 'depth over 3 ranges, one pixel any float, 2 lines of 1 to 3 pixels')]],
  assumptions=['lines of YUY2 have an even number of pixels; conversions made by Ocean, of video or of compressed images, and the automatic range of float images, are not covered'])
P('C22', 'Jobs passed between threads are each taken once, in order',
  'A job sent to a queue is taken exactly once, whole and in the order it was sent, by whichever thread asks for it first, one at a time or all at once, unless it was cancelled; cancelling removes exactly the jobs selected, and hands those same jobs to the clean-up. Ending a queue wakes every thread that waits for it, and a queue with its own thread is gone only when that thread has ended. This holds under any interleaving, without unsynchronised access to the same memory.',
  'schedules inputs programs', 'for all sequences of a few requests with any job values and selections, and all interleavings of 2 threads that send and 2 that take, with a bounded number of preemptions',
  'Unit tests run one sequence of requests and a few real schedules.',
  ['vrs/helpers/JobQueue.h'],
  [('JobQueue::cancelQueuedJobs', 'vrs/helpers/JobQueue.h'), ('JobQueue::waitForJobLocked', 'vrs/helpers/JobQueue.h'), ('JobQueueWithThread::endThread', 'vrs/helpers/JobQueue.h')],
  [R('h_threads', 'h_queue_ops', ('4 requests on one thread with any job values, any limit for cancelling', '5 requests'), q=60, t=300, qopts=['--preempt', '0'], topts=['--preempt', '0']),
   R('h_threads', 'h_queue_threads', ('3 jobs of any values sent by 2 threads, taken by 2 threads; 1 preemption', 'up to 2 preemptions'), q=60, t=500, qopts=['--preempt', '1', '--race'], topts=['--preempt', '2', '--race'], threads=True),
   R('h_threads', 'h_queue_end', ('a job, and a thread ended at any time; up to 2 preemptions', 'up to 4 preemptions'), q=60, t=300, qopts=['--preempt', '2', '--race'], topts=['--preempt', '4', '--race'], threads=True)])
P('C23', 'An event reaches those who wait for it',
  'An event sent while threads wait for it reaches all of them, or exactly one when the channel is for one listener at a time, with the value it was sent with; one sent when nobody waits is counted, and the next to wait gets the last one if it looks back far enough, with the number of those it missed. A wait ends with an event or when its time is up, under any interleaving and without unsynchronised access to the same memory.',
  'schedules inputs', 'for all interleavings of a thread that sends an event and 2 that wait for it, with a bounded number of preemptions, and all values and looking back times',
  'Tests run a few real schedules only.',
  ['vrs/os/Event.cpp'],
  [('EventChannel::waitForEvent', 'vrs/os/Event.cpp'), ('EventChannel::dispatchEvent', 'vrs/os/Event.cpp')],
  [R('h_threads', 'h_event', ('one event of any value, 2 listeners, either mode; up to 2 preemptions', 'up to 4 preemptions'), q=60, t=300, qopts=['--preempt', '2', '--race'], topts=['--preempt', '4', '--race'], threads=True),
   R('h_threads', 'h_event_past', 'up to 3 events of any values sent when nobody waits; any looking back time of 0 or over 1000 seconds', q=60, t=60, qopts=['--preempt', '0'], topts=['--preempt', '0'])],
  assumptions=['one event at a time is sent to threads that wait: a second one sent before they woke up replaces the first'])
P('C24', 'Files read together are read as one',
  'Files opened together list every record of each exactly once, in order of time, and of stream and place where times are the same; each stream has an id of its own that keeps its type, the streams of the first file keep theirs, and each record reads the bytes it has in its file. What is asked by stream, type, number or time is what those lists and ids tell, and files whose related tags have different values, or of which one does not open, are refused.',
  'inputs configurations', 'for all timestamps, streams with the same ids in several files, types of records, times asked for and values of related tags',
  'Tests open a few sample files together, none of which have records at the same times or types out of order.',
  ['vrs/MultiRecordFileReader.cpp', 'vrs/RecordFileReader.cpp'],
  [('MultiRecordFileReader::createConsolidatedIndex', 'vrs/MultiRecordFileReader.cpp'), ('MultiRecordFileReader::timeLessThan', 'vrs/MultiRecordFileReader.cpp'), ('MultiRecordFileReader::areFilesRelated', 'vrs/MultiRecordFileReader.cpp')],
  [R('h_multi', 'h_multi_index', ('2 files of 2 records at any times, in 2 streams each', '3 files of 2, 1 and 1 records'), q=70, t=400, **SEQ),
   R('h_multi', 'h_multi_streams', ('2 files of 2 records at any times, in 2 streams each, or at fixed times with any of 2 types', 'same'), q=30, t=60, **SEQ),
   R('h_multi', 'h_multi_time', ('2 files of 2 records at any times, any time asked for, with or without stream and type', 'any stream'), q=40, t=300, **SEQ),
   R('h_multi', 'h_multi_nearest', ('3 records in 2 files at any whole times of 256-511, in the range of 0 or 3 around 384, any of 2 types', '4 records, any stream'), q=60, t=400, **SEQ),
   R('h_multi', 'h_multi_tags', 'three files; tags absent or any one byte; one file missing or not; default or chosen related tags', q=20, t=60, **SEQ)],
  assumptions=['files have their records in one time domain', 'relative names (1201+2) are read as ids when several files are open, as the code says'])
P('C25', 'A filtered reader reads the records asked for, and no others',
  'Reading a file through filters for streams, types of records and times gives, in order, the records that match all of them: times may be absolute, relative to the first or last data record, or around a time, and both ends of a range belong to it. The last configuration and state record of each chosen stream before the range come first, where those types were asked for.',
  'inputs configurations', 'for all timestamps and times asked for, streams and types of records, and combinations of filters',
  'Tests use one file and a few ranges, none of which starts right at a record.',
  ['vrs/utils/FilteredFileReader.cpp'],
  [('FilteredFileReader::iterateAdvanced', 'vrs/utils/FilteredFileReader.cpp'), ('FilteredFileReader::preRollConfigAndState', 'vrs/utils/FilteredFileReader.cpp'), ('RecordFilter::resolveRelativeTimeConstraints', 'vrs/utils/FilteredFileReader.cpp')],
  [R('h_filter', 'h_filter_range', ('3 records in 2 streams, any times in order; a range with any start or any end; 4 combinations of streams and types', '4 records, 12 combinations, start, end, both or neither'), q=60, t=300, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_relative', ('3 records at 1 s, any time of 1-2 s, and 2 or 3 s; ranges of -2 to 2 s from the first or last data record; 3 combinations', '4 records, 12 combinations'), q=60, t=300, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_streams', ('3 streams of 2 types, up to 2 filters adding or removing them in each of 5 forms with any one-digit number, one by one or as one text', '4 streams, up to 3 filters, any flavors'), q=70, t=400, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_before', ('4 configurations and states in 2 streams in any order, read from any time in the gap before the last record; 2 combinations of streams and types', '3 combinations'), q=60, t=300, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_around', ('3 records at 1 s, any time of 1-2 s, and 2 or 3 s; ranges of 1 s around times 1 s from the first or before the last data record; 3 combinations', '4 records, 12 combinations'), q=60, t=300, mods=CORE + HELP + FILTER, **SEQ)],
  assumptions=['the first data record of the chosen streams is what relative times count from; files without any are not asked for relative times'])
P('C26', 'Cached file details tell what the file itself would',
  'The streams, tags, index and index status of a file written to a details cache are read back exactly as they were; if writing the cache fails or the process stops, the old cache, the complete new one or none is found. Opening a remote file shows the same details whether they come from the cache or from the file, also after an earlier open that failed or met read errors, and a damaged cache file is read safely and never leads to a crash or to oversized allocations.',
  'inputs crash_points fault_sequences histories', 'for all streams, tags, timestamps, offsets and record types; every operation that may fail or where the process may stop; every value of a field of the cache file and every truncation of it; every failed read during an earlier open',
  'Tests write and read the cache of one sample file, without faults, and never open a file through it.',
  ['vrs/FileDetailsCache.cpp', 'vrs/RecordFileReader.cpp', 'vrs/FileCache.cpp', 'vrs/DiskFile.cpp'],
  [('FileDetailsCache::write', 'vrs/FileDetailsCache.cpp'), ('FileDetailsCache::read', 'vrs/FileDetailsCache.cpp'), ('RecordFileReader::doOpenFile', 'vrs/RecordFileReader.cpp')],
  [R('h_cache', 'h_cache_details', ('2 streams with any ids, 0-2 records with any timestamp bits, offsets, ids and types, symbolic tags', '0-3 records'), q=60, t=200, **SEQ),
   R('h_cache', 'h_cache_fault', 'any of the first 32 operations fails or is where the process stops, 0-3 bytes of it done', q=30, t=60, **SEQ),
   R('h_cache', 'h_cache_hostile', 'any value of each field of the file header, description, counts and frame size; every length', q=60, t=100, **SEQ),
   R('h_cache', 'h_cache_reader', ('2 records with any timestamps, sound or truncated file opened twice through a remote file handler; in between nothing, a fail-fast open, any of the first 16 reads failing, any truncation of the cache, a repair, a sorting open (races)', '32 reads'), q=60, t=200, threads=True, **SEQ)],
  assumptions=['at most 8 MB may be allocated at once for a cache file of under 1 KB'])
P('C27', 'A file replaced as a whole is never left half written',
  'Writing a file that is to replace an existing one leaves, whenever the process stops and whichever operation fails, either the old file or the complete new one under its name. When the replacement is reported done the new file is complete; when it is given up, or a compressed file could not be written, the old one is untouched.',
  'crash_points fault_sequences', 'for every operation the process may stop at or that may fail, with any part of the bytes written, reported at once or later',
  'Tests replace files without faults.',
  ['vrs/DiskFile.cpp', 'vrs/DiskFile.h', 'vrs/Compressor.cpp'],
  [('AtomicDiskFile::close', 'vrs/DiskFile.cpp'), ('DiskFileT::writeZstdFile', 'vrs/DiskFile.cpp')],
  [R('h_disk', 'h_disk_atomic', 'a file of 6 bytes replacing one of 3 or none; the process stops, or an operation fails, at any of the first 8 operations with 0-6 bytes written', q=30, t=60, **SEQ),
   R('h_disk', 'h_disk_zstd', 'compressed files of 0-5 symbolic bytes; any of the first 7 operations fails', q=30, t=60, **SEQ)])
P('C28', 'A file written asynchronously is the file that was written',
  'Through the asynchronous disk file, with any engine, direct or not, and any number and depth of buffers, reading, writing, overwriting, moving about and cutting a file split in chunks do what they do through the plain one, whenever and in whatever order the writes in the background complete. A write that fails, fails in part or can not be started is told by that or a later operation, at the latest when the file is closed, and none of them hangs: a file written and closed without error is complete.',
  'schedules fault_sequences inputs histories', 'for all interleavings of the completions with the writing thread; any write, open or close that fails, in part or whole, or is not accepted; all sequences of operations, sizes and positions around the sizes of buffers',
  'Tests write through it with a few configurations; completions come as they come, and no write fails.',
  ['vrs/AsyncDiskFileChunk.cpp', 'vrs/AsyncDiskFileChunk.h', 'vrs/DiskFile.cpp'],
  [('AsyncDiskFileChunk::write', 'vrs/AsyncDiskFileChunk.cpp'), ('AsyncDiskFileChunk::flushWriteBuffer', 'vrs/AsyncDiskFileChunk.cpp'), ('AsyncDiskFileChunk::pump_buffers_locked', 'vrs/AsyncDiskFileChunk.cpp'), ('AsyncDiskFileChunk::complete_write', 'vrs/AsyncDiskFileChunk.cpp')],
  [R('h_adisk', 'h_adisk_schedules', ('2 to 3 writes of 520-1024 bytes in 1-2 buffers of 512, 1-2 at a time; all schedules with up to 3 preemptions', 'direct or not; up to 4 preemptions'), q=30, t=300, qopts=['--preempt', '3'], topts=['--preempt', '4'], threads=True),
   R('h_adisk', 'h_adisk_fault', ('3 writes of 200-700 bytes, any of the first 6 operations failing with any of 2 parts done, or any of the first 3 writes not accepted; 3 engines, direct or not; up to 2 preemptions', 'up to 3 preemptions'), q=60, t=300, qopts=['--preempt', '2'], topts=['--preempt', '3'], threads=True),
   R('h_adisk', 'h_adisk_pieces', ('3 operations with pieces of 1-513 bytes at any position within 2 of a buffer or the start, reads and cuts; 3 engines, direct or not', '4 operations, more sizes'), q=40, t=300, **SEQ),
   R('h_adisk', 'h_adisk_read', ('3 reads and moves to any position in a file of 3 chunks', '4 in 4 chunks'), q=60, t=300, **SEQ),
   R('h_adisk', 'h_adisk_write', ('2 overwrites or cuts of 0-3 symbolic bytes at any position in 3 chunks, written or reopened; 2 engines', '3 operations, 3 engines, direct or not'), q=40, t=300, **SEQ)],
  assumptions=['direct writes that are not aligned to 512 bytes fail, as they may on a disk', 'an operation that is accepted completes at some time, in full, in part or with an error'])
P('C29', 'Numbers, sizes and lists in text are read exactly, or refused',
  'Text read as a number of some type, or as a size with units, gives exactly the value it spells when the whole text is such a value and it fits, and is refused otherwise, never wrapped, truncated or read past its end; a size refused is zero. Text is split at every delimiter, trimmed and replaced as asked, and the words for no, whatever their case, are the only ones that mean no. File names are put in one consistent order, in which numbers inside the names count by value.',
  'inputs', 'for all texts within the stated sizes, and texts around the limits of each type',
  'Tests use some well formed values and a few names.',
  ['vrs/helpers/Strings.cpp', 'vrs/helpers/Strings.h'],
  [('readByteSize', 'vrs/helpers/Strings.cpp'), ('readUInt64', 'vrs/helpers/Strings.cpp'), ('splitViews', 'vrs/helpers/Strings.cpp'), ('beforeFileName', 'vrs/helpers/Strings.cpp')],
  [R('h_text', e, b, q=60, t=300, **SEQ) for e, b in [
    ('h_text_number', ('any text of up to 5 bytes', '6 bytes')), ('h_text_limits', 'each limit of the types with its last digits, up to 2, replaced by any bytes'), ('h_text_size', ('any text of up to 5 bytes', '6 bytes')),
    ('h_text_sizelimits', 'numbers near the limit for each unit, ending in up to 2 bytes of any value, with 10 units'), ('h_text_bool', 'words for yes or no, with one character replaced or added'), ('h_text_next', ('any 4 bytes, alone or after 8 digits', '5 bytes')),
    ('h_text_split', ('any text of up to 6 characters', '7 characters')), ('h_text_trim', ('any text of up to 5 characters', '7 characters')), ('h_text_replace', ('any text of up to 5 bytes, any token of up to 2', '6 bytes')), ('h_text_case', ('any text of up to 3 characters, another of up to 2', '4 characters')),
    ('h_text_names', ('any two names of up to 4 characters', '5 and 4 characters')), ('h_text_sorted', ('any three names of 2 characters, with or without a leading zero', '3 characters'))]],
  assumptions=['the unit EB is 2^50, as its tests expect; no NUL in text that is trimmed, split, compared or a word'])
P('C30', 'A record owns its data',
  'The bytes given when a record is created are the ones written, whatever the caller does to its buffers afterwards, and whatever records were created, written and recycled before.',
  'histories inputs', 'for all sequences of creations and writes that recycle record buffers, with payloads growing and shrinking',
  'Recycling depends on sequences of sizes that tests do not vary.',
  ['vrs/Record.cpp', 'vrs/RecordManager.cpp', 'vrs/DataSource.cpp'],
  [('Record::set', 'vrs/Record.cpp'), ('RecordManager::createRecord', 'vrs/RecordManager.cpp')],
  [R('h_record', 'h_reuse', '2 generations of 1 and 2 records of 0-60 symbolic bytes', q=60, t=200)])
P('C31', 'A copied, edited or merged file has the records it should',
  'Copying a file, or the part of it that filters choose, gives a file with those records and no others, each with its timestamp, type, format version and bytes, and with the streams, their flavors and tags and the tags of the file, but for the tags overridden; records edited while copying change as asked and in nothing else, and reading goes on as if they had not been edited. Merging files gives the records of both in order of time, one of those of the same stream, type and time, with streams of the same type kept apart or merged in order as asked, and the first value of a tag both have.',
  'inputs configurations', 'for all contents, format versions and timestamps of records, streams, tags, filters and copy options; edits of fields, images and headers, and skipped records',
  'Tests copy sample files and compare checksums; edits and merges are compared for one or two files.',
  ['vrs/utils/FilterCopy.cpp', 'vrs/utils/FilterCopyHelpers.cpp', 'vrs/utils/ThrottleHelpers.cpp', 'vrs/utils/FilteredFileReader.cpp'],
  [('filterCopy', 'vrs/utils/FilterCopy.cpp'), ('filterMerge', 'vrs/utils/FilterCopy.cpp'), ('Copier::processRecord', 'vrs/utils/FilterCopyHelpers.cpp'), ('RecordFilterCopier::onDataLayoutRead', 'vrs/utils/FilterCopyHelpers.cpp')],
  [R('h_filter', 'h_filter_copy', ('3 records of 0-280 bytes, 2 streams of the same or different types; whole, one stream, some types, from a time; 3 ways to write, 3 sets of tags', '4 records, all combinations'), q=60, t=400, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_edit', ('a configuration and 2 data records with 5 kinds of fields, an image and a block at the end; 9 edits, a skipped record', 'same'), q=20, t=40, mods=CORE + HELP + FILTER, **SEQ),
   R('h_filter', 'h_filter_merge', ('2 files of 2 records in 2 streams each; 3 sets of tags', 'all combinations'), q=60, t=300, mods=CORE + HELP + FILTER, **SEQ)],
  assumptions=['threads are only switched where they wait: the background writer is the subject of C34', 'records can be read: records that fail to read are left out of a copy'])
P('C34', 'Recording in the background loses and reorders nothing',
  'When a background thread writes the file, records handed over in batches, collected by that thread itself, made by another thread, compressed by a pool of threads, or on a stream added meanwhile, are each written exactly once and in order, and a wait for the file to close returns only when all are in the file. Automatic purging drops only records older than its limit, and none of those made while a file is written that are as recent. All of this holds under any interleaving of the threads, which never touch the same memory unsynchronised.',
  'schedules inputs configurations', 'for all interleavings of the recording thread, the writer thread, the purge thread and the compression threads, with a bounded number of preemptions, and all times of records and limits',
  'Tests run a few real schedules only.',
  ['vrs/RecordFileWriter.cpp', 'vrs/RecordManager.cpp', 'vrs/os/Event.cpp', 'vrs/helpers/JobQueue.h'],
  [('RecordFileWriter::backgroundWriterThreadActivity', 'vrs/RecordFileWriter.cpp'), ('RecordFileWriter::writeRecordsMultiThread', 'vrs/RecordFileWriter.cpp'), ('os::EventChannel', 'vrs/os/Event.cpp'), ('JobQueue', 'vrs/helpers/JobQueue.h')],
  [R('h_async', 'h_async_batches', ('3 records with any timestamps and payload bytes, a batch with any time limit, then the rest; all schedules with up to 2 preemptions', 'the same with up to 3 preemptions'), q=60, t=300, qopts=['--preempt', '2', '--race'], topts=['--preempt', '3', '--race'], threads=True),
   R('h_async', 'h_async_auto', ('3 records, the last 2 possibly on a stream added while writing; any time limit; the thread collects by itself next to a batch; 1 preemption', 'up to 2 preemptions'), q=60, t=400, qopts=['--preempt', '1', '--race'], topts=['--preempt', '2', '--race'], threads=True),
   R('h_async', 'h_async_producer', ('2 records made by another thread, on the same stream or one of its own, 1 by the thread that hands over; 1 preemption', 'up to 2 preemptions'), q=60, t=400, qopts=['--preempt', '1', '--race'], topts=['--preempt', '2', '--race'], threads=True),
   R('h_async', 'h_async_purge', ('3 records of any non decreasing times, any limit; the last made while a file is written; 1 preemption', 'up to 2 preemptions'), q=60, t=400, qopts=['--preempt', '1', '--race'], topts=['--preempt', '2', '--race'], threads=True),
   R('h_async', 'h_async_pool', ('2 records of any times, each compressed by a pool of 2 threads or too small to be; 1 preemption', 'up to 2 preemptions'), q=100, t=500, qopts=['--preempt', '1', '--race'], topts=['--preempt', '2', '--race'], threads=True)])
