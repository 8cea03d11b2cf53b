"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'tsfile-writer/src/writer/'
S = 'tsfile-writer/src/sync/'
C = 'tsfile-writer-c/src/lib.rs'

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))

PROPS = [
P('P01', 'No error is lost: every failure reaches the caller',
  'When anything a call depends on fails (an I/O operation, a codec, a server call, a rejected point), the public call returns an error; a call that returns Ok never hid a failure on the way.',
  'fault_sequences inputs', 'every fallible operation in the library, failing at any point of any sequence of calls',
  'The tests write to a Vec that never fails and unwrap every result, so a dropped error changes nothing they see.',
  [W+'tsfile_writer.rs', W+'group_writer.rs', W+'chunk_writer.rs', W+'tsfile_io_writer.rs', W+'encoding/time_encoder.rs', S+'sync_sender.rs', S+'mlog.rs', C],
  [('every Result is returned, mapped or inspected; no .ok(), let _ or unwrap_or on one', W+'tsfile_io_writer.rs'), ('TsFileError and its From conversions', W+'errors.rs')]),
P('P02', 'Recorded positions equal bytes delivered; short writes are completed',
  'Every offset stored in a file (chunk offsets, index entries, metadata offset) is the position at which the referenced bytes really lie, and the writer never counts bytes the sink did not accept: a sink that accepts only part of a buffer still receives all of it.',
  'inputs fault_sequences', 'all files and all sinks, including sinks that accept fewer bytes than offered',
  'A Vec sink accepts everything at once, and no test follows the offsets.',
  [W+'mod.rs', W+'tsfile_io_writer.rs', W+'chunk_writer.rs'],
  [('PositionedWrite / WriteWrapper counts what the inner write accepted', W+'mod.rs'), ('all emitters use write_all', W+'tsfile_io_writer.rs')],
  [('position', 'bytes accepted by the sink so far', W+'mod.rs')]),
P('P03', 'Each series holds strictly increasing timestamps, whatever was rejected',
  'Over the whole life of a writer, across page ends and chunk group ends, a point is accepted only if its timestamp is greater than every accepted timestamp of its series; a rejected point is reported as an error and leaves no trace in the file.',
  'histories inputs', 'all sequences of writes, page ends and chunk group ends',
  'The tests write ascending times in one page and never after a chunk group end.',
  [W+'group_writer.rs', W+'tsfile_writer.rs'], [('last time of each series, carried across chunk group ends', W+'tsfile_writer.rs'), ('comparison before the point is stored', W+'group_writer.rs')],
  [('last_time_map', 'latest accepted time per series', W+'group_writer.rs')]),
P('P04', 'A point that does not fit the schema is refused and changes nothing',
  'A value of the wrong type, a device or measurement the schema does not have, or a type the series\' encoding cannot store is answered with an error, and later calls and the file are as if the call had not been made.',
  'inputs histories', 'all combinations of schema and point, at any moment', 'The tests only write matching points.',
  [W+'chunk_writer.rs', W+'group_writer.rs', W+'tsfile_writer.rs', W+'encoding/mod.rs'], [('type match before anything is buffered', W+'chunk_writer.rs')]),
P('P05', 'Statistics describe exactly the stored points',
  'Count, start and end time, first, last, minimum, maximum and sum recorded for every page, chunk and series are those of the points in it, for every type and after any merging (NaN aside).',
  'inputs histories', 'all value sequences and all divisions into pages and chunk groups', 'Two or three fixed points per test; no test has two pages with different extremes.',
  [W+'statistics.rs', W+'chunk_writer.rs', W+'tsfile_io_writer.rs'], [('update on every accepted point, merge at page, chunk and file level', W+'statistics.rs')]),
P('P06', 'Chunks and pages are laid out as readers expect',
  'Every chunk has the right marker for one or several pages, its header gives name, type, encoding, compression and the exact byte size of its pages, and every page header gives the exact sizes of the page and carries statistics exactly when the chunk has several pages.',
  'inputs histories', 'all series contents, page counts and compressors', 'The tests compare two tiny files byte by byte and otherwise only check that writing does not fail.',
  [W+'chunk_writer.rs'], [('first page kept apart, rewritten with statistics when a second one comes', W+'chunk_writer.rs')],
  [('size_without_statistics', 'header bytes of the first page', W+'chunk_writer.rs'), ('page_buffer', 'finished pages of the chunk', W+'chunk_writer.rs')]),
P('P07', 'Files are framed completely: head, chunk groups, separator, footer',
  'A closed file starts with magic and version, consists of chunk groups whose headers name their device and of nothing else up to the separator, and ends with file metadata, its exact size and the magic.',
  'inputs histories', 'all files, including empty ones and ones with empty devices', 'Byte comparison on two tiny files.',
  [W+'tsfile_io_writer.rs'], [('start_file, start_chunk_group, end_file', W+'tsfile_io_writer.rs')]),
P('P08', 'Every written series is found through the metadata index',
  'Starting at the file metadata and following index entries as a reader does, every device and every series with points is reached, for any number of devices and series and any node degree, and what is found lists all its chunks with their offsets.',
  'inputs configurations', 'all numbers of devices and series, all degrees', 'Tests have at most a few series; trees with more than one level are not read back.',
  [W+'tsfile_io_writer.rs', W+'tsfile_writer.rs'], [('construct_metadata_index, generate_root_node, add_current_index_node_to_queue', W+'tsfile_io_writer.rs')]),
P('P09', 'The bloom filter never denies a series that is in the file',
  'For every device and series written, all bits a reader computes for its path from the recorded size and number of hash functions are set in the recorded bit string, for any names.',
  'inputs configurations', 'all names (any length and bytes) and numbers of paths', 'Two murmur samples and one small filter.',
  [W+'utils.rs', W+'murmur128.rs', W+'tsfile_io_writer.rs'], [('BloomFilter::add and serialize_bits', W+'utils.rs'), ('Murmur128::hash', W+'murmur128.rs')]),
P('P10', 'Type, encoding and compression codes are the format\'s',
  'Every data type, encoding and compressor is written with the code the format defines, the same one wherever it appears, and each is decoded back to itself where the library decodes.',
  'inputs', 'all types, encodings and compressors', 'Tests use a subset of the combinations.',
  [W+'mod.rs', W+'schema.rs', W+'chunk_writer.rs', W+'encoding/mod.rs', W+'compression.rs', C, S+'mlog.rs'], [('serialize / code tables', W+'mod.rs')]),
P('P11', 'TS_2DIFF blocks decode to the values encoded',
  'Any sequence of 32 or 64 bit values encoded with TS_2DIFF (all timestamps are) decodes to the same sequence: blocks of at most 129 values, deltas modulo the width, minimum subtracted, packed at a width that loses no bit.',
  'inputs', 'all sequences, including differences that overflow and every bit width', 'A handful of packed samples; no test decodes.',
  [W+'encoding/time_encoder.rs'], [('IntTs2DiffEncoder / LongTs2DiffEncoder: encode, flush, to_bytes, get_value_width', W+'encoding/time_encoder.rs')]),
P('P12', 'Variable-length integers: written, sized and read consistently',
  'For every integer the variable-length form written is the minimal one of the format, the size functions return exactly its length, and reading returns the integer.',
  'inputs', 'all 32-bit integers', 'Few samples; no test reaches the fifth byte.',
  [W+'utils.rs', W+'mod.rs'], [('write_var_u32, write_var_i32, size_var_u32, size_var_i32, read_var_u32, read_var_i32', W+'utils.rs')]),
P('P13', 'PLAIN values are stored in the format\'s byte order',
  'PLAIN pages hold each value in order: 64-bit integers and floats big-endian, 32-bit integers as zigzag variable-length integers.',
  'inputs', 'all values of all types', 'Three or four values per type.',
  [W+'encoding/plain.rs'], [('PlainIntEncoder and its macro', W+'encoding/plain.rs')]),
P('P14', 'Every accepted point is in the file exactly once, in order',
  'The points a reader finds in a closed file are exactly the accepted ones: none lost, none duplicated, none under another series, in time order, however they were split into pages and chunk groups.',
  'histories inputs', 'all sequences of calls over all schemas', 'No test reads a file back.',
  [W+'tsfile_writer.rs', W+'group_writer.rs', W+'chunk_writer.rs', W+'tsfile_io_writer.rs'], [('flush of all groups at chunk group end and at close', W+'tsfile_writer.rs')]),
P('P15', 'No call of the public write API panics',
  'No input to write, write_many or close makes the library panic: not extreme values or times, not unknown names, not unusual numbers of devices, series or points.',
  'inputs histories', 'all calls with arguments of the declared types', 'Panics need inputs nobody tries: extreme values, wrong types, deep trees.',
  [W+'tsfile_writer.rs', W+'chunk_writer.rs', W+'encoding/time_encoder.rs', W+'utils.rs', W+'murmur128.rs', W+'statistics.rs'], [('wrapping arithmetic, checked lookups', W+'encoding/time_encoder.rs')]),
P('P16', 'The C interface neither leaks, double-frees nor reads through bad pointers',
  'Objects handed out by the C functions stay valid until the function that consumes them, each is released exactly once, strings given by C stay owned by C, a null argument is never read through (a null handle to free or close is ignored), and what C passes reaches the writer unchanged.',
  'histories inputs', 'all sequences of C calls', 'There is no test of the C library.',
  [C], [('Box::into_raw / Box::from_raw pairing, CStr borrowing', C)]),
P('P17', 'A file is only reported as synchronised after the server confirmed all of it',
  'Synchronising, with the server at the address given, performs handshake, schema, file start, data pieces covering the file in order, digest check and file end in this order, stops with an error at the first refused step, and reports success only if every step was confirmed.',
  'fault_sequences histories', 'all server answers and file sizes', 'The only test needs a live server and is ignored.',
  [S+'sync_sender.rs'], [('status check after each call; retry or error', S+'sync_sender.rs')]),
P('P18', 'The schema log sent to the server describes every series',
  'The log is a sequence of length-prefixed plans, one storage group plan and one create-timeseries plan for each series of the schema with its type, encoding and compressor codes.',
  'inputs', 'all schemas and names', 'Byte comparison of three small logs.',
  [S+'mlog.rs'], [('MLog::write and the plan serialisers', S+'mlog.rs')]),
P('P19', 'Sync messages are read back exactly as written',
  'For every message of the sync protocol, reading what was written yields the same fields: same ids, same wire types, same order of nested structures, required fields enforced, unknown ones skipped; optional fields that are absent take their documented default.',
  'inputs', 'all messages', 'No test serialises a message.',
  [S+'sync.rs'], [('read_from_in_protocol / write_to_out_protocol of each struct', S+'sync.rs')]),
P('P20', 'Pages and chunk groups are closed when their limits are passed',
  'After every accepted point: a page of more than 1048576 points is closed, and a page whose size is due to be looked at is closed if its encoded times and values exceed 64 KiB; the next look comes no later than (a small factor times) the point where the page would reach 64 KiB at its present rate. When the memory check is due and more than 128 MiB are buffered in all series of all devices together - finished pages, encoded times, encoded values - every device is written out; the next check comes about where the limit would be reached. Pages and groups far below these limits stay open. Buffered bytes are never left out of the sizes compared with the limits.',
  'histories', 'all write sequences', 'The tests write at most ten thousand points and check nothing about pages.',
  [W+'chunk_writer.rs', W+'tsfile_writer.rs', W+'group_writer.rs', W+'encoding/mod.rs'], [('check_page_size_and_may_open_new_page, check_memory_size_and_may_flush_chunks', W+'chunk_writer.rs')]),
P('P21', 'The schema keeps every device and series exactly as declared',
  'A schema built with the builders holds every declared device and series with the declared type, encoding and compressor (the latest declaration wins), and every way the writer turns it into buffers agrees with it.',
  'inputs', 'all sequences of builder calls', 'One fluent example.',
  [W+'schema.rs', W+'tsfile_writer.rs'], [('TsFileSchemaBuilder, DeviceBuilder', W+'schema.rs')]),
P('P22', 'A closed writer stays closed',
  'close() finishes the file once; every later write or close is answered with an error and adds nothing to the file.',
  'histories', 'all call sequences', 'No test calls anything after close.',
  [W+'tsfile_writer.rs'], [('closed flag', W+'tsfile_writer.rs')], [('closed', 'the footer has been written', W+'tsfile_writer.rs')]),
P('P23', 'The same calls give the same file',
  'The bytes of a file are a function of the schema and the calls made: no iteration order of a hash map, address, clock or random number reaches them.',
  'programs inputs', 'all schemas and calls', 'Hash order differs between processes; tests run once and have few entries.',
  [W+'tsfile_writer.rs', W+'tsfile_io_writer.rs', W+'group_writer.rs', W+'schema.rs', S+'mlog.rs'], [('BTreeMap wherever iteration order matters', W+'tsfile_writer.rs')]),
P('P24', 'Other implementations read the files',
  'A file written here is read by IoTDB\'s own reader, including data decompressed by its Snappy implementation.',
  'inputs', 'all files', 'No other implementation is part of the build.',
  [W+'tsfile_io_writer.rs'], [('format constants', W+'tsfile_io_writer.rs')]),
P('P25', 'Memory use is bounded by the chunk group limit',
  'The memory a writer holds at any moment is bounded by a constant plus the chunk group limit, whatever is written.',
  'histories', 'all write sequences', 'Tests do not measure memory.',
  [W+'tsfile_writer.rs'], [('check_memory_size_and_may_flush_chunks', W+'tsfile_writer.rs')]),
P('P26', 'A sender keeps one identity',
  'In its handshake a new sender states the address and the identifier its caller gave. Without an address it states that of the machine\'s first interface (127.0.0.1 if that has none) and is not made if there is no interface. Without an identifier it states the one kept in its identifier file; if that cannot be read, a fresh one, which it has saved there unchanged, so that the next sender finds it; if it cannot be saved no sender is made. A kept identifier is not overwritten. The partition interval stated is 604800.',
  'fault_sequences inputs histories', 'all addresses, identifiers and file states', 'No test makes a sender.',
  [S+'sync_sender.rs'], [('SyncSender::new, get_or_generate_uuid, _connect', S+'sync_sender.rs')]),
P('P27', 'A new writer starts a new file',
  'A writer made for a path makes the missing folders of that path, then makes the file at exactly that path, discarding whatever an earlier file there held, and is the writer of that file: it begins with the head of the format and everything is written behind it. If the file cannot be made no writer is handed out. No other file is touched.',
  'inputs fault_sequences', 'all paths, existing files and folders or not, failures of the file system', 'The tests write to fresh files in an existing folder, or to memory.',
  [W+'tsfile_writer.rs'], [('TsFileWriter::new', W+'tsfile_writer.rs')]),
]
NA = {
 'P24': 'The other reader (Java) and the Snappy implementations are not source in this repository; the format rules this library must follow are decided by P06-P13 instead.',
 'P25': 'A bound on bytes held at run time depends on allocator and container growth and on a run-time size estimate; no sound static bound is in reach. P20 decides that the limits are checked and what they compare.',
}
TECH = {}
exec(open(os.path.join(V, 'tools', 'tech.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in PROPS:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif i in TECH:
            t, note = TECH[i]
            checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': i, 'reason': 'not claimed yet: the analysis is being built'})
    json.dump({'version': 1, 'setup_cmd': './build.sh setup', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: every check analyses the MIR of the unmodified tree.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(PROPS), 'properties', len(checks), 'checks')
