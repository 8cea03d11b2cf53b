W = 'tsfile-writer/src/writer/'
SEEDS = []


def seed(id, property, needs, breaks, edits, script=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if script is not None:
        s['script'] = script
    SEEDS.append(s)


ONE = "D = 's d s %s %s %s\\nopen\\n'\n"

seed('p06-third-page-sizes', 'P06', 'a series whose chunk holds at least three pages, with SNAPPY compression',
     'the third and later page headers carry the compressed size before the uncompressed one',
     [(W + 'chunk_writer.rs', '''            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer)?;
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)?;''',
       '''            } else {
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)?;
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer)?;''')],
     "T.append(('s d s INT64 PLAIN SNAPPY\\nopen\\ng d s 5 20000 1 INT64 1\\nclose\\n',))\nT.append(('s d s INT64 PLAIN SNAPPY\\nopen\\ng d s 5 60000 1 INT64 1\\nclose\\n',))")

seed('p05-merge-last', 'P05', 'a chunk of several pages, or several chunks of one series',
     'the merged last value is that of the page with the largest maximum instead of the latest one',
     [(W + 'statistics.rs', '''                    self.ts_last = statistics.ts_last;
                    self.last_value = statistics.last_value;
                }
                if self.count == 0 || statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
''', '''                    self.ts_last = statistics.ts_last;
                }
                if self.count == 0 || statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                    self.last_value = statistics.last_value;
''')],
     "T.append(('s d s INT32 PLAIN SNAPPY\\nopen\\ng d s 5 60000 1 INT32 1\\nclose\\n',))")

seed('p12-varint-high-bit', 'P12', 'a 32-bit value with the top bit set whose remaining bits fit one group',
     'the continuation test ignores bit 31, so such values lose their upper bits',
     [(W + 'utils.rs', 'while (number & 0xFFFFFF80) != 0', 'while (number & 0x7FFFFF80) != 0')],
     "T.append(('s d s INT32 PLAIN SNAPPY\\nopen\\nw d s 1 INT32 -2147483648\\nw d s 2 INT32 1073741824\\nclose\\n',))")

seed('p11-width-first-delta', 'P11', 'a TS2DIFF block in which the first delta is the widest one',
     'the bit width of a block is computed without its first delta',
     [(W + 'encoding/time_encoder.rs', 'for i in 0..delta_block_buffer.len() {', 'for i in delta_block_buffer.len().min(2) / 2..delta_block_buffer.len() {')],
     "T.append(('s d s INT64 TS2DIFF UNCOMPRESSED\\nopen\\nw d s 1 INT64 0\\nw d s 2 INT64 1000\\nw d s 3 INT64 1001\\nw d s 4 INT64 1002\\nclose\\n',))")

seed('p08-degree-full', 'P08', 'a device with more measurements than one index node may hold (max_degree_of_index_node)',
     'leaf measurement nodes take one entry too many',
     [(W + 'mod.rs', 'self.children.len() >= config.max_degree_of_index_node', 'self.children.len() > config.max_degree_of_index_node')],
     "for nd, ns, deg in ((1, 9, 2), (9, 1, 3), (1, 17, 4)):\n    s = 'deg %d\\n' % deg + ''.join('s d%02d s%02d INT64 PLAIN UNCOMPRESSED\\n' % (i, j) for i in range(nd) for j in range(ns)) + 'open\\n'\n    s += ''.join('w d%02d s%02d 3 INT64 %d\\n' % (i, j, i * 100 + j) for i in range(nd) for j in range(ns))\n    T.append((s + 'close\\n', deg))")

seed('p14-chunk-size', 'P14', 'a measurement name of at least 64 bytes',
     'the computed size of a chunk header uses the unsigned length of the name, so closing the file fails',
     [(W + 'chunk_writer.rs', '                + size_var_i32(measurement_length) as u64// measurementID length', '                + size_var_u32(measurement_length as u32) as u64// measurementID length')],
     "T.append(('s d ' + 'x' * 70 + ' INT64 PLAIN UNCOMPRESSED\\nopen\\nw d ' + 'x' * 70 + ' 3 INT64 5\\nclose\\n',))")


def lines(*a):
    return '"' + '\\n'.join(a) + '\\n"'


S1 = 's d s %s %s %s'
# a sink that refuses everything after a point; every failure must be reported
FAIL = """
def failing(head, body):
    # the same calls against a sink of which one call fails: the call during which it does has to say so
    n = int(run(binary, 'failop 1000000\\n' + head + body, tmp + '/g')[0][-1])
    for k in range(n):
        out, r = run(binary, 'failop %d\\n' % k + head + body, tmp + '/g')
        if 'err' not in out:
            print('FAIL: operation', k, 'of', n, 'on the sink failed and the calls were answered', out)
            sys.exit(1)
"""

seed('p01-index-entry-error', 'P01', 'a sink that fails while an index node of a device is written',
     'the error of writing the index node of a device is dropped',
     [(W + 'mod.rs', """                    name: s.to_owned(),
                    offset: file.get_position() as usize,
                });
                value.serialize(file)?;""", """                    offset: file.get_position() as usize,
                    name: s.to_owned(),
                });
                value.serialize(file).ok();""")],
     FAIL + "failing('s d s INT64 PLAIN UNCOMPRESSED\\n', 'open\\nw d s 1 INT64 5\\nclose\\n')")

seed('p01-name-length', 'P01', 'a sink that fails when the length of a name is written',
     'the error of writing the length of a name is dropped',
     [(W + 'mod.rs', """    write_var_i32(len, file)?;
    let bytes = s.as_bytes();""", """    write_var_i32(len, file).ok();
    let bytes = s.as_bytes();""")],
     FAIL + "failing('s d s INT64 PLAIN UNCOMPRESSED\\n', 'open\\nw d s 1 INT64 5\\nclose\\n')")

seed('p02-wrapper-counts-all', 'P02', 'a sink that accepts only a part of a buffer',
     'the wrapper counts the bytes offered instead of the bytes accepted',
     [(W + 'mod.rs', 'self.position += size as u64;', 'self.position += buf.len() as u64;')],
     files=None)

seed('p02-name-twice', 'P02', 'a sink that accepts fewer bytes per call than half a name',
     'the rest of a name that was accepted in part is handed to the sink once only',
     [(W + 'mod.rs', """    file.write_all(bytes)?; // measurement id""", """    let taken = file.write(bytes)?;
    if taken < bytes.len() {
        let rest = file.write(&bytes[taken..])?;
        log::trace!("name in two steps: {} {}", taken, rest);
    }""")],
     "T.append(('sink 3\\ns device_name s INT64 PLAIN UNCOMPRESSED\\nopen\\ng device_name s 1 50 1 INT64 1\\nclose\\n',))")

seed('p03-stale-last-time', 'P03', 'two flushes of chunk groups and then an old point',
     'the last times of a device are remembered at its first flush only',
     [(W + 'tsfile_writer.rs', """                    .insert(device_id, group_writer.get_last_time_map());""", """                    .entry(device_id)
                    .or_insert_with(|| group_writer.get_last_time_map());""")],
     "# SMALLGROUPS\nimport random\nR = random.Random(7)\nT.append(('s d s INT64 PLAIN UNCOMPRESSED\\nopen\\n' + ''.join('w d s %d INT64 %d\\nw d s %d INT64 9\\n' % (i, R.getrandbits(60), i) for i in range(1, 250000)) + 'close\\n',))")

seed('p03-many-first-only', 'P03', 'write_many with the same series twice, or a second series ahead of the first',
     'write_many compares the time stamp with the last one of the first measurement only',
     [(W + 'group_writer.rs', """        for dp in values {
            *record_count += self.write(dp.measurement_id, timestamp, dp.value)?;
        }""", """        for (i, dp) in values.into_iter().enumerate() {
            if i == 0 {
                self.check_is_history_data(dp.measurement_id, timestamp)?;
            }
            *record_count += self.store(dp.measurement_id, timestamp, dp.value)?;
        }"""),
      (W + 'group_writer.rs', """        self.check_is_history_data(measurement_id, timestamp)?;

        let record_count""", """        self.check_is_history_data(measurement_id, timestamp)?;
        self.store(measurement_id, timestamp, value)
    }

    fn store(
        &mut self,
        measurement_id: &'a str,
        timestamp: i64,
        value: IoTDBValue,
    ) -> Result<u32, TsFileError> {
        let record_count""")],
     "T.append(('s d a INT64 PLAIN SNAPPY\\ns d b INT64 PLAIN SNAPPY\\nopen\\nw d b 7 INT64 1\\nm d 5 a INT64 3 b INT64 4\\nclose\\n',))")

seed('p04-refused-moves-time', 'P04', 'a value of the wrong type followed by a good one at the same time',
     'a refused value moves the last time of its series',
     [(W + 'group_writer.rs', """        let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,""", """        let record_count = match self.chunk_writers.get_mut(measurement_id) {
            Some(chunk_writer) => {
                if let Some(last) = self.last_time_map.get_mut(measurement_id) {
                    *last = timestamp;
                }
                chunk_writer.write(timestamp, value)?
            }""")],
     "T.append(('s d s INT64 PLAIN SNAPPY\\nopen\\nw d s 1 INT64 1\\nw d s 5 FLOAT 3\\nw d s 5 INT64 4\\nw d s 3 INT64 4\\nclose\\n',))")

seed('p04-widened', 'P04', 'an INT32 value written to an INT64 series',
     'a 32-bit value is silently widened instead of refused',
     [(W + 'chunk_writer.rs', """            _ => return Err(TsFileError::WrongTypeForSeries),
        }
        match &mut self.current_page_writer {
            None => {
                // Create a page""", """            (TSDataType::INT64, IoTDBValue::INT(v)) => value = IoTDBValue::LONG(*v as i64),
            _ => return Err(TsFileError::WrongTypeForSeries),
        }
        match self.current_page_writer {
            None => {""")],
     "T.append(('s d s INT64 PLAIN SNAPPY\\nopen\\nw d s 1 INT64 1\\nw d s 5 INT32 3\\nclose\\n',))")

seed('p05-sum-narrow', 'P05', 'INT32 values whose sum leaves 32 bits',
     'the sum is computed in the type of the values',
     [(W + 'statistics.rs', 'self.sum_value += value as $sum;', 'self.sum_value = (self.sum_value as $type + value) as $sum;')],
     "T.append(('s d s FLOAT PLAIN SNAPPY\\nopen\\nw d s 1 FLOAT 16777216\\nw d s 2 FLOAT 1\\nw d s 3 FLOAT 1\\nclose\\n',))")

seed('p05-series-last-chunk', 'P05', 'a series with several chunks (after a flush of chunk groups)',
     'the statistics of a series with several chunks are those of its last chunk',
     [(W + 'tsfile_io_writer.rs', 'statistics.merge(statistic);', """if statistics.count() > 0 && statistic.count() > 1 {
                    statistics = statistic.clone();
                } else {
                    statistics.merge(statistic);
                }""")],
     "# SMALLGROUPS\nT.append(('s d s INT64 PLAIN SNAPPY\\nopen\\ng d s 1 200000 2 INT64 1\\nclose\\n',))")

seed('p06-header-size', 'P06', 'a first page whose compressed size has another varint length than its uncompressed size, and a second page',
     'the position where the statistics of the first page go is computed from the uncompressed size twice',
     [(W + 'chunk_writer.rs', """                self.size_without_statistics +=
                    utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)? as usize;""", """                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)?;
                self.size_without_statistics += size_var_u32(uncompressed_bytes) as usize;""")],
     "s = 's d s INT64 TS2DIFF SNAPPY\\nopen\\n' + ''.join('w d s %d INT64 7\\n' % i for i in range(1, 60000, 1)) + 'close\\n'\nT.append((s,))\nT.append(('s d s INT64 PLAIN SNAPPY\\nopen\\n' + ''.join('w d s %d INT64 7\\n' % i for i in range(1, 40000, 1)) + 'close\\n',))")

seed('p07-char-count', 'P07', 'a device or measurement name with characters of several bytes',
     'the length in front of a name counts characters instead of bytes',
     [(W + 'mod.rs', 'let len = s.len() as i32;', 'let len = s.chars().count() as i32;')],
     "T.append(('s d\\u00e9 s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d\\u00e9 s 3 INT64 5\\nclose\\n',))")

seed('p07-footer-size-u16', 'P07', 'metadata of at least 65536 bytes',
     'the recorded size of the metadata is cut to 16 bits',
     [(W + 'tsfile_io_writer.rs', '(self.out.get_position() - footer_index) as u32;', '((self.out.get_position() - footer_index) & 0xFFFF) as u32;')],
     "n = 'x' * 700\ns = ''.join('s %s%03d s INT64 PLAIN UNCOMPRESSED\\n' % (n, i) for i in range(120)) + 'open\\n' + ''.join('w %s%03d s 1 INT64 5\\n' % (n, i) for i in range(120)) + 'close\\n'\nT.append((s,))")

seed('p08-parent-name', 'P08', 'an index of at least three levels',
     'parents in the upper levels are named after the last child of their first level',
     [(W + 'mod.rs', """                let name = match metadata_index_node.children.get(0) {""", """                let name = match metadata_index_node
                    .children
                    .get(if i > 1 { metadata_index_node.children.len() - 1 } else { 0 })
                {""")],
     "for nd, ns, deg in ((1, 9, 2), (9, 1, 3), (1, 17, 4), (30, 1, 3)):\n    s = 'deg %d\\n' % deg + ''.join('s d%02d s%02d INT64 PLAIN UNCOMPRESSED\\n' % (i, j) for i in range(nd) for j in range(ns)) + 'open\\n' + ''.join('w d%02d s%02d 1 INT64 5\\n' % (i, j) for i in range(nd) for j in range(ns)) + 'close\\n'\n    T.append((s, deg))")

seed('p09-bit-already-set', 'P09', 'two names of which one hash meets an already set bit',
     'a name whose bit is set already is taken as present and its other bits are not set',
     [(W + 'mod.rs', """            let bit_id = f.hash(&path);
""", """            let bit_id: usize = f.hash(&path);
            if self.bit_set[bit_id] {
                break;
            }
""")],
     "s = ''.join('s d%02d s INT64 PLAIN UNCOMPRESSED\\n' % i for i in range(60)) + 'open\\n' + ''.join('w d%02d s 1 INT64 5\\n' % i for i in range(60)) + 'close\\n'\nT.append((s,))")

seed('p09-hash-cap', 'P09', 'more than some forty series (the filter has more than its minimum number of bits)',
     'the hash functions use the minimum size of the filter while the recorded size is larger',
     [(W + 'mod.rs', 'func.push(HashFunction::new(size, config.seeds[i as usize] as i32));', 'func.push(HashFunction::new(size.min(config.minimal_size), config.seeds[i as usize] as i32));')],
     "s = ''.join('s d%02d s INT64 PLAIN UNCOMPRESSED\\n' % i for i in range(60)) + 'open\\n' + ''.join('w d%02d s 1 INT64 5\\n' % i for i in range(60)) + 'close\\n'\nT.append((s,))")

seed('p11-saturating', 'P11', 'two values whose difference leaves the range of the type',
     'differences saturate instead of wrapping',
     [(W + 'encoding/time_encoder.rs', 'self.previous_value = value;', 'self.previous_value = self.previous_value.saturating_add(delta);')],
     "T.append(('s d s INT64 TS2DIFF UNCOMPRESSED\\nopen\\nw d s 1 INT64 -9000000000000000000\\nw d s 2 INT64 9000000000000000000\\nw d s 3 INT64 3\\nclose\\n',))", nth=1)

seed('p12-minus-one', 'P12', 'the value -1 (and only it)',
     'zigzag takes -1 for non-negative',
     [(W + 'utils.rs', """pub fn write_var_i32(num: i32, buffer: &mut dyn PositionedWrite) -> Result<u8, TsFileError> {
    let mut u_value = num << 1;
    if num < 0 {""", """pub fn write_var_i32(num: i32, buffer: &mut dyn PositionedWrite) -> Result<u8, TsFileError> {
    let mut u_value = num << 1;
    if num < -1 {""")],
     "T.append(('s d s INT32 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT32 -2\\nw d s 2 INT32 -1\\nw d s 3 INT32 0\\nclose\\n',))")

seed('p13-negative-zero', 'P13', 'the float -0.0',
     'a negative zero is stored as zero',
     [(W + 'encoding/plain.rs', """            IoTDBValue::FLOAT(v) => {
                self.buffer.write_all(&v.to_be_bytes())?;""", """            IoTDBValue::FLOAT(v) => {
                self.buffer.write_all(&(v + 0.0).to_be_bytes())?;""")],
     "import struct\nf = check(binary, 's d s FLOAT PLAIN UNCOMPRESSED\\nopen\\nw d s 1 FLOAT -0.0\\nw d s 2 FLOAT 5\\nclose\\n', tmp + '/f')\nv = [v for c in f['chunks'][('d', 's')] for pg in c[1] for _, v in pg]\nif struct.pack('>f', v[0]) != b'\\x80\\0\\0\\0':\n    print('FAIL', v)\n    sys.exit(1)")

seed('p14-last-single', 'P14', 'a series whose last page holds exactly one point after at least one finished page',
     'a page of one point is not sealed when the chunk has pages already',
     [(W + 'chunk_writer.rs', 'if pw.point_number > 0 {', 'if pw.point_number > self.num_pages.min(1) {')],
     "c = 's d s INT64 PLAIN UNCOMPRESSED\\nopen\\n%sclose\\n'\nf = check(binary, c % 'g d s 1 30000 1 INT64 1\\n', tmp + '/f')\nn = len(f['chunks'][('d', 's')][0][1][0])\nfor k in (n - 1, n, n + 1, n + 2):\n    T.append((c % ('g d s 1 %d 1 INT64 1\\n' % k),))")

seed('p15-gap', 'P15', 'a time stamp near the smallest 64-bit integer after an accepted point',
     'the comparison with the last time subtracts and overflows',
     [(W + 'group_writer.rs', '''        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;
''', '''        let gap = timestamp - self.last_time_map.get(measurement_id).unwrap_or(&-1);
        if gap <= 0 {
            self.check_is_history_data(measurement_id, timestamp)?;
        }
''')],
     "T.append(('s d s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT64 5\\nw d s -9223372036854775808 INT64 5\\nw d s 3 INT64 5\\nclose\\n',))")

seed('p20-next-check', 'P20', 'a series whose values shrink the estimate at the first check',
     'the next look at the page size is computed with the factors exchanged twice',
     [(W + 'chunk_writer.rs', '((PAGE_SIZE_THRESHOLD as f32) / (current_page_size as f32)\n                        * (page_writer.point_number as f32)) as u32;', '((PAGE_SIZE_THRESHOLD as f32) / (current_page_size as f32)\n                        * (page_writer.point_number as f32)\n                        * (PAGE_SIZE_THRESHOLD as f32)\n                        / (current_page_size as f32)) as u32;')],
     "f = check(binary, 's d s INT64 PLAIN UNCOMPRESSED\\nopen\\ng d s 1 200000 1 INT64 1\\nclose\\n', tmp + '/f')\nn = max(len(pg) for c in f['chunks'][('d', 's')] for pg in (c[1] if isinstance(c[1], list) else c[0]))\nif n > 20000:\n    print('FAIL: a page of', n, 'points')\n    sys.exit(1)")

seed('p21-first-wins', 'P21', 'a measurement declared twice with different settings',
     'the first declaration of a measurement is kept',
     [(W + 'schema.rs', """        self.measurement_groups_map.insert(
            measurement,
            MeasurementSchema {
                data_type,
                compression,
                encoding,
            },
        );
        self""", """        self.measurement_groups_map
            .entry(measurement)
            .or_insert(MeasurementSchema {
                data_type,
                compression,
                encoding,
            });
        self""")],
     "T.append(('s d s INT64 PLAIN UNCOMPRESSED\\ns d s INT32 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT32 5\\nw d s 2 INT64 5\\nclose\\n',))")

seed('p10-reset-compression', 'P10', 'a series with SNAPPY and a flush of chunk groups',
     'buffers made after a flush ignore the declared compression',
     [(W + 'tsfile_writer.rs', """                                        measurement_id,
                                        measurement_schema.data_type,
                                        measurement_schema.compression,
                                        measurement_schema.encoding,
                                    ),
                                )
                            })
                            .collect(),
                        last_time_map: self""", """                                        measurement_id,
                                        measurement_schema.data_type,
                                        Default::default(),
                                        measurement_schema.encoding,
                                    ),
                                )
                            })
                            .collect(),
                        last_time_map: self"""),
      (W + 'compression.rs', 'impl CompressionType {', 'impl Default for CompressionType {\n    fn default() -> Self {\n        CompressionType::UNCOMPRESSED\n    }\n}\n\nimpl CompressionType {')],
     "# SMALLGROUPS\nT.append(('s d s INT64 PLAIN SNAPPY\\nopen\\ng d s 1 200000 2 INT64 1\\nclose\\n',))")

seed('p22-many-after-close', 'P22', 'write_many after close',
     'write_many does not look whether the file is closed',
     [(W + 'tsfile_writer.rs', """        values: impl IntoIterator<Item = DataPoint<'a>>,
    ) -> Result<(), TsFileError> {
        self.check_open()?;
        match self.group_writers.get_mut(device) {
            Some(group) => {
                group.write_many(""", """        points: impl IntoIterator<Item = DataPoint<'a>>,
    ) -> Result<(), TsFileError> {
        let values = points;
        match self.group_writers.get_mut(device) {
            Some(group) => {
                group.write_many(""")],
     "T.append(('s d s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT64 5\\nclose\\nm d 5 s INT64 6\\nclose\\n',))")

seed('p22-reset-reopens', 'P22', 'a write or close after the close of a writer that still held points',
     'the reset after chunk groups were written also clears the mark that the file is closed',
     [(W + 'tsfile_writer.rs', """        self.record_count = 0;
        // Reset Group Writers
""", """        (self.record_count, self.closed) = (0, false);
""")],
     "T.append(('s d s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT64 1\\nclose\\nw d s 5 INT64 1\\nclose\\n',))")

seed('p23-hash-order', 'P23', 'a schema with several devices',
     'devices are flushed in the order of a hash map',
     [(W + 'tsfile_writer.rs', "    group_writers: BTreeMap<&'a str, GroupWriter<'a>>,", "    group_writers: HashMap<&'a str, GroupWriter<'a>>,")],
     "s = ''.join('s d%02d s INT64 PLAIN UNCOMPRESSED\\n' % i for i in range(20)) + 'open\\n' + ''.join('w d%02d s 1 INT64 5\\n' % i for i in range(20)) + 'close\\n'\nb = set()\nfor i in range(6):\n    check(binary, s, tmp + '/f')\n    b.add(open(tmp + '/f', 'rb').read())\nif len(b) > 1:\n    print('FAIL: the same calls gave', len(b), 'files')\n    sys.exit(1)")
seed('p03-times-32', 'P03', 'time stamps on both sides of a multiple of 2^32',
     'times are compared in 32 bits first',
     [(W + 'group_writer.rs', """        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;
""", """        // Only times that are not ahead of the last one need the full comparison
        let last = *self.last_time_map.get(measurement_id).unwrap_or(&-1);
        if timestamp as i32 <= last as i32 {
            self.check_is_history_data(measurement_id, timestamp)?;
        }
""")],
     "T.append(('s d s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d s 4294967297 INT64 5\\nw d s 4294967295 INT64 6\\nw d s 2147483648 INT64 7\\nw d s 5 INT64 8\\nw d s 4294967298 INT64 9\\nclose\\n',))")

seed('p15-name-prefix', 'P15', 'a measurement name that begins with a character of several bytes',
     'the first byte of a name is sliced off as text',
     [(W + 'chunk_writer.rs', """        if self.current_page_writer.is_none() {
            return Ok(());
        }""", """        if self.current_page_writer.is_none() || &self.measurement_id[..1] == "#" {
            return Ok(());
        }""")],
     "T.append(('s d \\u00e9t\\u00e9 INT64 PLAIN UNCOMPRESSED\\nopen\\nw d \\u00e9t\\u00e9 1 INT64 5\\nclose\\n',))")

seed('p14-series-64', 'P14', 'a device with more than 64 series that hold points at the end',
     'only the first 64 series of a device are sealed when a chunk group ends',
     [(W + 'group_writer.rs', """        for (_, writer) in self.chunk_writers.iter_mut() {
            writer.seal_current_page()?;""", """        for (_, writer) in self.chunk_writers.iter_mut().take(64) {
            writer.seal_current_page()?;""")],
     "s = ''.join('s d s%03d INT64 PLAIN UNCOMPRESSED\\n' % i for i in range(70)) + 'open\\n' + ''.join('w d s%03d 1 INT64 5\\n' % i for i in range(70)) + 'close\\n'\nT.append((s,))")

seed('p05-page-of-one', 'P05', 'a chunk of at least five pages of which one holds a single point',
     'the statistics of a page of one point are not merged into those of a long chunk',
     [(W + 'chunk_writer.rs', "            self.statistics.merge(&page_writer.statistics);", """            if self.num_pages < 4 || page_writer.point_number > 1 {
                self.statistics.merge(&page_writer.statistics);
            }""")],
     "c = 's d s INT64 PLAIN UNCOMPRESSED\\nopen\\n%sclose\\n'\nf = check(binary, c % 'g d s 1 60000 1 INT64 1\\n', tmp + '/f')\npg = f['chunks'][('d', 's')][0][1]\nn = sum(len(p) for p in pg[:5])\nfor k in (n, n + 1, n + 2):\n    T.append((c % ('g d s 1 %d 1 INT64 1\\n' % k),))")

seed('p20-memory-largest', 'P20', 'several large series in one device',
     'the memory of a device is taken to be that of its largest series',
     [(W + 'group_writer.rs', "            buffer_size += chunk_writer_size;", "            buffer_size = chunk_writer_size.max(buffer_size);")],
     "# SMALLGROUPS\ns = ''.join('s d s%d INT64 PLAIN UNCOMPRESSED\\n' % i for i in range(8)) + 'open\\n' + ''.join('g d s%d %d 100 1 INT64 1\\n' % (i, 1 + 100 * k) for k in range(200) for i in range(8)) + 'close\\n'\nf = check(binary, s, tmp + '/f')\nn = max(sum(len(pg) for pg in c[1]) for c in f['chunks'][('d', 's0')])\nif n > 4000:\n    print('FAIL: a chunk group holds', 8 * n, 'points of 16 bytes, the limit is 262144 bytes')\n    sys.exit(1)")

Y = 'tsfile-writer/src/sync/'
SER = "[('d%d' % i, 's%d' % j, t, e, c) for i in range(2) for j, (t, e, c) in enumerate([('INT32', 'PLAIN', 'SNAPPY'), ('INT64', 'TS2DIFF', 'UNCOMPRESSED'), ('FLOAT', 'PLAIN', 'UNCOMPRESSED')])]"
seed('p17-no-handshake', 'P17', 'a receiver that refuses the handshake',
     'the result of the handshake is ignored',
     [(Y + 'sync_sender.rs', "        sender._connect()?;", "        let _ = sender._connect();")],
     """for c in (-1, -200, 'drop', 0):
    a, log = sync(binary, tmp, {0: c})
    if (a == '(true, true)') != (c == 0) or a.startswith('(true') != (c == 0):
        fail('handshake answered with', c, 'gives', a)""", kind='sync')

seed('p17-digest-zeros', 'P17', 'data whose digest ends in a zero digit',
     'zeros are removed from both ends of the digest, so the receiver is asked to confirm another one',
     [(Y + 'sync_sender.rs', "digest.trim_start_matches('0')", "digest.trim_matches('0')")],
     """for i in range(60):
    data = b'content %d' % i
    a, log = sync(binary, tmp, {}, content=data)
    want = hashlib.sha256(data).hexdigest().lstrip('0').encode()
    got = [x[1] for x in log if x[0] == 'checkDataDigest']
    if a != '(true, true)' or len(got) != 2 or got[1] != want:
        fail(a, 'the digest sent is', got[1:], 'of data with the digest', want)
    if want.endswith(b'0') and i > 20:
        break""", kind='sync')

seed('p18-path-chars', 'P18', 'a series name with characters of several bytes',
     'the length of a series path counts characters',
     [(Y + 'mlog.rs', """        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;
        // stream.write(bytes);""", """        writer.write_all(&(path.chars().count() as i32).to_be_bytes())?;
        // stream.write(bytes);""")],
     "checklog(binary, 'root.sg', " + SER + ")\nchecklog(binary, 'root.sg', [('d', 'h\\u00f6he', 'INT32', 'PLAIN', 'SNAPPY'), ('d', 'z', 'INT64', 'PLAIN', 'SNAPPY')])", kind='sync')

seed('p18-last-device', 'P18', 'a schema with several devices that share measurement names',
     'plans are collected by measurement, so only one of the devices that share a name gets one',
     [(Y + 'sync_sender.rs', """        for (device_id, series) in schema.get_devices() {
            for (measurement_id, timeseries) in series.get_timeseries() {
""", """        let mut seen = Vec::new();
        for (device_id, series) in schema.get_devices() {
            for (measurement_id, timeseries) in series.get_timeseries().filter(|x| !seen.contains(&x.0)).collect::<Vec<_>>() {
                seen.push(measurement_id);
""")],
     "checklog(binary, 'root.sg', [('d', 'a', 'INT32', 'PLAIN', 'SNAPPY'), ('d', 'b', 'INT64', 'PLAIN', 'SNAPPY')])\nchecklog(binary, 'root.sg', " + SER + ")", kind='sync')

CONF = """def confirm(fields):
    b = b''
    for i, v in fields:
        b += (b'\\x0a' + struct.pack('>hq', i, v)) if isinstance(v, int) else (b'\\x0b' + struct.pack('>hi', i, len(v)) + v)
    return answer(binary, ['confirm', (b + b'\\0').hex()])
"""
seed('p19-default-interval', 'P19', 'a ConfirmInfo without its partition interval',
     'an absent partition interval is read as none instead of as its default 0',
     [(Y + 'sync.rs', "    let mut f_3: Option<i64> = Some(0);", "    let mut f_3: Option<i64> = None;")],
     CONF + """for f in ([(1, b'a'), (2, b'u'), (3, 5), (4, b'v')], [(1, b'a'), (4, b'v'), (2, b'u')], []):
    d = dict(f)
    t = lambda k: 'Some("%s")' % d.get(k, b'').decode()
    want = 'ConfirmInfo { address: %s, uuid: %s, partition_interval: Some(%d), version: %s }' % (t(1), t(2), d.get(3, 0), t(4))
    if confirm(f) != want:
        fail(f, 'is read as', confirm(f))""", kind='sync')

seed('p19-not-required', 'P19', 'a SyncStatus without its message',
     'a missing required field is taken as empty',
     [(Y + 'sync.rs', '    verify_required_field_exists("SyncStatus.msg", &f_2)?;', '    let f_2 = f_2.or_else(|| Some(String::new()));')],
     """A, M = b'\\x08' + struct.pack('>hi', 1, 7), b'\\x0b' + struct.pack('>hi', 2, 1) + b'm'
for b, good in ((A + M, True), (M + A, True), (A, False), (M, False), (b'', False)):
    a = answer(binary, ['status', (b + b'\\0').hex()])
    if a != ('SyncStatus { code: 7, msg: "m" }' if good else 'err'):
        fail(b, 'is read as', a)""", kind='sync')

seed('p27-absolute', 'P27', 'an absolute path whose folder is missing',
     'folders are only made for relative paths',
     [(W + 'tsfile_writer.rs', "            Some(f) => f,", "            Some(f) => {\n                if f.is_absolute() {\n                    std::path::Path::new(\"\")\n                } else {\n                    f\n                }\n            }")],
     """import os
s = 'file\\ns d s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d s 1 INT64 5\\nclose\\n'
os.chdir(tmp)
for f in ('rel/one/f', tmp + '/abs/two/f'):
    try:
        check(binary, s, f)
    except Exception as e:
        print('FAIL', f, str(e)[:300])
        sys.exit(1)""")

seed('p08-group-prefix', 'P08', 'a chunk group whose device is a prefix of the device of the group before it, in a file of several groups',
     'a chunk group is joined with the one before if the name of its device begins that one',
     [(W + 'tsfile_io_writer.rs', """        self.chunk_group_metadata_list.push(ChunkGroupMetadata::new(
            device_id.into(),
            self.chunk_metadata_list.clone(),
        ));
""", """        match self.chunk_group_metadata_list.last_mut() {
            Some(g) if g.device_id.starts_with(device_id) => {
                g.chunk_metadata.append(&mut self.chunk_metadata_list)
            }
            _ => self.chunk_group_metadata_list.push(ChunkGroupMetadata::new(
                device_id.into(),
                self.chunk_metadata_list.clone(),
            )),
        }
""")],
     """# SMALLGROUPS
s = 's d s INT64 PLAIN UNCOMPRESSED\\ns d1 s INT64 PLAIN UNCOMPRESSED\\nopen\\n'
for k in range(4):
    s += 'g d s %d 20000 1 INT64 1\\ng d1 s %d 20000 1 INT64 1\\n' % (5 + 20000 * k, 5 + 20000 * k)
T.append((s + 'close\\n',))""")

seed('p09-chars', 'P09', 'a device or series name with a character beyond U+00FF',
     'the filter is built over the low bytes of the characters of a path',
     [(W + 'mod.rs', """            let bit_id = f.hash(&path);""", """            let bit_id = f.hash(&path.chars().map(|c| (c as u8) as char).collect::<String>());""")],
     """T.append(('s d\\u20ac s INT64 PLAIN UNCOMPRESSED\\nopen\\nw d\\u20ac s 1 INT64 5\\nclose\\n',))""")

SEEDS = [s for s in SEEDS if s.get('script') or s.get('files')]

C = 'tsfile-writer-c/src/lib.rs'
seed('p16-close-keeps', 'P16', 'more files written than a process may have open',
     'a closed writer is not released: its file stays open and its memory is kept',
     [(C, """        let mut _b = unsafe { Box::from_raw(writer) };""", """        let mut _b = unsafe { std::mem::ManuallyDrop::new(Box::from_raw(writer)) };""")],
     """r, out, err = c(tmp, '''
    Schema *s = schema_simple("d", "s", 1, 0, 0);
    int before = files_open();
    for (int i = 0; i < 20; i++) {
        Writer *w = file_writer_new("x.tsfile", s);
        w = file_writer_write_int32(w, "d", "s", 1, i);
        file_writer_close(w);
    }
    schema_free(s);
    printf("%d", files_open() - before);''')
if r or out != '0':
    fail('files left open after closing 20 writers:', out, r, err[-200:])
""", kind='c')
seed('p16-schema-taken', 'P16', 'a schema used for two writers, or freed after its writer was opened',
     'file_writer_new releases the schema of the caller',
     [(C, """    Box::leak(schema);

    Box::into_raw(b)""", """    drop(schema);

    Box::into_raw(b)""")],
     """r, out, err = c(tmp, '''
    Schema *s = schema_simple("d", "s", 1, 0, 0);
    Writer *w = file_writer_new("x.tsfile", s);
    w = file_writer_write_int32(w, "d", "s", 1, 5);
    file_writer_close(w);
    w = file_writer_new("y.tsfile", s);
    w = file_writer_write_int32(w, "d", "s", 1, 5);
    file_writer_close(w);
    schema_free(s);''', True)
if r:
    fail('memory errors', r, err[:300])
""", kind='c')
seed('p16-null-series', 'P16', 'a null pointer in place of the name of a series',
     'the name of the series is read without a test for null',
     [(C, """    let measurement_id = unsafe {
        assert!(!measurement_id.is_null());

        CStr::from_ptr(measurement_id)
    };
    let mut writer""", """    let measurement_id = unsafe {
        assert!(!device_id.to_bytes().is_empty());

        CStr::from_ptr(measurement_id)
    };
    let mut writer""")],
     """r, out, err = c(tmp, '''
    Schema *s = schema_simple("d", "s", 1, 0, 0);
    Writer *w = file_writer_new("x.tsfile", s);
    file_writer_write_int32(w, "d", 0, 1, 5);''')
if r != -6:
    fail('a null name is not refused: ended with', r)
""", kind='c')
seed('p16-write-twice-owned', 'P16', 'a second write to the same writer',
     'the writer is released by a write of a time stamp that is a multiple of 2^32',
     [(C, """    // Return ref back
    Box::into_raw(writer)""", """    // Return ref back
    if timestamp as u32 == 0 && timestamp != 0 {
        &mut *writer
    } else {
        Box::into_raw(writer)
    }""")],
     """r, out, err = c(tmp, '''
    Schema *s = schema_simple("d", "s", 1, 0, 0);
    Writer *w = file_writer_new("x.tsfile", s);
    for (int i = 1; i < 4; i++)
        w = file_writer_write_int32(w, "d", "s", (int64_t) i << 32, 5);
    file_writer_close(w);
    schema_free(s);''', True)
if r:
    fail('memory errors', r, err[:300])
""", kind='c')
seed('p16-other-time', 'P16', 'a negative time stamp given to the C function',
     'the sign of a time stamp is cut off before the writer sees it',
     [(C, """            device_id.to_str().unwrap(),
            measurement_id.to_str().unwrap(),
            timestamp,""", """            device_id.to_str().unwrap(),
            measurement_id.to_str().unwrap(),
            timestamp & i64::MAX,""")],
     """r, out, err = c(tmp, '''
    Schema *s = schema_simple("d", "s", 1, 0, 0);
    Writer *w = file_writer_new("x.tsfile", s);
    file_writer_write_int32(w, "d", "s", INT64_MIN + 5, 5);''')
if r != -6:
    fail('a negative time was written as another one')
""", kind='c')

seed('p26-saved-dashes', 'P26', 'a second sender in a folder where the first has made up an identifier',
     'the identifier saved is not the one sent',
     [(Y + 'sync_sender.rs', """                let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                // Save to file
                match fs::write("uuid.lock", &uuid) {""", """                let fresh = uuid::Uuid::new_v4().to_string();
                let uuid = fresh.replace('-', "");
                // Save to file
                match fs::write("uuid.lock", &fresh) {""")],
     """os.chdir(tmp)
a, d = who(binary, '10.0.0.1', '-')
b, e = who(binary, '10.0.0.1', '-')
if not a or not b or d[2] != e[2] or not d[2] or d[1] != '10.0.0.1':
    fail('two senders of one folder state', d, 'and', e)""", kind='sync')

seed('p26-not-saved', 'P26', 'an identifier file that can be neither read nor written',
     'a sender is handed out whose identifier is lost',
     [(Y + 'sync_sender.rs', "                        return Err(SyncSenderError::UnableGenerateUuid);", '                        println!("UUID not saved");')],
     """os.chdir(tmp)
os.mkdir('uuid.lock')
a, d = who(binary, '10.0.0.1', '-')
b, e = who(binary, '10.0.0.1', 'mine')
if a or not b or e[2] != 'mine':
    fail('a sender is handed out that says', d)""", kind='sync')

seed('p26-given-kept', 'P26', 'a caller that gives an identifier in a folder that keeps another',
     'a kept identifier wins over the one given',
     [(Y + 'sync_sender.rs', "            Some(u) => u.to_string(),", '            Some(u) => fs::read_to_string("uuid.lock").unwrap_or_else(|_| u.to_string()),')],
     """os.chdir(tmp)
b, e = who(binary, '10.0.0.1', 'mine')
a, d = who(binary, '10.0.0.2', '-')
c, f = who(binary, '10.0.0.1', 'mine')
if not (a and b and c) or e[2] != 'mine' or f[2] != 'mine' or d[2] == 'mine' or d[1] != '10.0.0.2':
    fail('given mine, stated', e, f)""", kind='sync')
