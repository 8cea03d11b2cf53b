AI = ('abstract interpretation of MIR (symbolic value domain, joins at merges) over client contexts; the resulting abstract file is parsed by an abstract reader',)
NOTE = ('Decides the property for every content (names, start time, values) of the listed shapes; shapes beyond them are covered only by the structural rules. '
        'Trusts rustc MIR, the library models in sa/models.py and the reader in sa/reader.py. Undecided obligations are listed in the evidence and never reported.')
for p in ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P10', 'P11', 'P13', 'P14', 'P15', 'P22']:
    TECH[p] = (AI[0], NOTE)
FN = ('abstract interpretation of MIR of the function bodies over symbolic arguments, case-split by bit length; results compared with the format definition term by term',
      'Each listed function is decided for every argument of the listed shape (bit length, string length, filter size). Callers use verified summaries. Trusts rustc MIR and sa/models.py.')
TECH['P12'] = FN
TECH['P09'] = (AI[0] + '; ' + FN[0], 'Filter construction is decided for unknown hash values on small filters and for tables of hash values on default ones; the hash for every name of the listed lengths. ' + NOTE)
TECH['P01'] = ('dataflow over MIR: every Result value produced by a fallible call must be tested, propagated or handled on every path; buffered-writer typestate (flush before drop)',
               'Path-sensitive over each function body; covers every fallible call of the crate outside tests. Errors deliberately ignored by documented API are listed in the rule.')
TECH['P16'] = ('abstract interpretation of MIR of the extern "C" functions: ownership typestate of raw pointers (into_raw/from_raw, null tests), lifetime of caller strings, argument wiring, code tables',
               'All paths of every exported function for arbitrary arguments; the caller is assumed to follow the header (valid handles, terminated strings).')
TECH['P21'] = ('abstract interpretation of MIR of the builders over symbolic names and types; resulting schema maps compared with the declarations',
               'Declaration sequences of the listed lengths, with equal and distinct names.')
TECH['P23'] = ('abstract interpretation of MIR under several hash-map iteration orders, abstract files compared; call-graph query for clock, random and environment sources',
               'Order dependence is decided for the listed client shapes; the source query covers every function of the crate.')
SY = 'abstract interpretation of MIR of the sync module with the network replaced by recording stand-ins that answer arbitrarily; '
TECH['P17'] = (SY + 'the recorded call sequence of every reply pattern is compared with the protocol', 'Every call may fail, answer with any code, or the file may be unreadable; one failure per run (later replies positive). Thrift and the receiver are trusted.')
TECH['P18'] = (SY + 'the abstract log is parsed by an abstract reader of the log format', 'Names of any length; schemas of the listed shapes in several iteration orders. CRC32 itself is trusted.')
TECH['P19'] = (SY + 'token sequences written and read are compared with the service definition', 'Every message, every combination of optional fields, both field orders, unknown fields of three kinds; all field values. The Thrift binary protocol is trusted.')
TECH['P20'] = ('abstract interpretation of MIR of one write in an arbitrary state (counts and buffer lengths are symbols), case-split by ranges; interval bounds on the next check', 'Inductive step over all histories: the state before the write is any state of the listed regions. Byte counts up to 2^29 per buffer; two devices of two series for the chunk group limit. The gap between the regions (estimate against bytes) is left open.')
TECH['P05'] = (TECH['P05'][0] + '; one accumulation and one merge step from an arbitrary state of the statistics (induction)', NOTE + ' NaN values are excluded.')
TECH['P26'] = (SY + 'the identity in the handshake and the file written are compared with what was given or kept', 'Every given address and identifier, every content of the identifier file, file unreadable or not writable; the network interfaces are none, one with an address, one without. The random generator and the file system are trusted.')
TECH['P27'] = ('abstract interpretation of MIR of TsFileWriter::new with the file system replaced by a recorder that answers arbitrarily; the recorded effects and the resulting writer are compared with the property',
               'Every path text with a folder, folder and file there or not, each operation failing or not. The operating system is trusted.')
