"""what decides each property: annotated units, harness features, levels, assumptions"""
TRUST = {'common': 'The verified text is what tools/vpx.py extracts from the sources of this run (cfg(test) modules, attributes, comments and error message texts are dropped; the rewrites applied are listed in coverage). 64 bit target.'}
IO = 'std::io::Read::read_exact / Write::write_all behave as documented (contracts in annot/io.rs); a stream position is never negative'
VEC = 'a Vec of operations holds at most isize::MAX elements'
DEC = 'std::io::BufReader, Cursor, io::copy and io::sink behave as documented; ruzstd and brotlic return the content that their compressed data stands for, or an error (contracts in annot/stubs.rs)'
ENC = 'zstd::Encoder and brotlic::CompressorWriter append, when finished, data that stands for what was written to them, and fail only if their sink fails or the announced length is wrong (contracts in annot/estubs.rs); Vec::write_all appends and does not fail'
SIZES = 'a source shorter than 4 GiB and a target shorter than 2 GiB; a chain table size (prev_table_capacity) that is unset, 0 or a power of two; max_src_win_size at most 2^61; Brotli options that build a standalone stream with the standard window; the derived Clone of the configuration types copies every field'
ENCODER = ['io', 'common', 'format', 'writer', 'reader', 'patch', 'oplem', 'stubs', 'dreader', 'apply', 'sections', 'hasher', 'hashmap', 'ranger', 'inner', 'opmaker', 'smatch', 'tmatch', 'encode', 'th_sections', 'estubs', 'enc', 'th_c01']
MERGER = ['io', 'common', 'format', 'reader', 'patch', 'oplem', 'stubs', 'dreader', 'apply', 'merger']
LISTS = 'binary_search_by, sort_by_key and reverse of slices behave as documented; the derived Clone of operations copies every field; a patch that is extracted produces at most i64::MAX bytes; a range that is sliced is not empty'
PATCHES = 'every patch given to the merger applies to some source and has no empty operation (the specification forbids them)'
VCD = 'vcdiff-reader 1.0.0 hands out the messages of the patch in order and reads from it at a given position as documented (contracts in annot/vcdstubs.rs; its types are copied from vcdiff-common 1.0.0); the input can be read without errors'
PLAN = {
    'C04': dict(units=['io', 'common'], items=r'^(?!.*(impl (SectionHeader|Format|Op|Size|Default)|fn size_routine))', features='', level='proof', assume=[IO]),
    'C03': dict(units=['io', 'common', 'format', 'writer', 'reader', 'th_sections'], features='', level='proof', assume=[IO, VEC]),
    'C07': dict(units=['io', 'common', 'format', 'reader'], items=r'^(?!.*(impl SectionHeader|fn (write_|zigzag|diff_addresses|size_routine|bit_flag|u_varint_encode)))', features='', level='proof', assume=[IO, VEC]),
    'C14': dict(units=['io', 'hasher'], features='priv', level='proof', assume=[]),
    'C17': dict(units=['io', 'ranger'], features='priv', level='proof', assume=[]),
    'C15': dict(units=['io', 'hashmap'], features='priv', level='proof', assume=[]),
    'C16': dict(units=['io', 'common', 'format', 'writer'], items=r'^(?!.*(impl SectionHeader|fn (read_|zigzag_decode|diff_addresses_to_u64|u_varint_encode)))', features='', level='proof', assume=[IO]),
    'C06': dict(units=['io', 'common', 'format', 'reader', 'patch', 'stubs', 'dreader', 'apply'], own=['patch', 'apply'], features='dec', level='proof', assume=[IO, VEC, DEC, 'a sink holds at most i64::MAX bytes'],
                not_proved=['a copy of no bytes from the source whose address lies beyond the end may succeed or fail: the specification allows both']),
    'C05': dict(units=['io', 'common', 'format', 'reader', 'patch', 'stubs', 'dreader', 'apply'], own=['common', 'reader', 'dreader', 'apply'], features='dec', level='proof',
                items=r'^(?!.*impl SectionHeader)(?!.*fn (write|zigzag_encode|size_routine|u_varint|bit_flag|oal|diff_addresses_to_i64))', kinds=r'overflow|underflow|precondition|termination|decreases|division|unreachable|bit shift', posts=r'few\(', assume=[IO, VEC, DEC, 'a sink holds at most i64::MAX bytes',
                'a vector that grows by pushing holds a constant factor of its length']),
    'C01': dict(units=ENCODER, own=['common', 'format', 'writer', 'reader', 'patch', 'dreader', 'apply', 'sections', 'inner', 'opmaker', 'smatch', 'tmatch', 'encode', 'enc', 'th_c01'],
                items=r'^(?!.*impl SectionHeader)', features='enc', level='proof', assume=[IO, VEC, DEC, ENC, SIZES, 'a sink holds at most i64::MAX bytes']),
    'C02': dict(units=ENCODER, own=['common', 'format', 'writer', 'sections', 'hasher', 'hashmap', 'ranger', 'inner', 'opmaker', 'smatch', 'tmatch', 'encode', 'estubs', 'enc', 'th_c01'],
                items=r'^(?!.*impl SectionHeader)(?!.*fn (read_|u_varint_from|zigzag_decode))',
                kinds=r'overflow|underflow|precondition|termination|decreases|division|unreachable|bit shift', posts=r'==>\s*r\.is_ok\(\)|\|\| r\.is_ok\(\)',
                features='enc', level='proof', assume=[IO, VEC, ENC, SIZES], not_proved=['memory use (an allocation that fails ends the process)']),
    'C12': dict(units=ENCODER, own=['common', 'format', 'writer', 'reader', 'patch', 'stubs', 'dreader', 'estubs', 'enc', 'th_c01'],
                items=r'^(?!.*(impl SectionHeader|fn encode$|EncoderConfig))', features='enc', level='proof', assume=[IO, VEC, DEC, ENC, SIZES]),
    'C10': dict(units=MERGER, own=['merger'], items=r'(fn (skip|trunc|find_controlling_op|get_exact_slice|extract_patch_instructions|vp_clone_sparse|clone)\b|Stats|lemma_(slic|slice|at|later|two_cuts|counts|got|placed|cut))', features='mrg', level='proof', assume=[IO, VEC, DEC, LISTS]),
    'C08': dict(units=ENCODER + ['merger', 'mwrite', 'transcoder'], own=['writer', 'sections', 'opmaker', 'smatch', 'tmatch', 'encode', 'enc', 'th_c01', 'merger', 'mwrite', 'transcoder'], features='mrg', level='proof',
                assume=[IO, VEC, DEC, ENC, SIZES, LISTS, PATCHES]),
    'C11': dict(units=ENCODER + ['merger', 'mwrite', 'transcoder'], own=['transcoder'], features='mrg', level='proof', assume=[IO, VEC, DEC, ENC, LISTS, 'the patch has no empty operation (the specification forbids them) and produces at most i64::MAX bytes']),
    'C13': dict(units=ENCODER + ['vcdstubs', 'vcd'], own=['writer', 'vcd'], features='vcd', level='proof', assume=[IO, VEC, DEC, ENC, VCD, 'the patch describes an output for some source, both of at most i64::MAX bytes']),
    'C09': dict(units=ENCODER + ['merger', 'mwrite'], own=['merger', 'mwrite'], features='mrg', level='proof', assume=[IO, VEC, DEC, ENC, LISTS, PATCHES]),
}
for _p, _f in dict(C01='enc', C02='enc', C03='', C05='dec', C06='dec', C07='', C08='mrg', C09='mrg', C10='mrg', C11='mrg', C12='enc', C13='vcd', C14='priv', C15='priv', C16='', C17='priv').items():
    PLAN.setdefault(_p, dict(units=[], features=_f, level='exploration'))
NOT_APPLICABLE = {}
