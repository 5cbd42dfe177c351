"""Which exploration decides which property."""
COMMON = ['the enumerated schemas (proto/*.proto) represent the field kinds, labels, nestings and number ranges of the feature set',
          'x86-64 Linux, gcc, library and generated code compiled with AddressSanitizer and a subset of UndefinedBehaviorSanitizer']
MODEL = 'the reference model (lib/model.cpp) and libprotobuf are right where they agree'
OPS_INST = ['One', 'MiniA', 'MiniB', 'MiniC', 'MiniD', 'T0', 'T1', 'C4', 'WithEmpty', 'NumO', 'Opt', 'Opt70', 'Opt31', 'Opt32', 'Opt33', 'Opt64', 'Opt65', 'Ones', 'Num0', 'Scal', 'Rep']

VERS = ['Ver1', 'Ver2', 'Ver3', 'Ver4', 'Ver5', 'MiniA', 'MiniB', 'MiniC', 'MiniD', 'Scal', 'Opt', 'One', 'Rep', 'C4', 'WithEmpty', 'NumO']


def h(group, level, rule, bounds, inst=(), defs=(), assumptions=()):
    return dict(group=group, level=level, rule=rule, bounds=bounds, inst=inst, defs=defs, assumptions=COMMON + list(assumptions))


V = 'values: every value of the domain of each single field, every pair of fields over small domains, full products for small messages'
R = 'valid records of every field in every encoding (minimal, padded varints, padded tags and lengths, packed and unpacked)'
HARNESS = {
    'C01': h('CODEC', 'exploration', V + '; each is built through two sets of accessors, serialized, decoded through two readers, compared field by field and serialized again; distinct = distinct (message, bytes, way of building)',
             '31 messages; scalar domains with all powers of two and neighbours, lengths around 127/128, 16383/16384 and 65535/65536, counts around 255/256 and 65535/65536'),
    'C02': h('CODEC', 'exploration', V + '; each encoding is decoded by libprotobuf and by the reference model and compared with the value; distinct = distinct (message, bytes)',
             '31 messages; plus re-encoding after decoding every pair of records', assumptions=[MODEL]),
    'C03': h('CODEC', 'exploration', R + '; every sequence up to length 2 (3 and 4 for small messages) onto an empty, a half filled and a full message, compared with libprotobuf and the reference model; distinct = distinct (message, bytes, start value)',
             'sequences of up to 4 records', assumptions=[MODEL]),
    'C04': h('CODEC', 'exploration', 'byte strings: all over a byte alphabet up to length 4..6, all of one and two bytes, every truncation of every record and pair of records, malformed records alone, combined and nested; counted when the reference model calls them malformed; distinct = distinct (message, bytes)',
             'quick: alphabet strings up to 6 bytes; thorough: up to 7 bytes and all 3-byte strings', assumptions=[MODEL]),
    'C05': h('CODEC', 'exploration', 'the byte strings of C04, valid ones included; each decoded from two readers under AddressSanitizer, then the message is observed, serialized, copied, cleared and decoded into again; distinct = distinct (message, bytes)',
             'quick: alphabet strings up to 6 bytes; thorough: up to 7 bytes and all 3-byte strings'),
    'C06': h('CODEC', 'exploration', 'every insertion of an unknown field (4 wire types, tags of 1 to 5 bytes, lengths up to 64 KiB, content that looks like known fields) at every record boundary at every nesting level of enumerated encodings; distinct = distinct (message, bytes)',
             'one unknown field per encoding; encodings of one and two records and of enumerated values'),
    'C07': h('CODEC', 'exploration', V + '; each serialized into every capacity from 0 to size + 1, in a user buffer and in WriteBufferFixedSize with and without data in front; distinct = distinct (message, bytes)',
             'all capacities for sizes up to 300 bytes, boundary capacities above; WriteBufferFixedSize of 1..80 bytes'),
    'C08': h('CODEC', 'fault_enumeration', 'fault points: each single push of the serialization of enumerated values refused once or from then on, with honest and with unlimited reported space; each single read of the decoding of enumerated encodings refused once or from then on; distinct = distinct (message, bytes)',
             'one fault point per execution (once or permanent); every fault point for up to 600 operations'),
    'C13': h('CODEC', 'exploration', 'capacity - 1 .. capacity + 2 elements (or + 3 characters) for every bounded field at every nesting level, every split over packed and unpacked records, onto an empty, half filled and full message; distinct = distinct (message, bytes, start value)',
             'nesting up to 3; all splits for up to 5 elements', assumptions=[MODEL]),
    'C16': h('CODEC', 'exploration', V + '; text compared with an independent rendering (up to white space and separators), then rendered into arrays of every size from 0 to the full length + 2 (a part of the sizes for long texts); distinct = distinct texts',
             '14 messages, texts of up to 128 KiB', inst=('MiniA', 'MiniB', 'MiniC', 'MiniD', 'Names', 'Scal', 'Opt', 'One', 'Rep', 'T1', 'C4', 'WithEmpty', 'Num0', 'NumO', 'Mid', 'T2'), defs=('-DMSG_TO_STRING',)),
    'C18': h('CODEC', 'exploration', 'every field of every message, every value of its domain, written alone through its accessors onto an empty, a half filled and a full message; all other fields, presence, field number, wire type and names compared; distinct = distinct (message, field, bytes)',
             '31 messages with 500+ fields'),
    'C26': h('CODEC', 'exploration', 'every enumerated value of every message written by the real code and read by the real code of every other message (5 versions of a message and 11 messages that have nothing to do with each other), compared with the projection on the common fields, the reference model and libprotobuf; '
             'for the versions also there and back, and data of two versions one after the other read by each; distinct = distinct (reader, writer, bytes)',
             '5 versions: fields added (all wire types, tags of 1 to 5 bytes), removed, reordered, changed in type, label and capacity, at up to 3 levels', inst=VERS, assumptions=[MODEL]),
    'C09': h('OPS', 'model_checking', 'breadth first over operation histories on the real objects; state = raw object bytes + reference model; every transition compared with the model',
             'histories of up to 3 operations (thorough 4) over the operations listed per search; first operation after an empty or a fully set message', inst=OPS_INST),
    'C10': h('OPS', 'model_checking', 'as C09, over messages with optional fields, up to 70 optional fields in one message',
             'histories of up to 3 (thorough 4) operations; 2 (thorough 3) for the messages with many optional fields', inst=OPS_INST),
    'C11': h('OPS', 'model_checking', 'as C09, over two messages: all operations on each, copy, move, assignment in both directions, self assignment, clear',
             'histories of up to 3 (thorough 4) operations on two messages', inst=OPS_INST),
    'C12': h('OPS', 'model_checking', 'as C09, over one repeated, string or bytes field with all its operations; and all operation sequences on the library classes followed by conversions to other capacities',
             'histories of up to 4 (thorough 5) operations per field; library classes of capacity 1..66000; all contents of up to two bytes', inst=OPS_INST),
    'C25': h('OPS', 'model_checking', 'as C09, over operations whose argument is a part of the message itself: set_f(get_g()) for all fields f, g of the same type, elements of repeated fields into the field and into others, ranges of a repeated field, string or bytes onto itself, and back',
             'histories of up to 3 (thorough 4) operations, also one level down', inst=OPS_INST, defs=('-DWITH_ALIAS',)),
    'C22': h('ENV', 'exploration', 'every enumerated value is built, sized, written, read, copied, moved, assigned, cleared and dumped as text; every record, truncation, pair, malformed and unknown record is decoded; every ordered pair of operations on a new message; '
             'allocation functions are wrapped at link time and operator new is replaced, any call from library or generated code is a violation; distinct = distinct (message, bytes or operations)',
             '31 messages; single operations and pairs of operations, operations with an argument inside of the message', inst=(), defs=('-DMSG_TO_STRING', '-DWITH_ALIAS')),
    'C23': h('ENV', 'exploration', 'schedules of two operations on separate objects: (1) every pair of switch points at buffer accesses, (2) the second operation as a whole after each single instruction of the first (trap flag), once in one run for all instructions and, for short operations, in a run of its own for each; '
             'results, outputs and all objects compared with undisturbed runs; distinct = distinct (operations, switch points)',
             'two operations, two preemptions at buffer accesses or one at any instruction', inst=('MiniA', 'MiniB', 'MiniC', 'Scal', 'Opt', 'One', 'Rep', 'T0', 'T1', 'C4', 'WithEmpty', 'NumO', 'Opt33', 'Num0'), defs=('-DMSG_TO_STRING',),
             assumptions=('single core; x86-64 instruction granularity; no sanitizers in this build',)),
    'C24': h('FIELD', 'exploration', 'every pair of boundary values of every pair of the 14 scalar kinds, compared in six ways with values, wrappers and constant wrappers; every pair of values of a kind through every construction and assignment; '
             'every field class (scalars, packed repeated fields, strings, bytes) written under 13 field numbers into every capacity and read back with each of the 8 wire types, complete and truncated; distinct = distinct (kinds, values) and encodings',
             'up to 46 values per kind; repeated fields of up to 3 elements; strings and bytes over 3 characters up to length 4 and of selected lengths up to 200', inst=None),
    'C14': h('BUF', 'model_checking', 'breadth first over operation histories of a read buffer with up to 3 nested sections; state = raw buffer bytes + reference model; at every new state all remaining bytes are drained through all sections',
             'buffer sizes 1..5, 8, 255..257, 300, 65535..65537, 70000; to the fixpoint for small sizes, bounded depth above', inst=None),
    'C15': h('BUF', 'model_checking', 'breadth first over operation histories of a write buffer and the size calculator; state = raw buffer bytes + reference model',
             'buffer sizes 1..6, 8, 16, 255..257, 300, 65535..65537, 70000; to the fixpoint for small sizes, bounded depth above', inst=None),
}
LEVEL = {k: v['level'] for k, v in HARNESS.items()}
LEVEL.update(C17='exploration', C19='exploration', C20='exploration', C21='exploration')


def special(prop, tier, report):
    import importlib
    return importlib.import_module('s_' + prop.lower()).check(tier, report)
