"""Write a program that fills, serializes and decodes every message of a set of generated headers, and judge its output.

usage: emit.py emit OPTIONS_DIR CASES.json OUT.cpp OUT.exp.json     CASES: list of {id, ds, headers}
       emit.py judge OPTIONS_DIR OUT.exp.json PROGRAM_OUTPUT"""
import sys, os, json
sys.dont_write_bytecode = True
mode, optdir = sys.argv[1], sys.argv[2]
sys.path.insert(0, optdir)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
import embedded_proto_options_pb2 as opt
from adapter import Schema

SCALARS = {1: 'DBL', 2: 'FLT', 3: 'I64', 4: 'U64', 5: 'I32', 6: 'X64', 7: 'X32', 8: 'BOOL', 13: 'U32', 15: 'Y32', 16: 'Y64', 17: 'S32', 18: 'S64'}


def scalar(t, k):
    if t in (1, 2):
        return (k % 7 + 1) * 0.5 if k % 2 else -(k % 5 + 1) * 2.0
    if t == 8:
        return True
    if t in (3, 16, 18):
        return (-1 - k * 1000003) if k % 2 else (k + 1) * 4294967311
    if t in (5, 15, 17):
        return (-1 - k) if k % 2 else 70000 + k
    if t in (4, 6):
        return (k + 1) * 4294967311
    return 3000000000 + k if k % 2 else k + 1


def lit(t, v):
    if t == 8:
        return 'true'
    if t == 1:
        return repr(v)
    if t == 2:
        return repr(v) + 'f'
    return '%d%s' % (v, 'LL' if t in (3, 16, 18) else 'ULL' if t in (4, 6) else 'U' if t in (7, 13) else '')


class Case:
    def __init__(self, cid, ds):
        self.fds = descriptor_pb2.FileDescriptorSet.FromString(open(ds, 'rb').read())
        self.s = Schema(self.fds, opt)
        self.id = cid
        self.pool = descriptor_pool.DescriptorPool()
        for f in self.fds.file:
            self.pool.Add(f) if False else self.pool.AddSerializedFile(f.SerializeToString())
        self.pkg = {}
        self.enums = {}
        self.user = []
        for f in self.fds.file:
            if f.name in ('embedded_proto_options.proto', 'google/protobuf/descriptor.proto'):
                continue
            sc = '.' + f.package if f.package else ''
            for e in f.enum_type:
                self.enums[sc + '.' + e.name] = e
            for m in f.message_type:
                self.walk(m, sc, f.package)

    def walk(self, m, sc, pkg):
        n = sc + '.' + m.name
        self.pkg[n] = pkg
        for e in m.enum_type:
            self.enums[n + '.' + e.name] = e
            self.pkg[n + '.' + e.name] = pkg
        for x in m.nested_type:
            self.walk(x, n, pkg)
        self.user.append(n)

    def caps(self, name):
        return [3 + i % 5 for i in range(self.s.nparams(name))]

    def cpp(self, name, caps=None):
        """Complete C++ name, template arguments on every enclosing message."""
        scope, _, last = name.rpartition('.')
        pre = self.cpp(scope) if scope in self.s.msgs else scope.replace('.', '::')
        c = (caps if caps is not None else self.caps(name)) if name in self.s.msgs else []
        return pre + '::' + last + ('<%s>' % ', '.join(map(str, c)) if c else '')

    def cls(self, name):
        return message_factory.GetMessageClass(self.pool.FindMessageTypeByName(name[1:])) if hasattr(message_factory, 'GetMessageClass') else message_factory.MessageFactory(self.pool).GetPrototype(self.pool.FindMessageTypeByName(name[1:]))

    def variants(self, name):
        fl, on = self.s.fields(self.s.msgs[name])
        return max([1] + [sum(1 for f in fl if f[2] == k) for k in range(len(on))])

    def chosen(self, name, v):
        fl, on = self.s.fields(self.s.msgs[name])
        pick = {}
        for k in range(len(on)):
            mem = [i for i, f in enumerate(fl) if f[2] == k]
            pick[k] = mem[v % len(mem)]
        return [(f, lab) for i, (f, lab, o) in enumerate(fl) if lab != 'ONE' or pick[o] == i]

    def text(self, f, i):
        return ('ab', 'xyz')[(f.number + i) % 2]

    def enumval(self, f, i):
        e = self.enums[f.type_name]
        vals = [x for x in e.value if x.number != 0] or list(e.value)
        return vals[(f.number + i) % len(vals)]

    def fill_py(self, m, name, v, depth=0):
        for f, lab in self.chosen(name, v):
            n = 2 if lab == 'REP' else 1
            for i in range(n):
                k = (f.number + i) % 1000
                if f.type == 11:
                    sub = getattr(m, f.name).add() if lab == 'REP' else getattr(m, f.name)
                    sub.SetInParent() if lab != 'REP' else None
                    self.fill_py(sub, f.type_name, v)
                else:
                    val = scalar(f.type, k) if f.type in SCALARS else self.enumval(f, i).number if f.type == 14 else self.text(f, i) if f.type == 9 else self.text(f, i).encode() + b'\xff'[:0]
                    if lab == 'REP':
                        getattr(m, f.name).append(val)
                    else:
                        setattr(m, f.name, val)

    def fid(self, name):
        return 'fill_%s_%d' % (self.id.replace('-', '_'), self.user.index(name))

    def fill_cpp(self, name):
        """Body of the filling function."""
        o = ['template<class M> static void %s(M& m, int v) { (void)m; (void)v;' % self.fid(name)]
        nv = self.variants(name)
        fl, on = self.s.fields(self.s.msgs[name])
        oneofs = {}
        for i, (f, lab, oi) in enumerate(fl):
            if lab == 'ONE':
                oneofs.setdefault(oi, []).append(i)
        for i, (f, lab, oi) in enumerate(fl):
            st = []
            n = f.name
            for e in range(2 if lab == 'REP' else 1):
                k = (f.number + e) % 1000
                if f.type == 11:
                    st.append('%s(m.mutable_%s()%s, v);' % (self.fid(f.type_name), n, '.get(%d)' % e if lab == 'REP' else ''))
                elif f.type in (9, 12):
                    t = self.text(f, e)
                    tgt = 'm.mutable_%s()' % n + ('.get(%d)' % e if lab == 'REP' else '')
                    st.append('%s.set((const %s*)"%s", %d);' % (tgt, 'char' if f.type == 9 else 'uint8_t', t, len(t)))
                else:
                    val = lit(f.type, scalar(f.type, k)) if f.type in SCALARS else self.cpp(f.type_name) + '::' + self.enumval(f, e).name
                    st.append('m.%s_%s(%s);' % ('add' if lab == 'REP' else 'set', n, val))
            if lab == 'ONE':
                mem = oneofs[oi]
                o.append('  if (v %% %d == %d) { %s }' % (len(mem), mem.index(i), ' '.join(st)))
            else:
                o.append('  ' + ' '.join(st))
            if lab in ('OPT', 'ONE'):
                o.append('  %sif (!m.has_%s()) bad("has_%s");' % ('if (v %% %d == %d) ' % (len(oneofs[oi]), oneofs[oi].index(i)) if lab == 'ONE' else '', n, n))
        o.append('}')
        return '\n'.join(o)

    def cap_checks(self, name, caps, var='m'):
        """Capacities of the fields, from the template arguments."""
        o = []
        m = self.s.msgs[name]
        fl, on = self.s.fields(m)
        pos = 0
        for i in self.s.order(m):
            f, lab, oi = fl[i]
            ml = self.s.maxlen(f)
            if lab == 'REP':
                c = ml if ml else caps[pos]
                pos += 0 if ml else 1
                o.append('if (m.get_%s().get_max_length() != %d) bad("capacity of %s");' % (f.name, c, f.name))
            if f.type in (9, 12):
                c = ml if ml else caps[pos]
                pos += 0 if ml else 1
                if lab != 'REP':
                    o.append('if (m.mutable_%s().get_max_length() != %d) bad("capacity of %s");' % (f.name, c, f.name))
            if f.type == 11:
                pos += self.s.nparams(f.type_name)
        for f, lab, oi in fl:
            o.append('if (static_cast<uint32_t>(std::decay<decltype(m)>::type::FieldNumber::%s) != %d) bad("number of %s");' % (f.name.upper(), f.number, f.name))
        return ' '.join(o)


def norm(m):
    """Comparable form without plain sub messages that hold nothing (they have no presence here)."""
    r = {}
    d = m.DESCRIPTOR
    for f in d.fields:
        if f.label == 3:
            v = getattr(m, f.name)
            if len(v):
                r[f.name] = [norm(x) if f.type == 11 else x for x in v]
        elif f.type == 11:
            if m.HasField(f.name):
                v = norm(getattr(m, f.name))
                if v or f.containing_oneof is not None:
                    r[f.name] = v
        elif f.containing_oneof is not None:
            if m.HasField(f.name):
                r[f.name] = getattr(m, f.name)
        else:
            v = getattr(m, f.name)
            if v or (isinstance(v, float) and v != 0):
                r[f.name] = v
    return r


if mode == 'emit':
    cases = json.load(open(sys.argv[3]))
    o, exp = [], {'cases': {}, 'tests': []}
    heads = []
    for c in cases:
        for h in c['headers']:
            heads.append(h)
    o += ['#include "%s"' % h for h in heads]
    o += ['#include <WriteBufferFixedSize.h>', '#include <ReadBufferFixedSize.h>', '#include <cstdio>', '#include <cstring>', '#include <cstdlib>', '#include <utility>', '#include <type_traits>',
          '#if __has_include(<embedded_helper.h>)', '#endif',
          'static const char* cur = "";', 'static void bad(const char* w) { printf("BAD %s %s\\n", cur, w); }',
          'static void hx(EmbeddedProto::WriteBufferFixedSize<20000>& w) { for (uint32_t i = 0; i < w.get_size(); ++i) printf("%02x", w.get_data()[i]); }',
          'template<class M> static void t(const char* id, int v, void (*fill)(M&, int), const char* exp, unsigned n) {',
          '  cur = id; M* mp = new M; M& m = *mp; fill(m, v);',
          '  static EmbeddedProto::WriteBufferFixedSize<20000> w; w.clear(); int e = (int)m.serialize(w);',
          '  printf("T %s %d %d %u ", id, v, e, m.serialized_size()); hx(w); printf(" -");',
          '  static EmbeddedProto::ReadBufferFixedSize<20000> r; r.clear(); memcpy(r.get_data(), exp, n); r.set_bytes_written(n);',
          '  M* dp = new M; e = (int)dp->deserialize(r); M c(*dp); M k; k = c; w.clear(); int e2 = (int)k.serialize(w);',
          '  printf(" %d %d ", e, e2); hx(w); printf(" -"); ',
          '  M z(std::move(k)); z.clear(); w.clear(); z.serialize(w); M fresh; w.clear(); fresh.serialize(w); printf(" %u %u\\n", z.serialized_size(), w.get_size());',
          '#ifdef MSG_TO_STRING', '  { static char txt[20000]; EmbeddedProto::string_view sv{txt, sizeof txt}; m.to_string(sv); if (!strlen(txt)) bad("empty text"); }', '#endif',
          '  delete mp; delete dp; }']
    body = []
    for c in cases:
        cs = Case(c['id'], c['ds'])
        # sub messages first: function templates are found at instantiation only through argument dependent lookup, so declare all
        for n in cs.user:
            o.append('template<class M> static void %s(M& m, int v);' % cs.fid(n))
        for n in cs.user:
            o.append(cs.fill_cpp(n))
        exp['cases'][c['id']] = c['ds']
        for n, e in sorted(cs.enums.items()):
            body.append('  cur = "%s:%s"; %s' % (c['id'], n, ' '.join('if (static_cast<int32_t>(%s::%s) != %s) bad("constant %s");' % (cs.cpp(n), v.name, v.number if v.number > -2147483648 else '-2147483647 - 1', v.name) for v in e.value)))
        for n in cs.user:
            cpp = cs.cpp(n)
            tid = '%s:%s' % (c['id'], n)
            body.append('  { cur = "%s"; %s* p = new %s; auto& m = *p; (void)m; %s delete p; }' % (tid, cpp, cpp, cs.cap_checks(n, cs.caps(n))))
            for v in range(cs.variants(n)):
                m = cs.cls(n)()
                cs.fill_py(m, n, v)
                b = m.SerializeToString()
                body.append('  t<%s>("%s", %d, &%s<%s>, "%s", %d);' % (cpp, tid, v, cs.fid(n), cpp, ''.join('\\%03o' % x for x in b), len(b)))
                exp['tests'].append([tid, v])
    o.append('int main() {')
    o += body
    o.append('  puts("END"); return 0; }')
    open(sys.argv[4], 'w').write('\n'.join(o).replace('#if __has_include(<embedded_helper.h>)\n#endif\n', '') + '\n')
    json.dump(exp, open(sys.argv[5], 'w'))
else:
    exp = json.load(open(sys.argv[3]))
    out = open(sys.argv[4], errors='replace').read().splitlines()
    if not out or out[-1] != 'END':
        print('BAD program does not end normally: %s' % ' | '.join(out[-3:]))
        sys.exit(0)
    got = {}
    for l in out:
        w = l.split(' ')
        if w[0] == 'BAD':
            print(l)
        elif w[0] == 'T':
            got[(w[1], int(w[2]))] = w[3:]
    cs = {}
    for tid, v in exp['tests']:
        cid, n = tid.split(':', 1)
        if cid not in cs:
            cs[cid] = Case(cid, exp['cases'][cid])
        w = got.get((tid, v))
        if w is None:
            print('BAD %s no result' % tid)
            continue
        want = cs[cid].cls(n)()
        cs[cid].fill_py(want, n, v)
        h1 = bytes.fromhex(w[2]) if w[2] != '' else b''
        problem = None
        k = 3
        e1, size = int(w[0]), int(w[1])
        e2, e3 = int(w[4]), int(w[5])
        h2 = bytes.fromhex(w[6])
        zs, fs = int(w[8]), int(w[9])
        try:
            a = cs[cid].cls(n).FromString(h1)
            b = cs[cid].cls(n).FromString(h2)
            if e1:
                problem = 'serialize returns %d' % e1
            elif norm(a) != norm(want):
                problem = 'the written bytes %s mean %s instead of %s' % (h1.hex(), norm(a), norm(want))
            elif size != len(h1):
                problem = 'serialized_size() %d, written %d' % (size, len(h1))
            elif e2 or e3:
                problem = 'decoding the standard encoding returns %d' % e2
            elif norm(b) != norm(want):
                problem = 'decoding and encoding again gives %s instead of %s' % (norm(b), norm(want))
            elif zs or fs:
                problem = 'a cleared or new message is not empty'
        except Exception as ex:
            problem = 'the bytes written are not valid: %s (%s)' % (h1.hex() + ' / ' + h2.hex(), ex)
        if problem:
            print('BAD %s variant %d: %s' % (tid, v, problem))
    print('JUDGED %d' % len(exp['tests']))
