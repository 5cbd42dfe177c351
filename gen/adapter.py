"""Write the C++ adapters (descriptor tables + glue) for message instances of a set of schemas.

usage: adapter.py DESCRIPTOR_SET OPTIONS_PB2_DIR OUTDIR CONFIG.json
CONFIG: list of {"name": id, "msg": "full.Name", "caps": [..]}   (caps: values of the template arguments, cycled)
The order and meaning of template arguments is specified here independently of the generator:
plain fields in declaration order, then the oneofs; a repeated field without maxLength gives its number of elements,
followed by what its elements need; a string or bytes without maxLength gives its length.
"""
import sys, os, json

KINDS = {1: 'DBL', 2: 'FLT', 3: 'I64', 4: 'U64', 5: 'I32', 6: 'X64', 7: 'X32', 8: 'BOOL', 9: 'STR', 11: 'MSG', 12: 'BYT',
         13: 'U32', 14: 'ENUM', 15: 'Y32', 16: 'Y64', 17: 'S32', 18: 'S64'}
NOMUT = ('ENUM',)


class Schema:
    def __init__(self, fds, opt):
        self.msgs = {}
        self.file_of = {}
        self.opt = opt
        self.enums = {}     # full name -> (file, descriptor)
        for f in fds.file:
            for e in f.enum_type:
                self.enums[('.' + f.package if f.package else '') + '.' + e.name] = (f.name, e)
            for m in f.message_type:
                self._add(f, m, ('.' + f.package if f.package else ''))

    def _add(self, f, m, scope):
        n = scope + '.' + m.name
        self.msgs[n] = m
        self.file_of[n] = f.name
        for e in m.enum_type:
            self.enums[n + '.' + e.name] = (f.name, e)
        for x in m.nested_type:
            self._add(f, x, n)

    def maxlen(self, fd):
        if fd.options.HasExtension(self.opt.options):
            return fd.options.Extensions[self.opt.options].maxLength or None
        return None

    def fields(self, m):
        """(field, label, oneof index) in declaration order"""
        res = []
        real = {}
        for i, o in enumerate(m.oneof_decl):
            mem = [f for f in m.field if f.HasField('oneof_index') and f.oneof_index == i]
            if mem and not mem[0].proto3_optional:
                real[i] = len(real)
        for f in m.field:
            if f.label == 3:
                res.append((f, 'REP', -1))
            elif f.proto3_optional:
                res.append((f, 'OPT', -1))
            elif f.HasField('oneof_index'):
                res.append((f, 'ONE', real[f.oneof_index]))
            else:
                res.append((f, 'IMPL', -1))
        names = [o.name for i, o in enumerate(m.oneof_decl) if i in real]
        return res, names

    def order(self, m):
        fl, on = self.fields(m)
        idx = list(range(len(fl)))
        res = [i for i in idx if fl[i][1] != 'ONE']
        for k in range(len(on)):
            res += [i for i in idx if fl[i][2] == k]
        return res

    def nparams(self, name):
        m = self.msgs[name]
        n = 0
        for f, lab, _ in self.fields(m)[0]:
            ml = self.maxlen(f)
            if lab == 'REP' and not ml:
                n += 1
            if f.type in (9, 12) and not ml:
                n += 1
            if f.type == 11:
                n += self.nparams(f.type_name)
        return n


def cppname(name):
    return name.replace('.', '::')


class Emit:
    def __init__(self, schema):
        self.s = schema
        self.desc = {}      # (msg, caps) -> id
        self.dtext = []
        self.ad = {}
        self.atext = []

    def descriptor(self, name, caps):
        key = (name, tuple(caps))
        if key in self.desc:
            return self.desc[key]
        m = self.s.msgs[name]
        fl, on = self.s.fields(m)
        pos = 0
        info = {}
        for i in self.s.order(m):
            f, lab, o = fl[i]
            ml = self.s.maxlen(f)
            cap = rep = 0
            sub = None
            if lab == 'REP':
                if ml:
                    rep = ml
                else:
                    rep = caps[pos]; pos += 1
            if f.type in (9, 12):
                if ml:
                    cap = ml
                else:
                    cap = caps[pos]; pos += 1
            if f.type == 11:
                n = self.s.nparams(f.type_name)
                sub = self.descriptor(f.type_name, caps[pos:pos + n]); pos += n
            info[i] = (cap, rep, sub)
        assert pos == len(caps), (name, caps, pos)
        did = 'D%d_' % len(self.desc) + name.strip('.').replace('.', '_')
        self.desc[key] = did
        rows = []
        for i, (f, lab, o) in enumerate(fl):
            cap, rep, sub = info[i]
            rows.append('  {"%s", %du, %s, %s, %du, %du, %s, %d}' % (f.name, f.number, KINDS[f.type], lab, cap, rep,
                                                                    '&' + sub + '()' if sub else 'nullptr', o))
        self.dtext.append('static const MsgD& %s() { static const MsgD d = {"%s", {\n%s}, {%s}}; return d; }\n' %
                          (did, name[1:], ',\n'.join(rows), ', '.join('"%s"' % x for x in on)))
        return did

    def alias(self, fl, i, CT):
        """Operations on field i which get a part of the message itself as argument (used with WITH_ALIAS)."""
        f, lab, o = fl[i]
        k = KINDS[f.type]
        c = []
        typ = lambda q: q.type_name if q.type in (11, 14) else CT.get(KINDS[q.type], KINDS[q.type])
        if lab == 'REP':
            c.append('FROM_REP(%d, %s)' % (i, f.name))
        else:
            if k in ('STR', 'BYT'):
                c.append(('FROM_CSTR(%d, %s)' if k == 'STR' else 'FROM_RAW(%d, %s)') % (i, f.name))
            for j, (g, gl, go) in enumerate(fl):
                if typ(g) != typ(f) or (g.type == 11 and self.s.nparams(g.type_name)):
                    continue
                if gl == 'REP':
                    if k not in ('STR', 'BYT', 'MSG'):
                        c.append('FROM_ELEM(%d, %s, %s)' % (j, f.name, g.name))
                elif k in ('STR', 'BYT', 'MSG') and lab == 'ONE' and gl == 'ONE' and o == go:
                    continue    # the life of the argument ends with the old member
                elif k in ('STR', 'BYT'):
                    if j != i:
                        c.append('FROM_STR(%d, %s, %s)' % (j, f.name, g.name))
                else:
                    c.append('FROM_ONE(%d, %s, %s)' % (j, f.name, g.name))
        return '\n#ifdef WITH_ALIAS\ncase OP_FROM: switch (o.idx) { %s default: return NOTSUP; }\n#endif\n' % ' '.join(c)

    def adapter(self, name):
        if name in self.ad:
            return self.ad[name]
        m = self.s.msgs[name]
        fl, on = self.s.fields(m)
        subs = {}
        for f, lab, o in fl:
            if f.type == 11:
                subs[f.name] = self.adapter(f.type_name)
        aid = 'A_' + name.strip('.').replace('.', '_')
        self.ad[name] = aid
        obs, put, ops, meta = [], [], [], []
        CT = dict(I32='i4', S32='i4', Y32='i4', U32='u4', X32='u4', I64='i8', S64='i8', Y64='i8', U64='u8', X64='u8')
        for i, (f, lab, o) in enumerate(fl):
            x = f.name
            X = x.upper()
            frm = self.alias(fl, i, CT)
            k = KINDS[f.type]
            A = subs.get(x)
            ga = ', %s)' % A if A else ')'
            meta.append('META(%s, %s, %d)' % (x, X, i))
            cls = 'MSG' if k == 'MSG' else 'STR' if k in ('STR', 'BYT') else 'SCALAR'
            if lab == 'REP':
                obs.append('OBS_R%s(%d, %s%s' % (cls, i, x, ga))
                elem = {'MSG': '%s_ELEM' % A, 'STR': 'put_bytes', 'SCALAR': 'elem_scalar'}[cls]
                if cls == 'MSG':
                    p1 = '%s::put(m.mutable_%s((uint32_t)k), *r[k].m, 1);' % (A, x)
                else:
                    p1 = '{ DT(m.%s(0)) e_; %s(e_, r[k]); m.mutable_%s().add(e_); }' % (x, elem, x)
                put.append('{ const std::vector<Val>& r = v.f[%d].rep; m.clear_%s(); for (size_t k = 0; k < r.size(); ++k) { '
                           'if (how == 0) { DT(m.%s(0)) e_; %s(e_, r[k]); m.add_%s(e_); } else { %s } } }'
                           % (i, x, x, elem, x, p1))
                ops.append('case %d: switch (o.k) { OPS_REP(%s, %s) %s default: return NOTSUP; }'
                           % (i, x, elem, ('OPS_REPMSG(%s, %s)' % (x, A) if A else '') + frm))
                continue
            body = 'OBS_%s(%d, %s%s' % (cls, i, x, ga)
            if lab == 'ONE':
                obs.append('OBS_ONEOF(%d, %s, %s, %s, %s)' % (i, x, on[o], X, body))
            else:
                obs.append(body + (' OBS_HAS(%d, %s)' % (i, x) if lab == 'OPT' else ''))
            val = 'v.f[%d].one' % i
            hasmut = cls != 'SCALAR' or (lab != 'ONE' and k not in NOMUT)
            sm = {'SCALAR': ('SETV', 'MUTV'), 'STR': ('SETS', 'MUTS'), 'MSG': ('SETG', 'MUTG')}[cls]
            mutm = sm[1] if hasmut else 'SETVM'
            setx = 'if (how == 0) %s(%s, %s%s else %s(%s, %s%s' % (sm[0], x, val, ga, mutm, x, val, ga)
            if lab == 'IMPL':
                put.append('{ ' + setx + ' }')
            elif lab == 'OPT':
                put.append('if (v.f[%d].has) { %s } else m.clear_%s();' % (i, setx, x))
            else:
                put.append('if (v.f[%d].has) { %s } else m.clear_%s();' % (i, setx, x))
            if cls == 'SCALAR':
                t = 'OPS_SCALAR(%s, %s)' % (x, 'OPS_SCALAR_MUT(%s)' % x if hasmut else '')
            elif cls == 'STR':
                t = 'OPS_STRING(%s, %s)' % (x, 'OPS_STRONLY(%s)' % x if k == 'STR' else 'OPS_BYTONLY(%s)' % x)
            else:
                t = 'OPS_MSG(%s, %s)' % (x, A)
            ops.append('case %d: switch (o.k) { %s default: return NOTSUP; }' % (i, t + frm))
        self.atext.append('''
struct %(a)s {
  template<class M> static void obs(const M& m, MsgV& v, Chk& c) { (void)m; (void)v; (void)c;
    %(obs)s
  }
  template<class M> static void put(M& m, const MsgV& v, int how) { (void)m; (void)v; (void)how;
    %(put)s
  }
  template<class M> static int op(M& m, const Op& o) { (void)m;
    if (o.k == OP_CLEARALL) { m.clear(); return 0; }
    switch (o.f) {
    %(ops)s
    default: return NOTSUP; }
  }
  template<class M> static void meta(const MsgD* d, Chk& c) { (void)d; (void)c;
    %(meta)s
    const char* q_ = M::field_number_to_name(M::FieldNumber::NOT_SET); if (!q_) c.fail("field_number_to_name(NOT_SET)");
    if ((uint32_t)M::FieldNumber::NOT_SET != 0) c.fail("NOT_SET");
  }
};
template<class E> inline void %(a)s_ELEM(E& e, const Val& v) { %(a)s::put(e, *v.m, 0); }
''' % dict(a=aid, obs='\n    '.join(obs), put='\n    '.join(put), ops='\n    '.join(ops), meta='\n    '.join(meta)))
        return aid


def cpptype(s, name, caps):
    return cppname(name) + ('<' + ', '.join(map(str, caps)) + '>' if caps else '')


def enum_checks(s, fname):
    """Every constant of every enum of the file has its declared value. Enums inside of messages with parameters are left out."""
    o = []
    for n, (f, e) in sorted(s.enums.items()):
        sc = n.rpartition('.')[0]
        if f != fname or any(x in s.msgs and s.nparams(x) for x in [sc[:i] for i in range(len(sc) + 1)]):
            continue
        for v in e.value:
            o.append('if (static_cast<long long>(static_cast<int32_t>(%s::%s)) != %dLL) c.fail("constant %s.%s");' % (cppname(n), v.name, v.number, n[1:], v.name))
        o.append('if (sizeof(%s) < 4) c.fail("size of %s");' % (cppname(n), n[1:]))
    return '\n  '.join(o)


def emit_instance(s, inst):
    name = '.' + inst['msg']
    n = s.nparams(name)
    cl = inst.get('caps') or [2]
    caps = [cl[i % len(cl)] for i in range(n)]
    e = Emit(s)
    d = e.descriptor(name, caps)
    a = e.adapter(name)
    hdr = os.path.splitext(s.file_of[name])[0] + '.h'
    t = '// generated by gen/adapter.py\n#include "adapter.h"\n#include "%s"\nnamespace {\n' % hdr
    t += ''.join(e.dtext) + ''.join(e.atext)
    t += 'struct Root_A : %s { template<class M> static void meta(const MsgD* d, Chk& c) { %s::meta<M>(d, c);\n  %s } };\n' % (a, a, enum_checks(s, s.file_of[name]))
    t += 'typedef %s Root;\nIMsg* mk() { return new Impl<Root, %s>(); }\nReg reg("%s", &%s(), mk);\n}\n' % (
        cpptype(s, name, caps), 'Root_A', inst['name'], d)
    return t


def load(descfile, optdir):
    sys.path.insert(0, optdir)
    import embedded_proto_options_pb2 as opt
    from google.protobuf import descriptor_pb2
    fds = descriptor_pb2.FileDescriptorSet()
    fds.ParseFromString(open(descfile, 'rb').read())
    return Schema(fds, opt)


def main():
    descfile, optdir, out, cfg = sys.argv[1:5]
    s = load(descfile, optdir)
    for inst in json.load(open(cfg)):
        t = emit_instance(s, inst)
        p = os.path.join(out, 'inst_%s.cpp' % inst['name'])
        open(p, 'w').write(t)


if __name__ == '__main__':
    main()
