"""Enumeration of schemas. A case is a dict: id, fam, files {path: proto text}, gen [paths], pkg (unique package: can share a translation unit)."""
import itertools

SC = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool']
OPTIMP = 'import "embedded_proto_options.proto";\n'
NUMS = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 262143, 262144, 33554431, 33554432, 18999, 20000, 536870911]


class Msg:
    """Message under construction. fields: (label, type, maxlen); label: plain optional repeated one:<name>"""
    def __init__(self, name, fields=(), nested=(), enums=()):
        self.name, self.fields, self.nested, self.enums = name, list(fields), list(nested), list(enums)

    def text(self, ind=''):
        o = [ind + 'message %s {' % self.name]
        for e in self.enums:
            o.append(ind + '  ' + enum(e))
        for n in self.nested:
            o.append(n.text(ind + '  '))
        k = 0
        i = 0
        names = set()
        while i < len(self.fields):
            f = self.fields[i]
            lab = f[0]
            if lab.startswith('one:'):
                o.append(ind + '  oneof %s {' % lab[4:])
                while i < len(self.fields) and self.fields[i][0] == lab:
                    o.append(ind + '    ' + self.decl(self.fields[i], k))
                    k += 1
                    i += 1
                o.append(ind + '  }')
            else:
                o.append(ind + '  ' + self.decl(f, k))
                k += 1
                i += 1
        o.append(ind + '}')
        return '\n'.join(o)

    def decl(self, f, k):
        lab, typ, ml = f[0], f[1], f[2]
        name = f[3] if len(f) > 3 and f[3] else 'f%d' % k
        num = f[4] if len(f) > 4 else k + 1
        pre = '' if lab == 'plain' or lab.startswith('one:') else lab + ' '
        opt = ' [(EmbeddedProto.options).maxLength = %d]' % ml if ml else ''
        return '%s%s %s = %d%s;' % (pre, typ, name, num, opt)


def enum(name, vals=(('ZERO', 0), ('ONE', 1), ('BIG', 100000))):
    return 'enum %s { %s }' % (name, ' '.join('%s = %d;' % v for v in vals))


def proto(pkg, body, imports=()):
    return 'syntax = "proto3";\n' + OPTIMP + ''.join('import "%s";\n' % i for i in imports) + ('package %s;\n' % pkg if pkg else '') + body + '\n'


def forms(level):
    """Field forms (label, type, maxlen) for messages of a package with the helper types En, EnN, Sub, SubT, Empty."""
    types = [(t, 'sc') for t in (SC if level else ['double', 'int32', 'uint64', 'sint32', 'fixed32', 'bool'])] + [('string', 'st'), ('bytes', 'st'), ('En', 'en'), ('EnN', 'en'), ('Sub', 'ms'), ('SubT', 'ms'), ('Empty', 'ms')]
    res = []
    for t, k in types:
        for lab in ('plain', 'optional', 'repeated', 'one:o'):
            for ml in (0, 3):
                if ml and not (k == 'st' or lab == 'repeated'):
                    continue
                res.append((lab, t, ml))
    return res


HELP = enum('En') + '\n' + enum('EnN', (('NEG_NONE', 0), ('NEG_FIVE', -5), ('NEG_LOWEST', -2147483648), ('NEG_HIGHEST', 2147483647))) + \
    '\nmessage Sub { uint32 a = 1; sint32 b = 2; }\nmessage SubT { string s = 1; repeated uint32 r = 2; }\nmessage Empty {}\n'


def fam_fields(tier):
    """One message per field form; with numbers over all tag lengths; ordered pairs of forms."""
    out = []
    fs = forms(1)
    for c0 in range(0, len(fs), 12):
        body = ''.join(Msg('S%d' % i, [f + ('', NUMS[i % len(NUMS)])]).text() + '\n' for i, f in list(enumerate(fs))[c0:c0 + 12])
        out.append(('fields1', body))
    ps = [('plain', 'int32', 0), ('plain', 'string', 0), ('plain', 'Sub', 0), ('plain', 'SubT', 0), ('plain', 'En', 0), ('optional', 'sint64', 0), ('optional', 'bytes', 3), ('optional', 'SubT', 0), ('repeated', 'uint32', 0), ('repeated', 'string', 0),
          ('repeated', 'SubT', 3), ('one:o', 'bytes', 0), ('one:o', 'Sub', 0), ('one:p', 'float', 0), ('one:p', 'SubT', 0), ('one:o', 'EnN', 0)]
    if tier == 'thorough':
        ps += [f for f in forms(0) if f not in ps]
    pairs = [(a, b) for a in ps for b in ps]
    for c0 in range(0, len(pairs), 16):
        body = ''.join(Msg('P%d' % i, list(p)).text() + '\n' for i, p in list(enumerate(pairs))[c0:c0 + 16])
        out.append(('fields2', body))
    if True:
        tr = [ps[i] for i in (0, 3, 6, 9, 11, 13)]
        triples = [t for t in itertools.product(tr, repeat=3)]
        triples = [t for t in triples if not (t[0][0] == t[2][0] and t[0][0].startswith('one:') and t[1][0] != t[0][0])]   # a oneof is one block
        for c0 in range(0, len(triples), 16):
            out.append(('fields3', ''.join(Msg('T%d' % i, list(t)).text() + '\n' for i, t in list(enumerate(triples))[c0:c0 + 16])))
    cases = []
    for i, (fam, body) in enumerate(out):
        p = 'f%d' % i
        cases.append(dict(id=p, fam=fam, files={p + '/a.proto': proto(p, HELP + body)}, gen=[p + '/a.proto'], pkg=True))
    # field numbers: descending, interleaved and with gaps
    orders = list(itertools.permutations([1, 15, 16, 2048]))
    body = ''.join(Msg('N%d' % i, [('plain', 'uint32', 0, 'a', o[0]), ('optional', 'string', 3, 'b', o[1]), ('one:o', 'sint32', 0, 'c', o[2]), ('repeated', 'bool', 0, 'd', o[3])]).text() + '\n' for i, o in enumerate(orders))
    cases.append(dict(id='fnum', fam='numbers', files={'fnum/a.proto': proto('fnum', body)}, gen=['fnum/a.proto'], pkg=True))
    # many optional fields
    for n in (8, 9, 16, 17, 32, 33):
        p = 'fopt%d' % n
        cases.append(dict(id=p, fam='numbers', files={p + '/a.proto': proto(p, Msg('M', [('optional', SC[i % 13], 0) for i in range(n)]).text())}, gen=[p + '/a.proto'], pkg=True))
    # capacities around the widths of 8, 15, 16 and 17 bit numbers
    for i, n in enumerate((7, 8, 63, 64, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65539, 131074)):
        p = 'flen%d' % i
        cases.append(dict(id=p, fam='numbers', files={p + '/a.proto': proto(p, '\n'.join(Msg('L%d' % k, [(lab, t, n)]).text() for k, (lab, t) in enumerate((
            ('plain', 'string'), ('plain', 'bytes'), ('optional', 'string'), ('optional', 'bytes'), ('one:o', 'string'), ('one:o', 'bytes'), ('repeated', 'bool'), ('repeated', 'uint32')))))}, gen=[p + '/a.proto'], pkg=True))
    # wide messages: many members of one oneof, many oneofs, many fields
    for i, fl in enumerate(([('one:o', (SC + ['Sub', 'En', 'SubT', 'Empty'])[k % 17], 0) for k in range(40)],
                            [('one:o%d' % (k // 2), (['string', 'Sub', 'uint32', 'En', 'bytes'])[k % 5], 3 if k % 5 in (0, 4) else 0) for k in range(24)],
                            [(('plain', 'optional', 'repeated')[k % 3], (SC + ['Sub', 'En'])[k % 14], 2 if k % 3 == 2 else 0) for k in range(130)],
                            [('repeated', 'string', 0)] * 12 + [('plain', 'bytes', 0)] * 5,
                            [(('plain', 'optional')[k % 2], ('uint32', 'bool')[k % 2], 0) for k in range(530)],
                            [('one:o', ('uint32', 'string')[k % 2], 3 * (k % 2)) for k in range(130)],
                            [('optional', ('bool', 'string')[k % 2], 3 * (k % 2)) for k in range(130)])):
        p = 'fwide%d' % i
        cases.append(dict(id=p, fam='numbers', files={p + '/a.proto': proto(p, HELP + Msg('M', fl).text() + '\nmessage U { M m = 1; optional M n = 2; oneof o { M x = 3; } }')}, gen=[p + '/a.proto'], pkg=True))
    return cases


def fam_many(tier):
    """Many messages using each other, in many declaration orders: at the top, nested, nested two deep, spread over files."""
    cases = []
    labs = ['plain', 'repeated', 'one:o', 'optional', 'plain']

    def add(files):
        cid = 'h%d' % len(cases)
        fs = {k.replace('@', cid): v.replace('@', cid) for k, v in files.items()}
        cases.append(dict(id=cid, fam='many', files=fs, gen=list(fs), pkg=True, expect='ok'))
    sizes = (13, 23) if tier != 'thorough' else (11, 12, 13, 23, 37, 101)
    for n in sizes:
        # the work of serializing doubles with every level of nesting: not too deep
        step = 1 if n <= 13 else n // 7 + 1
        orders = [[(a + b * i) % n for i in range(n)] for a in (range(n) if n < 20 else (0, 1, n - 1)) for b in ((1, n - 1) if n < 20 else (1, 5, n - 1)) if a == 0 or b != n // 2]
        orders += [[(b * i) % n for i in range(n)] for b in range(2, n - 1) if n in (11, 13, 23, 37, 101) and (n == 13 or b % 4 == 0)]
        for k, o in enumerate(orders):
            ms = {}
            for i in range(n):
                m = Msg('M%d' % i, [('plain', 'uint32', 0)])
                if i + step < n:
                    m.fields.append((labs[i % 5], 'M%d' % (i + step), 2 if labs[i % 5] == 'repeated' else 0))
                if i + 4 * step - step // 2 < n and i % 3 == 0:
                    m.fields.append(('plain', 'M%d' % (i + 4 * step - step // 2), 0))
                if k % 4 == 1 and i == n // 2:
                    m.fields.append(('plain', 'string', 0))
                ms[i] = m
            body = '\n'.join(ms[i].text() for i in o)
            add({'@/a.proto': proto('@', body)})
            add({'@/a.proto': proto('@', Msg('Outer', [('plain', 'M%d' % j, 0) for j in range(0, step * 2, 2)], [ms[i] for i in o]).text())})
            if k % 5 == 0:
                add({'@/a.proto': proto('@', Msg('Top', [('plain', 'Outer', 0)], [Msg('Outer', [('plain', 'M0', 0)], [ms[i] for i in o])]).text())})
            if k % 6 == 0:
                # bystanders first, the users of a nested message before it
                add({'@/a.proto': proto('@', '\n'.join('message Z%d { uint32 a = 1; }' % z for z in range(12)) + '\n' + body)})
    n = 12
    for b in (1, 5, 11):
        # one message per file, each file uses the next; the names of the files sort differently from their order
        fs = {}
        for i in reversed(range(n)):
            fs['@/f%d.proto' % (b * i % n)] = proto('@', 'message M%d { uint32 a = 1;%s }' % (i, ' M%d m = 2;' % (i + 1) if i + 1 < n else ''), ['@/f%d.proto' % (b * (i + 1) % n)] if i + 1 < n else [])
        add(fs)
    return cases


def forests(n):
    """parent[i] in -1..n-1, acyclic"""
    for par in itertools.product(range(-1, n), repeat=n):
        ok = True
        for i in range(n):
            j, seen = i, set()
            while j != -1 and ok:
                if j in seen:
                    ok = False
                seen.add(j)
                j = par[j]
        if ok:
            yield par


def ancestors(par, i):
    r = []
    while par[i] != -1:
        i = par[i]
        r.append(i)
    return r


def classify(par, edges, templ, enum_edges=()):
    """What has to happen: 'ok', 'cycle', 'self' (direct self reference, left out with a warning), 'nested-template' (refused by design).
    edges: set of (user, used); templ[i]: the message itself has a string without length."""
    n = len(par)
    if any(a == b for a, b in edges):
        self_ = True
    else:
        self_ = False
    E = {(a, b) for a, b in edges if a != b}
    for a, b in E:
        if b in ancestors(par, a):
            return 'cycle'
    # siblings
    sib = {}
    for a, b in E:
        if a in ancestors(par, b):
            continue
        pa, pb = [a] + ancestors(par, a), [b] + ancestors(par, b)
        common = next((x for x in pa if x in pb), -1)
        ca = a if common == -1 and False else pa[(pa.index(common) - 1) if common != -1 else len(pa) - 1]
        cb = pb[(pb.index(common) - 1) if common != -1 else len(pb) - 1]
        sib.setdefault(ca, set()).add(cb)
    seen = {}

    def cyc(v):
        if seen.get(v) == 1:
            return True
        if seen.get(v) == 2:
            return False
        seen[v] = 1
        r = any(cyc(w) for w in sib.get(v, ()))
        seen[v] = 2
        return r
    if any(cyc(v) for v in range(n)):
        return 'cycle'
    if self_:
        return 'self'
    # template parameters

    def params(v):
        return templ[v] or any(params(b) for a, b in E if a == v)
    for a, b in E:
        inside = [a] + ancestors(par, a)
        for x in ancestors(par, b):
            if x not in inside and params(x):
                return 'nested-template'
    for a, b in enum_edges:
        for x in [b] + ancestors(par, b):
            if x not in [a] + ancestors(par, a) and params(x):
                return 'nested-template'
    return 'ok'


def qual(par, names, i):
    return '.'.join([names[j] for j in reversed([i] + ancestors(par, i))])


def maxlen(a, b):
    return 2 if (a + b) % 2 else 0


def graph_case(cid, n, par, edges, kinds, templ, names, fam, enum_edges=(), relative=False, pkg=None):
    """kinds: dict edge -> label"""
    pkg = cid if pkg is None else pkg
    ms = []
    for i in range(n):
        fs = [('plain', 'uint32', 0)]
        if templ[i]:
            fs.append(('plain', 'string', 0))
        for k, (a, b) in enumerate(sorted(edges)):
            if a == i:
                lab = kinds[(a, b)]
                t = '.' + pkg + '.' + qual(par, names, b) if not relative else qual(par, names, b)
                fs.append((lab, t, maxlen(a, b) if lab == 'repeated' else 0))
        for a, b in enum_edges:
            if a == i:
                fs.append(('plain', '.' + pkg + '.' + qual(par, names, b) + '.E', 0))
        ms.append(Msg(names[i], fs, enums=['E'] if any(b == i for a, b in enum_edges) else []))
    for i in range(n):
        if par[i] != -1:
            ms[par[i]].nested.append(ms[i])
    body = '\n'.join(ms[i].text() for i in range(n) if par[i] == -1)
    f = cid + '/a.proto'
    return dict(id=cid, fam=fam, files={f: proto(pkg, body)}, gen=[f], pkg=True, expect=classify(par, set(edges), [t or any(a == i and kinds[a, b] == 'repeated' and not maxlen(a, b) for a, b in edges) for i, t in enumerate(templ)], enum_edges))


def all_graphs(tier, prefix, want):
    """Messages 0..n-1 in declaration order; all nestings, all dependencies. want(expect) selects."""
    k = 0
    for n in (2, 3):
        prs = [(a, b) for a in range(n) for b in range(n)]
        names = ['A', 'B', 'C'][:n]
        for par in forests(n):
            for mask in range(1 << len(prs)):
                edges = [e for i, e in enumerate(prs) if mask >> i & 1]
                if n == 3 and any(a == b for a, b in edges) and tier != 'thorough':
                    if len(edges) > 2:
                        continue
                exp = classify(par, set(edges), [False] * n)
                labs = ['plain', 'repeated', 'one:o', 'optional']
                if exp in ('cycle', 'self'):
                    if not want(exp):
                        continue
                    variants = [([labs[mask % 4]] * len(edges), [False] * n)]
                    if tier == 'thorough' or n == 2:
                        variants = [([l] * len(edges), t) for l in labs for t in ([False] * n, [True] * n)]
                else:
                    if not want(exp):
                        continue
                    variants = []
                    ts = list(itertools.product((False, True), repeat=n))
                    if tier == 'thorough':
                        variants = [([l] * len(edges), list(t)) for l in labs for t in ts] + [([labs[(i + s) % 4] for i in range(len(edges))], list(t)) for s in range(4) for t in ts]
                    else:
                        variants = [([labs[(i + mask) % 4] for i in range(len(edges))], list(t)) for t in ts]
                        variants.append(([labs[(mask // 3) % 4]] * len(edges), [False] * n))
                for ls, t in variants:
                    yield graph_case('%s%d' % (prefix, k), n, par, edges, dict(zip(sorted(edges), ls)), t, names, 'graph%d' % n)
                    k += 1
    # chains of four with every declaration order and prefixes as names
    for perm in itertools.permutations(range(4)):
        if not want('ok'):
            break
        for nm in (['A', 'AB', 'ABC', 'B'], ['M', 'M_', 'MM', 'M_M'], ['Outer', 'OuterInner', 'Inner', 'In']):
            for shape in ([(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (1, 3), (2, 3)]):
                ed = [(perm[a], perm[b]) for a, b in shape]
                yield graph_case('%s%d' % (prefix, k), 4, (-1,) * 4, ed, {e: ['plain', 'repeated', 'one:o', 'optional'][(e[0] + e[1]) % 4] for e in ed}, [i == perm[3] for i in range(4)], nm, 'chain4')
                k += 1
    # enums nested in messages and used from everywhere
    for par in forests(3):
        for a in range(3):
            for b in range(3):
                if not want('ok'):
                    continue
                anc = ancestors(par, a)
                # the enclosing message of an enum has to be complete, unless the user lies inside of it
                for t in (False, True):
                    c = graph_case('%s%d' % (prefix, k), 3, par, [], {}, [t and i != b for i in range(3)], ['A', 'B', 'C'], 'enum', enum_edges=[(a, b)])
                    k += 1
                    yield c


def fam_wrap(tier, prefix='w'):
    """Dependency graphs of sibling messages nested one, two and three levels deep inside of wrapper messages."""
    cases = []
    labs = ['plain', 'repeated', 'one:o', 'optional']
    graphs = []
    for perm in itertools.permutations(range(3)):
        for shape in ([(0, 1), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (1, 2)], [(0, 1), (1, 2), (0, 2)]):
            graphs.append((3, [(perm[a], perm[b]) for a, b in shape]))
    graphs += [(2, [(0, 1)]), (2, [(1, 0)]), (2, [])]
    for n, edges in graphs:
        for depth in (1, 2, 3):
            for use in (False, True):
                for templ in ([False] * n, [True] + [False] * (n - 1), [False] * (n - 1) + [True]):
                    cid = '%s%d' % (prefix, len(cases))
                    par = [depth - 1 + n if depth else -1] * n + [-1] + list(range(n, n + depth - 1))   # n..n+depth-1: wrappers, outermost first
                    E = list(edges) + ([(n + depth - 1, i) for i in range(n)] if use else [])
                    kinds = {e: labs[(e[0] * 2 + e[1] + len(cases)) % 4] for e in E}
                    cases.append(graph_case(cid, n + depth, tuple(par), E, kinds, list(templ) + [False] * depth, ['A', 'B', 'C'][:n] + ['W1', 'W2', 'W3'][:depth], 'wrap'))
    return cases


def fam_names():
    """Equal and similar names in different scopes, packages named as messages, field names."""
    cases = []

    def add(body, pkg='', fam='names', files=None, gen=None):
        cid = 'n%d' % len(cases)
        pk = pkg.replace('@', cid)
        if files is None:
            files = {cid + '/a.proto': proto(pk, body.replace('@', cid))}
        cases.append(dict(id=cid, fam=fam, files=files, gen=gen or list(files), pkg='@' in pkg, expect='ok'))
    # the same nested name in two scopes and at the top
    for top in ('', 'message N { uint32 t = 1; }\n'):
        for use_a, use_b in itertools.product(('N', '.@.A.N', '.@.B.N') + (('.@.N',) if top else ()), repeat=2):
            if ('.A.N' in use_b and '.B.N' in use_a):
                continue
            add(top + 'message A { message N { uint32 a = 1; } %s f = 1; repeated %s g = 2 [(EmbeddedProto.options).maxLength = 2]; }\nmessage B { message N { sint32 b = 1; } %s f = 1; optional %s g = 2; }\n' % (use_a, use_a, use_b, use_b), '@')
    for names in itertools.permutations(['A', 'AB', 'A_B', 'ABC'], 3):
        add('message %s { uint32 x = 1; message %s { %s z = 1; string s = 2; } %s n = 2; }\nmessage %s { uint32 y = 1; }\n' % (names[0], names[1], names[2], names[1], names[2]), '@')
    # package and message or field names alike
    add('message @m { uint32 @m2 = 1; }\nmessage User { @m a = 1; repeated @m b = 2; }\n', '@')
    add('message p { uint32 a = 1; }\nmessage q { p p1 = 1; p q1 = 2; }\n', '@.p.q')
    add('message M { message p { uint32 a = 1; } p x = 1; .@.p.M2 y = 2; }\nmessage M2 { uint32 q = 1; }\n', '@.p')
    add('enum p { p_ZERO = 0; p_ONE = 1; }\nmessage M { p e = 1; repeated p r = 2; oneof o { p f = 3; } }\n', '@.x')
    # alias constants, values in any order, in every scope
    add('enum A { option allow_alias = true; A_Z = 0; A_Y = 0; A_X = 7; A_W = -3; A_V = 7; A_U = -3; A_T = 1; }\nmessage M { enum I { option allow_alias = true; Z = 0; Y = 0; X = 2147483647; W = 2147483647; V = -2147483648; U = -2147483648; } A a = 1; optional I b = 2; repeated A c = 3; repeated I d = 4 [(EmbeddedProto.options).maxLength = 2]; oneof o { A e = 5; I f = 6; } }\n', '@')
    add('enum One { ONLY_ONE = 0; }\nenum Many { %s }\nmessage M { One a = 1; Many b = 2; }\n' % ' '.join('V%d = %d;' % (i, (i * 37) % 101) for i in range(101)), '@')
    # scoped enum values
    add('enum A { A_Z = 0; A_X = 1; }\nmessage M { enum A { Z = 0; X = 7; } A in = 1; .@.A outer = 2; optional A o = 3; repeated .@.A r = 4; }\n', '@')
    add('message M { enum E { Z = 0; X = 7; } message I { enum E { Z = 0; Y = 9; } E e = 1; .@.M.E f = 2; } I i = 1; E e2 = 2; repeated I.E r = 3; }\n', '@')
    # field names
    add('message M { uint32 camelCase = 1; uint32 UPPER = 2; uint32 with_under_score = 3; uint32 x1 = 4; uint32 a_ = 5; uint32 B = 6; uint32 msg = 7; uint32 data = 8; uint32 length = 9; uint32 value1 = 10; string str = 11; uint32 index = 12; uint32 buffer = 13; }\n', '@')
    add('message M { string value = 1; repeated uint32 values = 2; optional uint32 return_value = 3; oneof one_of { uint32 id = 4; string name = 5; } uint32 tag = 6; uint32 number = 7; }\n', '@')
    add('message M { oneof camelOneof { uint32 camelA = 1; string camelB = 2; } oneof UPPER { uint32 ua = 3; bytes ub = 4; } oneof a_b { bool ba = 5; } }\n', '@')
    add('message A { oneof o { uint32 a = 1; } }\nmessage B { oneof o { string a = 1; A b = 2; } }\nmessage C { oneof o { B a = 1; } oneof p { A b = 2; B c = 3; } }\n', '@')
    # names that differ in case only
    for a, b in itertools.permutations(('sub', 'Sub', 'SUB'), 2):
        add('message %s { uint32 a = 1; }\nmessage %s { string b = 1; }\nmessage M { %s x = 1; repeated %s y = 2; oneof o { %s z = 3; %s w = 4; } optional %s v = 5; }\n' % (a, b, a, b, b, a, a), '@')
        add('enum %s { %s_ZERO = 0; %s_ONE = 1; }\nenum %s { %s_ZERO = 0; %s_TWO = 2; }\nmessage M { %s x = 1; repeated %s y = 2; oneof o { %s z = 3; %s w = 4; } optional %s v = 5; }\n' % (a, a, a, b, b, b, a, b, b, a, a), '@')
        add('message M { message %s { uint32 a = 1; } message %s { sint32 b = 1; } %s x = 1; repeated %s y = 2; enum %s_ { Z = 0; O = 1; } enum %s_ { Z_ = 0; T = 2; } %s_ z = 3; %s_ w = 4; }\n' % (a, b, a, b, a, b, b, a), '@')
    # names of one message that end or begin as another
    for a, b in itertools.permutations(('Sub', 'MySub', 'SubMy', 'S', 'ub'), 2):
        add('message %s { uint32 a = 1; }\nmessage %s { string b = 1 [(EmbeddedProto.options).maxLength = 4]; enum E { Z = 0; N = -1; } E e = 2; }\nmessage M { %s x = 1; repeated %s y = 2; message %s { bool c = 1; } %s z = 3; .@.%s w = 4; }\n' % (a, b, a, b, a, a, b), '@')
    # the definitions that come with protobuf
    cid = 'n%d' % len(cases)
    wk = ['timestamp', 'duration', 'wrappers', 'empty', 'any', 'field_mask', 'source_context']
    cases.append(dict(id=cid, fam='names', pkg=False, expect='ok', gen=[cid + '/a.proto'], more=['google/protobuf/%s.h' % w for w in wk], files={cid + '/a.proto': proto(cid, 'message M { google.protobuf.Timestamp t = 1; google.protobuf.Duration d = 2; google.protobuf.UInt32Value w = 3; '
        'google.protobuf.Empty e = 4; oneof o { google.protobuf.Any a = 5; google.protobuf.BoolValue b = 6; } optional google.protobuf.StringValue s = 7; repeated google.protobuf.Int64Value r = 8; google.protobuf.FieldMask m = 9; google.protobuf.SourceContext c = 10; }', ['google/protobuf/%s.proto' % w for w in wk])}))
    # long names, that differ in their last character only; many packages
    for n in (20, 31, 32, 63, 64, 127, 128, 200):
        x = 'x' * n
        add('enum E%s1 { %s1_A = 0; %s1_B = 5; }\nenum E%s2 { %s2_A = 0; %s2_B = -6; }\nmessage M%s1 { uint32 a = 1; }\nmessage M%s2 { string b = 1; message M%s1 { bool c = 1; } M%s1 d = 2; }\n'.replace('%s', x) +
            'message M { M%s1 f%s1 = 1; M%s2 f%s2 = 2; oneof o%s1 { string g%s1 = 3; M%s2 g%s2 = 4; } oneof o%s2 { E%s1 h%s1 = 5; E%s2 h%s2 = 6; } optional string i%s1 = 7; optional bytes i%s2 = 8; repeated E%s1 j%s1 = 9; repeated E%s2 j%s2 = 10; }\n'.replace('%s', x), '@.p%s1' % x)
    for n in (4, 5, 8, 9, 12, 20):
        for same in (0, 1):
            add('enum E { Z = 0; N = -1; }\nmessage A { uint32 a = 1; message B { E e = 1; } B b = 2; }\nmessage C { A a = 1; repeated A.B b = 2; optional E e = 3; string s = 4; }\nmessage D { C c = 1; }\n', '@' + ''.join('.p%s' % ('' if same else i) for i in range(n)))
    # names made of digits and underscores
    add('message M1 { uint32 f1 = 1; uint32 f_2 = 2; uint32 f__3 = 3; uint32 f4_ = 4; uint32 _f5 = 5; uint32 f1f1 = 6; string f6_ = 7; string f_7 = 8; oneof o_1_ { uint32 g1 = 9; string g_2 = 10; } repeated string r1 = 11; repeated bytes r_2 = 12; }\nmessage M_1 { M1 m1 = 1; repeated M1 m_2 = 2; }\n', '@.p1.p_1')
    # the option is not used by fields without a capacity
    add('message S { uint32 a = 1; }\nenum E { Z = 0; N = 1; }\nmessage M { uint32 a = 1 [(EmbeddedProto.options).maxLength = 3]; S s = 2 [(EmbeddedProto.options).maxLength = 3]; optional E e = 3 [(EmbeddedProto.options).maxLength = 3]; oneof o { double d = 4 [(EmbeddedProto.options).maxLength = 3]; S t = 5 [(EmbeddedProto.options).maxLength = 3]; } }\n', '@')
    # no package
    add('message @X { uint32 a = 1; }\nmessage @Y { @X x = 1; message I { @X x = 1; repeated string s = 2; } I i = 2; }\n', '')
    # empty file, only enums, empty message
    add('', '@')
    add(enum('E1') + '\n', '@')
    add('message M {}\n', '@')
    add('message M { message N {} message O { N n = 1; } O o = 1; N n = 2; oneof x { N a = 3; O b = 4; } repeated N r = 5; }\n', '@')
    # reserved, comments, json names, deprecated, packed options
    add('message M { reserved 4, 6 to 9; reserved "old"; uint32 a = 1 [deprecated = true]; repeated uint32 p = 2 [packed = true]; repeated uint32 u = 3 [packed = false]; uint32 j = 5 [json_name = "jj"]; /* c */ uint32 last = 536870911; // d\n }\n', '@')
    add('enum E { option allow_alias = true; Z = 0; A = 1; B = 1; }\nmessage M { E e = 1; }\n', '@')
    add('message M { uint32 a = 1; }\nservice S { rpc Call(M) returns (M); }\n', '@')
    # deep nesting
    add('message A { message B { message C { message D { uint32 x = 1; string s = 2 [(EmbeddedProto.options).maxLength = 5]; } D d = 1; repeated D e = 2 [(EmbeddedProto.options).maxLength = 2]; } C c = 1; } B b = 1; optional B.C bc = 2; }\nmessage Z { uint32 z = 1; }\n', '@')
    add('message A { message B { message C { message D { uint32 x = 1; } D d = 1; repeated D e = 2 [(EmbeddedProto.options).maxLength = 2]; } C c = 1; } B b = 1; oneof o { B.C.D bcd = 2; B.C bc = 3; } }\nmessage Z { A.B.C.D z = 1; A.B y = 2; repeated A.B.C x = 3; }\n', '@')
    add('message L0 { uint32 a = 1; }\n' + ''.join('message L%d { L%d a = 1; repeated L%d b = 2; }\n' % (i, i - 1, i - 1) for i in range(1, 6)), '@')
    add(''.join('message L%d { L%d a = 1; }\n' % (i, i + 1) for i in range(0, 9)) + 'message L9 { string a = 1; }\n', '@')
    return cases


def fam_shadow():
    """The name N defined at any set of the scopes top, A, A.B, A.B.C; every definition is used from every scope."""
    cases = []
    scopes = ['', 'A.', 'A.B.', 'A.B.C.']
    for kind in ('enum', 'msg', 'mixed'):
        for mask in range(1, 16):
            for templ in (None, 0, 1, 2):
                cid = 's%d' % len(cases)
                defs = [i for i in range(4) if mask >> i & 1]

                def d(i):
                    if kind == 'enum' or (kind == 'mixed' and i % 2):
                        return enum('N', (('V%s%d_Z' % (cid, i), 0), ('V%s%d_Y' % (cid, i), 5 + i)))
                    return 'message N { uint32 n%d = 1; }' % i

                def uses(k):
                    """k: scope of the user, 1..3 inside A, B, C"""
                    o, num = '', 1
                    for i in defs:
                        # a definition inside of a message with template parameters is not usable outside of it
                        if templ is not None and i > k and any(k < x <= i and x == templ + 1 for x in range(4)):
                            continue
                        for lab, ml in (('', 0), ('repeated ', 2), ('optional ', 0)):
                            o += ' %s.%s.%sN u%d = %d%s;' % (lab, cid, scopes[i], num, num, ' [(EmbeddedProto.options).maxLength = 2]' if ml else '')
                            num += 1
                        o += ' oneof o%d { .%s.%sN u%d = %d; bool v%d = %d; }' % (i, cid, scopes[i], num, num, num, num + 1)
                        num += 2
                    if templ == k - 1:
                        o += ' string text = 100;'
                    return o
                body = (d(0) if 0 in defs else '') + '\nmessage A { ' + (d(1) if 1 in defs else '') + ' message B { ' + (d(2) if 2 in defs else '') + ' message C { ' + (d(3) if 3 in defs else '') + uses(3) + ' } ' + uses(2) + ' } ' + uses(1) + ' }\n'
                # templ counts the messages A, B, C from 0; the outermost message with parameters hides what is inside of it
                body += 'message Z {' + uses(0).replace(' string text = 100;', '') + ' }\n'
                cases.append(dict(id=cid, fam='shadow', files={cid + '/a.proto': proto(cid, body)}, gen=[cid + '/a.proto'], pkg=True, expect='ok'))
    return cases


def fam_files(tier):
    """Two and three files, all acyclic imports, packages, folders."""
    cases = []
    pk3 = [('@', '@', '@'), ('@.a', '@.b', '@.c'), ('@', '@.a', '@.a.b'), ('@.a.b', '@.a', '@'), ('@.a', '@.a.a', '@.b.a'), ('', '@', ''), ('', '', ''), ('@.b', '', '@')]
    fn3 = [('a.proto', 'b.proto', 'c.proto'), ('c.proto', 'b.proto', 'a.proto'), ('x/a.proto', 'y/a.proto', 'a.proto'), ('a-b.proto', 'a.c.proto', 'd1/d2/a_1.proto'), ('1a.proto', 'B.proto', 'sub_dir/1.proto'), ('opt/my_options.proto', 'descriptor.proto', 'a.protocol/plugin.proto.proto'), ('Ab.proto', 'aB.c/ab_.proto', 'ab.h.proto')]
    deps = [[(1, 0)], [(1, 0), (2, 0)], [(1, 0), (2, 1)], [(1, 0), (2, 1), (2, 0)], [(2, 0), (2, 1)]]
    k = 0
    for pi, pk in enumerate(pk3):
        for fi, fn in enumerate(fn3):
            for di, dep in enumerate(deps):
                if tier == 'quick' and (pi + fi + di) % 2 and fi:
                    continue
                cid = 'd%d' % k
                k += 1
                pks = [p.replace('@', cid) for p in pk]
                same = len(set(pks)) < 3 or True
                mn = ['%sM%d' % (cid.upper() if not pks[i] else '', i if list(pks).count(pks[i]) > 1 else 0) for i in range(3)]
                en = ['%sE%d' % (cid.upper() if not pks[i] else '', i if list(pks).count(pks[i]) > 1 else 0) for i in range(3)]
                q = lambda i, n: '.' + (pks[i] + '.' if pks[i] else '') + n
                files = {}
                for i in range(3):
                    body = '%s\nmessage %s { uint32 a = 1; message N { sint32 n = 1; } N nn = 2; %s\n' % (enum(en[i], (('%s_%d_ZERO' % (cid.upper(), i), 0), ('%s_%d_ONE' % (cid.upper(), i), 1), ('%s_%d_BIG' % (cid.upper(), i), 100000))), mn[i], 'string s = 3;' if (i + k) % 3 == 0 else '')
                    fnum = 10
                    for a, b in dep:
                        if a == i:
                            tmpl_b = True
                            for lab, t in (('', mn[b]), ('repeated ', mn[b]), ('optional ', en[b]), ('', en[b]), ('repeated ', en[b])):
                                body += '  %s%s g%d = %d;\n' % (lab, q(b, t), fnum, fnum)
                                fnum += 1
                            body += '  oneof o%d { %s h%d = %d; %s i%d = %d; }\n' % (b, q(b, mn[b]), fnum, fnum, q(b, en[b]), fnum + 1, fnum + 1)
                            fnum += 2
                    body += '}\n'
                    files[cid + '/' + fn[i]] = proto(pks[i], body, [cid + '/' + fn[b] for a, b in dep if a == i])
                cases.append(dict(id=cid, fam='files', files=files, gen=[cid + '/' + f for f in fn], pkg=all(pks), expect='ok', dep=dep))
    # public imports, unused imports
    for pub in ('', 'public '):
        cid = 'd%d' % k
        k += 1
        cases.append(dict(id=cid, fam='files', pkg=True, expect='ok', gen=[cid + '/a.proto', cid + '/b.proto', cid + '/c.proto'], files={
            cid + '/a.proto': proto(cid, 'message A { uint32 a = 1; enum E { Z = 0; Y = 3; } }'),
            cid + '/b.proto': 'syntax = "proto3";\nimport %s"%s/a.proto";\npackage %s;\nmessage B { A a = 1; A.E e = 2; }\n' % (pub, cid, cid),
            cid + '/c.proto': 'syntax = "proto3";\nimport "%s/b.proto";\n%spackage %s;\nmessage C { B b = 1; %s }\n' % (cid, '' if pub else 'import "%s/a.proto";\n' % cid, cid, 'A a = 2; repeated A.E e = 3;')}))
    return cases
