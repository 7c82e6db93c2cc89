"""Enumerates the bounded grammar of class declarations of C09: writes the headers trick-ICG reads and the table of what
each declaration means (sizes, offsets and bits are left to the compiler: the table is C++)."""
import itertools, os, re

BUILTIN = [('bool', 'BOOLEAN'), ('char', 'CHARACTER'), ('signed char', 'CHARACTER'), ('unsigned char', 'UNSIGNED_CHARACTER'), ('wchar_t', 'WCHAR'), ('short', 'SHORT'),
           ('unsigned short', 'UNSIGNED_SHORT'), ('int', 'INTEGER'), ('unsigned int', 'UNSIGNED_INTEGER'), ('long', 'LONG'), ('unsigned long', 'UNSIGNED_LONG'),
           ('long long', 'LONG_LONG'), ('unsigned long long', 'UNSIGNED_LONG_LONG'), ('float', 'FLOAT'), ('double', 'DOUBLE')]
STRUCTS = ['GStruct', 'TStruct', 'GUnion', 'GOuter::Emb', 'ns9::NStruct', 'ns9::in9::NNStruct']
ENUMS = ['GEnum', 'GScoped', 'TEnum', 'GOuter::EmbEnum', 'ns9::NEnum']

class Gen:
    def __init__(s, thorough):
        s.thorough = thorough; s.hdr = []; s.tab = []; s.cls = []; s.enums = []; s.n = 0; s.subs = {}
    # ---- output of one class and what is expected of it
    def q(s, x): return 'NULL' if x is None else '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
    def exp(s, name, need=1, tn=None, ty='-1', size='-1', off='-1', dims=(), io=15, units='1', des=None, stat=0, dash=0, ref=0, sub=-1, stl='-1', stle='-1', setb='NULL', width=0):
        return '{%s, %d, %s, %s, %s, %s, %d, {%s}, %d, %s, %s, %d, %d, %d, %s, %s, %s, %s, %d}' % (s.q(name), need, s.q(tn), ty, size, off, len(dims), ', '.join(map(str, dims)) or '0', io,
               s.q(units), s.q(des), stat, dash, ref, sub, stl, stle, setb, width)
    def add(s, cxx, mangled, exps, ns='', cand=None, subs=None, table=True):
        """a class whose C++ name is cxx and whose attributes are attr<mangled>"""
        k = len(s.cls)
        s.tab.append('static const Exp e%d[] = {%s};' % (k, ',\n '.join(exps) or s.exp('', 0)))
        if cand: s.tab.append('static const Cand c%d[] = {%s};' % (k, ', '.join(cand)))
        if subs: s.tab.append('static const Sub s%d[] = {%s};' % (k, ', '.join(subs)))
        if table:
            s.tab.append('} extern "C" { extern ATTRIBUTES attr%s[]; void init_attr%s_c_intf(); size_t io_src_sizeof_%s(); } namespace c09 {' % (mangled, mangled, mangled))
        s.cls.append('{"%s", %s, %s, %s, (long)sizeof(%s), e%d, %d, %s, %d, %s, %d}' % (cxx, 'attr' + mangled if table else 'NULL', 'init_attr%s_c_intf' % mangled if table else 'NULL',
            'io_src_sizeof_' + mangled if table else 'NULL', cxx, k, len(exps), 'c%d' % k if cand else 'NULL', len(cand or []), 's%d' % k if subs else 'NULL', len(subs or [])))
        return k

SHAPES = [('v', '%s m_v', ()), ('a1', '%s m_a1[2]', (2,)), ('a2', '%s m_a2[2][3]', (2, 3)), ('a3', '%s m_a3[2][3][4]', (2, 3, 4)), ('a8', '%s m_a8[1][2][1][2][1][2][1][2]', (1, 2, 1, 2, 1, 2, 1, 2)),
          ('p1', '%s *m_p1', (0,)), ('p2', '%s **m_p2', (0, 0)), ('ap', '%s *m_ap[3]', (3, 0)), ('pa', '%s (*m_pa)[3]', (0, 3)), ('aap', '%s *m_aap[2][3]', (2, 3, 0)), ('app', '%s **m_app[2]', (2, 0, 0)),
          ('cp', 'const %s *m_cp', (0,)), ('vol', 'volatile %s m_vol', ()), ('mut', 'mutable %s m_mut', ())]
BADSHAPES = [('z', '%s m_z[0]'), ('d9', '%s m_d9[1][1][1][1][1][1][1][1][1]'), ('p9', '%s ********(*m_p9)'), ('fp', '%s (*m_fp)(int)'), ('fpa', '%s (*m_fpa[2])()'), ('pm', '%s GStruct::*m_pm'), ('pmf', '%s (GStruct::*m_pmf)(int)'), ('pma', '%s GStruct::*m_pma[2]')]

def off(C, path): return '(long)((const volatile char *)&%s - (const volatile char *)0x100000)' % ('((%s *)0x100000)->%s' % (C, path))

def members(g, H, tier):
    """every member type x every shape x every context"""
    out = ['/* PURPOSE: (members) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    types = [(t, 'TRICK_' + e, t, None) for t, e in BUILTIN] + [(t, 'TRICK_STRUCTURED', None, t) for t in STRUCTS] + [(t, 'TRICK_ENUMERATED', None, 'E' + t) for t in ENUMS] + \
            [('std::string', 'TRICK_STRING', 'std::string', None), ('std::wstring', 'TRICK_WSTRING', 'std::wstring', None), ('TInt', 'TRICK_INTEGER', 'int', None), ('TInt2', 'TRICK_INTEGER', 'int', None), ('TGS', 'TRICK_STRUCTURED', None, 'GStruct')]
    i = 0
    for t, ty, tn, sub in types:
        for kind in ('struct', 'private', 'protected', 'ns', 'emb') if t in ('int', 'GStruct', 'GEnum', 'double', 'std::string', 'ns9::NEnum') or g.thorough else ('struct', 'private'):
            i += 1; C = 'M%d' % i; L = []; E = []
            cx, mg = C, C
            if kind == 'ns': cx, mg = 'nsm::' + C, 'nsm__' + C
            if kind == 'emb': cx, mg = C + 'o::' + C, C + 'o__' + C
            common = dict(tn=tn, ty=ty, sub=g.subs[sub] if sub else -1)
            L.append('char pad_0;'); E.append(g.exp('pad_0', tn='char', ty='TRICK_CHARACTER', size='1', off=off(cx, 'pad_0')))
            for s, d, dims in SHAPES:
                if s in ('cp', 'vol', 'mut') and kind != 'struct': continue
                if s == 'vol' and not (t in dict(BUILTIN)): continue
                L.append(d % t + ';'); E.append(g.exp('m_' + s, dims=dims, size='sizeof(%s)' % t, off=off(cx, 'm_' + s), **common))
                if s in ('a1', 'p1', 'v'):
                    L.append('char pad_%s;' % s); E.append(g.exp('pad_' + s, tn='char', ty='TRICK_CHARACTER', size='1', off=off(cx, 'pad_' + s)))
            for s, d in BADSHAPES:
                if kind != 'struct': continue
                L.append(d % t + ';'); E.append(g.exp('m_' + s, 0))
            # public static members are described by their address; the others are out of the generated code's reach
            for s, d, dims in SHAPES[:3] + SHAPES[5:6] + SHAPES[7:8]:
                L.append('static ' + (d % t).replace('m_', 's_') + ';')
                E.append(g.exp('s_' + s, 1 if kind not in ('private', 'protected') else 0, dims=dims, size='sizeof(%s)' % t, off='(long)&%s::s_%s' % (cx, s), stat=1, **common))
                g.tab.append('} %s; namespace c09 {' % re.sub(r'(m_\w+)', lambda m: cx + '::' + m.group(1).replace('m_', 's_'), d % t))
            if t in ('int', 'double', 'bool', 'GEnum'):
                L.append('static const %s sc_1;' % t); E.append(g.exp('sc_1', 1 if kind not in ('private', 'protected') else 0, size='sizeof(%s)' % t, off='(long)&%s::sc_1' % cx, stat=1, io=-2, **common))
                g.tab.append('} const %s %s::sc_1 = (%s)1; namespace c09 {' % (t, cx, t))
                if t == 'int': L.append('static const int sc_2 = 5;'); E.append(g.exp('sc_2', 0)); L.append('static constexpr int sc_3 = 6;'); E.append(g.exp('sc_3', 0)); L.append('static int &sr_1;'); E.append(g.exp('sr_1', 0))
            if kind == 'struct' and t in ('int', 'double'): L.append('char last_0;'); E.append(g.exp('last_0', tn='char', ty='TRICK_CHARACTER', size='1', off=off(cx, 'last_0'))); L.append('%s flex_0[];' % t); E.append(g.exp('flex_0', 0))
            body = '\n  '.join(L)
            if kind == 'struct': d = 'struct %s {\n  %s\n};' % (C, body)
            elif kind in ('private', 'protected'): d = 'class %s {\n %s:\n  %s\n};' % (C, kind, body)
            elif kind == 'ns': d = 'namespace nsm { struct %s {\n  %s\n}; }' % (C, body)
            else: d = 'class %so { public: int o; class %s { public:\n  %s\n}; };' % (C, C, body)
            out.append(d)
            g.add(cx, mg, E)
    # references, unions, typedef shapes and members of types there is no description for
    out.append('struct MR { char c; int &r_1; double &r_2; GStruct &r_3; GEnum &r_4; char l; int v; int (&r_5)[2]; MR() : r_1(v), r_2(*(double *)0), r_3(*(GStruct *)0), r_4(*(GEnum *)0), r_5(*(int (*)[2])0) {} int x; };')
    E = []
    for n, t, ty, o, sub in (('r_1', 'int', 'INTEGER', 8, None), ('r_2', 'double', 'DOUBLE', 16, None), ('r_3', 'GStruct', 'STRUCTURED', 24, 'GStruct'), ('r_4', 'GEnum', 'ENUMERATED', 32, 'EGEnum')):
        E.append(g.exp(n, ty='TRICK_' + ty, size='sizeof(%s)' % t, off=str(o), ref=8, io=3, sub=g.subs[sub] if sub else -1))
    E += [g.exp('r_5', ty='TRICK_INTEGER', size='4', off='48', ref=8, io=3, dims=(2,))] + [g.exp(n, ty='TRICK_' + ty, size=z, off=off('MR', n)) for n, ty, z in (('c', 'CHARACTER', '1'), ('l', 'CHARACTER', '1'), ('v', 'INTEGER', '4'), ('x', 'INTEGER', '4'))]
    g.add('MR', 'MR', E)
    out.append('union MU { char c; int i[3]; double d; GStruct s; short *p; unsigned int b : 3; };')
    g.add('MU', 'MU', [g.exp(n, ty='TRICK_' + ty, size=z, off='0', dims=d, sub=sb) for n, ty, z, d, sb in (('c', 'CHARACTER', '1', (), -1), ('i', 'INTEGER', '4', (3,), -1), ('d', 'DOUBLE', '8', (), -1), ('s', 'STRUCTURED', 'sizeof(GStruct)', (), g.subs['GStruct']), ('p', 'SHORT', '2', (0,), -1))]
          + [setb(g, 'MU', 'b', 'unsigned int', 3, 'TRICK_UNSIGNED_BITFIELD')])
    out.append('struct MT { TArr t_1; TArr t_2[2]; TArr *t_3; TPtr t_4; TPtr t_5[4]; TPtr *t_6; TInt t_7 : 5; TInt *t_8; std::size_t t_9; unsigned t_10; long int t_11; int const *t_12; int const volatile t_13 = 1; };')
    g.add('MT', 'MT', [g.exp(n, tn=tn, ty='TRICK_' + ty, size=z, off=off('MT', n), dims=d) for n, tn, ty, z, d in (('t_1', 'double', 'DOUBLE', '8', (3,)), ('t_2', 'double', 'DOUBLE', '8', (2, 3)), ('t_3', 'double', 'DOUBLE', '8', (0, 3)), ('t_4', 'int', 'INTEGER', '4', (0,)),
          ('t_5', 'int', 'INTEGER', '4', (4, 0)), ('t_6', 'int', 'INTEGER', '4', (0, 0)), ('t_8', 'int', 'INTEGER', '4', (0,)), ('t_9', 'unsigned long', 'UNSIGNED_LONG', '8', ()), ('t_10', 'unsigned int', 'UNSIGNED_INTEGER', '4', ()),
          ('t_11', 'long', 'LONG', '8', ()), ('t_12', 'int', 'INTEGER', '4', (0,)), ('t_13', 'int', 'INTEGER', '4', ()))] + [setb(g, 'MT', 't_7', 'TInt', 5, 'TRICK_BITFIELD')])
    bad = ['void *b_1', 'void **b_2', 'FILE *b_3', 'long double b_4', 'long double b_5[2]', 'std::complex<double> b_6', 'std::unordered_map<int, int> b_7', 'std::unique_ptr<int> b_8', 'std::nullptr_t b_9', '__int128 b_10', '_Complex double b_11',
           'struct { int i; } b_12', 'std::vector<int> b_13[2]', 'std::vector<int> *b_14', 'std::map<int, int> **b_15', 'void (*b_16)(void)', 'std::shared_ptr<GStruct> b_17', 'FILE b_18', 'std::nullptr_t *b_19', 'const void *b_20', 'unsigned __int128 b_21[2]',
           'double (*(*b_22)(int))[2]', 'enum { BE_A } *b_23', 'std::vector<int>::iterator b_24', 'char32_t b_25', '_Float16 b_26', 'class Fwd *b_27', 'std::vector<const int *> b_28']
    bad = [b for b in bad if not b.startswith(('std::vector<const', 'enum {', 'class Fwd', '_Float16'))]
    out.append('struct MB { int first; %s int last; union { int an_1; float an_2; }; struct { int an_3; }; int end; };' % ''.join(b + '; ' for b in bad))
    g.add('MB', 'MB', [g.exp(re.search(r'b_\d+', b).group(0), 0) for b in bad] + [g.exp(n, ty='TRICK_INTEGER', size='4', off=off('MB', n)) for n in ('first', 'last', 'end')] + [g.exp('', 0)])
    # containers
    S = []; E = []
    for k, (t, st, el) in enumerate([('vector', 'VECTOR', 1), ('deque', 'DEQUE', 1), ('list', 'LIST', 1), ('set', 'SET', 1), ('multiset', 'SET', 1), ('queue', 'QUEUE', 1), ('stack', 'STACK', 1), ('priority_queue', 'PRIORITY_QUEUE', 1), ('array', 'ARRAY', 3), ('map', 'MAP', 2), ('multimap', 'MAP', 2), ('pair', 'PAIR', 2)]):
        for j, (et, te) in enumerate([(b, 'TRICK_' + e) for b, e in BUILTIN] + [('std::string', 'TRICK_STRING'), ('GStruct', 'TRICK_STRUCTURED'), ('GEnum', 'TRICK_ENUMERATED'), ('ns9::NStruct', 'TRICK_STRUCTURED'), ('std::vector<int>', 'TRICK_STL'), ('std::vector<std::string>', 'TRICK_STL')]):
            if et in ('GStruct', 'ns9::NStruct') and t in ('set', 'multiset', 'priority_queue'): continue
            if et == 'signed char' : continue
            n = 'v_%d_%d' % (k, j)
            T = 'std::%s<%s>' % (t, et) if el == 1 else 'std::%s<%s, 3>' % (t, et) if el == 3 else 'std::%s<int, %s>' % (t, et)
            S.append('%s %s;' % (T, n)); first = t == 'pair'
            E.append(g.exp(n, ty='TRICK_STL', size='sizeof(%s)' % T.replace(', ', ','), off=off('MS', n), stl='TRICK_STL_' + st, stle='TRICK_INTEGER' if first else te))
    out.append('class MS { public:\n  %s\n};' % '\n  '.join(S)); g.add('MS', 'MS', E)
    out.append('#endif'); return '\n'.join(out) + '\n'

_sb = [0]
def setb(g, C, n, t, w, ty, name=None, obj=None, **kw):
    _sb[0] += 1; f = 'sb%d' % _sb[0]
    g.tab.append('static void %s(void *p) { %s o = (%s)~0ull; ((%s *)p)->%s = %s; }' % (f, 'unsigned long long' if t != 'GEnum' else 'GEnum', 'unsigned long long' if t != 'GEnum' else 'GEnum', C, n, '(%s)o' % t))
    return g.exp(name or n, ty=ty, size='4', setb=f, width=w, **kw)

def bits(g, H):
    """every sequence of up to three bit-fields over a few types and widths, with unnamed and zero-width ones between"""
    out = ['/* PURPOSE: (bits) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    F = [('int', 1), ('int', 5), ('unsigned int', 31), ('unsigned int', 32), ('char', 3), ('unsigned char', 8), ('short', 9), ('bool', 1), ('long long', 20), ('unsigned long', 40), ('GEnum', 4), ('int', -2), ('int', 0), ('char', None)]
    if g.thorough: F += [('int', 32), ('long', 33), ('unsigned short', 16), ('signed char', 2), ('unsigned int', 12), ('int', 17)]
    small = [f for f in F if f in (('int', 5), ('unsigned int', 31), ('char', 3), ('unsigned char', 8), ('long long', 20), ('GEnum', 4), ('int', -2), ('char', None), ('bool', 1))]
    seqs = [(a,) for a in F] + list(itertools.product(F, F)) + list(itertools.product(small, small, small if not g.thorough else F))
    for i, sq in enumerate(seqs):
        C = 'B%d' % i; L = []; E = []
        nm = 0
        for t, w in sq + (('short', None),):
            if w is None:
                n = 'm_%d' % nm; nm += 1
                L.append('%s %s;' % (t, n)); E.append(g.exp(n, tn=t, ty='TRICK_' + dict(BUILTIN)[t], size='sizeof(%s)' % t, off=off(C, n)))
            elif w <= 0: L.append('%s : %d;' % (t, -w))
            else:
                n = 'm_%d' % nm; nm += 1; L.append('%s %s : %d;' % (t, n, w))
                ty = 'TRICK_UNSIGNED_BITFIELD' if t.startswith('unsigned') or t == 'bool' else 'TRICK_BITFIELD'
                if t == 'GEnum': ty = '(std::is_signed<std::underlying_type<GEnum>::type>::value ? TRICK_BITFIELD : TRICK_UNSIGNED_BITFIELD)'
                E.append(setb(g, C, n, t, w, ty).replace('{"%s", 1' % n, '{"%s", 2' % n))     # described if it lies in one 32 bit word: decided at run time
        out.append('struct %s { %s };' % (C, ' '.join(L))); g.add(C, C, E)
    out.append('#endif'); return '\n'.join(out) + '\n'

IOM = {'*io': 3, '*i': 2, '*o': 1, '**': 0}
def comments(g, H, part, parts):
    """every form of the comment fields"""
    out = ['/* PURPOSE: (comments) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    styles = [('// ', ''), ('/* ', ' */'), ('/**< ', ' */'), ('//!< ', ''), ('/*!< ', '*/'), ('/*', '\n     */'), ('//', '')]
    io = [(None, '')] + [(v, k) for k, v in IOM.items()] + [(v, f % k) for k, v in IOM.items() for f in ('trick_io(%s)', '@trick_io{%s}', 'io(%s)')]
    cio = [(None, '')] + [(v, f % k) for k, v in IOM.items() for f in ('trick_chkpnt_io(%s)', '@trick_chkpnt_io{%s}', 'cio(%s)')]
    un = [('1', 0, '--'), ('1', 1, '(--)'), ('m', 0, '(m)'), ('m', 0, 'm'), ('m', 0, 'trick_units(m)'), ('m/s', 0, '@trick_units{m/s}'), ('kg*m/(s2)', 0, 'trick_units(kg*m/(s2))'), ('1', 1, 'trick_units(--)'), ('1', 0, '(bogus9)'), ('1', 0, 'trick_units(bogus9)'), ('m/s', 0, '(m / s)'), ('rad', 0, '@trick_units(rad)')]
    un = [(u, int('--' in s), s) for u, d, s in un]
    de = [('', ''), ('text', 'text'), ('two words', 'two  words'), ('say "hi" \\ x', 'say "hi" \\ x'), ('mass ratio(x/y) to audio(l)', 'mass ratio(x/y) to audio(l)')]
    combos = []
    for s in styles:
        for i in io:
            for c in cio:
                for u in (un[0], un[2], un[4]): combos.append((s, i, c, u, de[1]))
    for i in io:
        for c in cio[:5]:
            for u in un:
                for d in de: combos.append((styles[0], i, c, u, d))
    if g.thorough:
        for s in styles:
            for i in io:
                for c in cio:
                    for u in un:
                        for d in de: combos.append((s, i, c, u, d))
    else: combos = combos[::1]
    combos = list(dict.fromkeys(combos))
    n = len(combos); combos = combos[part * n // parts:(part + 1) * n // parts]
    for b in range(0, len(combos), 150):
        C = 'C%d_%d' % (part, b // 150); L = []; E = []
        for k, (s, i, c, u, d) in enumerate(combos[b:b + 150]):
            f = ' '.join(x for x in (i[1], c[1], u[2], d[1]) if x)
            L.append('int m_%d; %s%s%s' % (k, s[0], f, s[1]))
            v = 3 if i[0] is None else i[0]; cv = v if c[0] is None else c[0]
            v |= cv << 2
            E.append(g.exp('m_%d' % k, 1 if v else 0, ty='TRICK_INTEGER', tn='int', size='4', off=off(C, 'm_%d' % k), io=v, units=u[0], dash=u[1], des=d[0]))
        out.append('struct %s {\n  %s\n};' % (C, '\n  '.join(L))); g.add(C, C, E)
    if part == 0:
        out.append('struct CR { int v;\n int &r_0; // *o (m) text\n int &r_1; // *i\n int &r_2; // **\n int &r_3; // *io (s)\n static const int sc; // *io (m)\n static const int sd; // *i (m)\n int a, *b, c[2]; // *o (kg) all of them\n CR() : r_0(v), r_1(v), r_2(v), r_3(v) {}\n char *str; /* *i (--)\n     more text */\n int last;\n};')
        g.tab.append('} const int CR::sc = 1; const int CR::sd = 2; namespace c09 {')
        g.add('CR', 'CR', [g.exp('v', ty='TRICK_INTEGER', off='0', size='4'), g.exp('r_0', ty='TRICK_INTEGER', size='4', off='8', ref=8, io=1, units='m', des='text'), g.exp('r_1', ty='TRICK_INTEGER', size='4', off='16', ref=8, io=2),
              g.exp('r_2', 0), g.exp('r_3', ty='TRICK_INTEGER', size='4', off='32', ref=8, io=3, units='s'), g.exp('sc', ty='TRICK_INTEGER', size='4', off='(long)&CR::sc', stat=1, io=-2, units='m'), g.exp('sd', 0)]
              + [g.exp(n, ty='TRICK_INTEGER', size='4', off=off('CR', n), io=5, units='kg', dims=d, des='all of them') for n, d in (('a', ()), ('b', (0,)), ('c', (2,)))]
              + [g.exp('str', ty='TRICK_CHARACTER', tn='char', size='1', off=off('CR', 'str'), io=10, dims=(0,), dash=1, des='more text'), g.exp('last', ty='TRICK_INTEGER', off=off('CR', 'last'), size='4')])
    out.append('#endif'); return '\n'.join(out) + '\n'

def inherit(g, H, compat=False):
    """every class graph over two or three roots: single, multiple, repeated and virtual bases of every access, own members which hide inherited ones"""
    out = ['/* PURPOSE: (inheritance) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    K = {}                                                   # name -> (bases [(name, virtual, access)], own)
    T = {'x': ('int', 'TRICK_INTEGER'), 'y': ('double', 'TRICK_DOUBLE'), 'z': ('short', 'TRICK_SHORT')}
    P = H
    def root(n, own): K[n] = ([], own)
    root(P + 'A', 'xb'); root(P + 'B', 'xy'); root(P + 'Z', 'z')
    A, B, Z = P + 'A', P + 'B', P + 'Z'
    l1 = []
    def mk(bases, own):
        n = ('%sD%d' % (P, len(K)) if len(K) % 3 else 'D%d%sB' % (len(K), P)); K[n] = (bases, own); return n     # the name of one class may end in that of another
    for v in (0, 1):
        for acc in ('public', 'protected', 'private'):
            for own in ('', 'x'):
                for b in (A, B): l1.append(mk([(b, v, acc)], own))
    for v1 in (0, 1):
        for v2 in (0, 1):
            for own in ('', 'x', 'z'):
                l1.append(mk([(A, v1, 'public'), (B, v2, 'public')], own))
    pub = [n for n in l1 if all(b[2] == 'public' for b in K[n][0])]
    l2 = []
    for n in pub:
        for v in (0, 1):
            for own in ('', 'x'): l2.append(mk([(n, v, 'public')], own))
    sel = [n for n in pub if len(K[n][0]) == 1]
    for a in sel:
        for b in (sel if not g.thorough else pub) + [Z]:
            if a == b: continue
            for v in (0, 1):
                for own in ('', 'y') if g.thorough else ('', 'y')[len(K) % 2:][:1]: l2.append(mk([(a, v, 'public'), (b, v, 'public')], own))
    mk([(A, 0, 'public'), (B, 0, 'public'), (Z, 1, 'public')], '')
    three = [n for n in l2 if len(K[n][0]) == 2 and K[n][0][1][0] != Z][:: 1 if g.thorough else 3]
    for n in three: mk([(n, 0, 'public'), (Z, 0, 'public')], 'z')
    # subobjects: (cast chain, class)
    def anc(c):
        r = []
        for b, v, a in K[c][0]:
            r.append(b); r += anc(b)
        return list(dict.fromkeys(r))
    def subobj(c, chain=None, virt=None):
        """(list of casts from the complete object, class) of every subobject; a virtual base is listed once"""
        chain = chain or []; virt = set() if virt is None else virt
        r = [(chain, c)]
        for b, v, a in K[c][0]:
            if v:
                if b in virt: continue
                virt.add(b)
            r += subobj(b, chain + [b], virt)
        return r
    for n, (bases, own) in K.items():
        L = []
        for o in own:
            if o == 'b': L.append('int w : 3; int u : 6;')
            else: L.append('%s %s;' % (T[o][0], o))
        L.append('char own_%s;' % n)
        out.append('class %s%s%s { public: %s };' % (n, ' : ' if bases else '', ', '.join(('virtual ' if v else '') + a + ' ' + b for b, v, a in bases), ' '.join(L)))
        cands = []; subs = []
        allanc = anc(n)
        names = []
        for c in [n] + allanc:
            for o in K[c][1]:
                names += ['w', 'u'] if o == 'b' else [o]
            names.append('own_' + c)
        names = list(dict.fromkeys(names))
        quals = [''] + [a + '::' for a in allanc] + [a + '::' + b + '::' for a in [n] + allanc for b in anc(a)]
        for ch, c in subobj(n):
            if len(ch) > 1: quals += ['::'.join([n] + ch) + '::'] + (['::'.join(ch) + '::'] if len(ch) > 2 else [])
        quals = list(dict.fromkeys(quals))
        g.tab.append('} alignas(16) static char ob_%s[sizeof(%s)]; static %s *op_%s = new (ob_%s) %s; namespace c09 {' % (n, n, n, n, n, n))
        for q in quals:
            has = [o for c in ([q.split('::')[-2]] if q else [n]) for c2 in [c] + anc(c) for o in list(K[c2][1]) + ['own_' + c2]]
            for m in names:
                if m in ('w', 'u') or m not in has: continue
                t = '%s_%s' % (n, (q + m).replace('::', '_'))
                g.tab.append('template <class T> static auto ca_%s(T *p, int) -> decltype(&p->%s, Cand()) { return Cand{"%s", (long)((char *)&p->%s - (char *)p), (long)sizeof(p->%s)}; } template <class T> static Cand ca_%s(T *, long) { return Cand{"%s", -1, 0}; }' % (t, q + m, q + m, q + m, q + m, t, q + m))
                cands.append('ca_%s(op_%s, 0)' % (t, n))
        for ch, c in subobj(n):
            e = 'op_%s' % n
            for b in ch: e = '((%s *)%s)' % (b, e)
            what = '::'.join(ch) or 'own'
            for o in K[c][1]:
                if o == 'b':
                    for m, w in (('w', 3), ('u', 6)):
                        _sb[0] += 1; f = 'sb%d' % _sb[0]
                        g.tab.append('static void %s(void *p) { unsigned char a[sizeof(%s)], b[sizeof(%s)]; %s->%s = 0; memcpy(a, op_%s, sizeof a); %s->%s = -1; memcpy(b, op_%s, sizeof b); for (size_t i = 0; i < sizeof a; ++i) ((unsigned char *)p)[i] = a[i] ^ b[i]; }' % (f, n, n, e, m, n, e, m, n))
                        subs.append('{"%s", "%s", 0, 4, %s, %d, false}' % (what, m, f, w))
                else: subs.append('{"%s", "%s", (long)((char *)&%s->%s - (char *)op_%s), %s, NULL, 0, false}' % (what, o, e, o, n, 'sizeof(%s)' % T[o][0]))
            subs.append('{"%s", "own_%s", (long)((char *)&%s->own_%s - (char *)op_%s), 1, NULL, 0, false}' % (what, c, e, c, n))
        g.add(n, n, [], cand=cands, subs=subs)
    out.append('#endif'); return '\n'.join(out) + '\n'

def templates(g, H):
    out = ['/* PURPOSE: (templates) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    def tt(cxx, t, ty, sub):
        return g.add(cxx, '', [g.exp('t', ty=ty, size='sizeof(%s)' % t, off=off(cxx, 't'), sub=sub), g.exp('arr', ty=ty, size='sizeof(%s)' % t, off=off(cxx, 'arr'), dims=(2,), sub=sub), g.exp('p', ty=ty, size='sizeof(%s)' % t, off=off(cxx, 'p'), dims=(0,), sub=sub)], table=False)
    E = []; L = []; k = 0
    for t, e in BUILTIN + [(x, 'STRUCTURED') for x in STRUCTS] + [(x, 'ENUMERATED') for x in ENUMS] + [('std::string', 'STRING')]:
        sub = g.subs.get(t, g.subs.get('E' + t, -1)) if e in ('STRUCTURED', 'ENUMERATED') else -1
        c = 'GT<%s>' % t; a = tt(c, t, 'TRICK_' + e, sub)
        g.tab.append('} typedef GT<%s> GTT%d; typedef GV<%s, 5> GVT%d; typedef GE<%s> GET%d; typedef GE<%s>::In GEI%d; namespace c09 {' % (t, k, t, k, t, k, t, k))
        v = g.add('GVT%d' % k, '', [g.exp('c', ty='TRICK_CHARACTER', size='1', off='0'), g.exp('v', ty='TRICK_' + e, size='sizeof(%s)' % t, off=off('GVT%d' % k, 'v'), dims=(5,), sub=sub)], table=False)
        if t.startswith('std::'):                     # the embedded class of a template of a std class: see SOLO
            for d, nm, sz, dims, sb in (('GT<%s> a%d;' % (t, k), 'a%d', 'GTT%d' % k, (), a), ('GV<%s, 5> v%d[3];' % (t, k), 'v%d', 'GVT%d' % k, (3,), v)):
                L.append(d); nm = nm % k; E.append(g.exp(nm, ty='TRICK_STRUCTURED', size='sizeof(%s)' % sz, off=off('TU', nm), dims=dims, sub=sb))
            k += 1; continue
        i = g.add('GEI%d' % k, '', [g.exp('a', ty='TRICK_' + e, size='sizeof(%s)' % t, off='0', sub=sub), g.exp('b', ty='TRICK_SHORT', size='2', off=off('GEI%d' % k, 'b'))], table=False)
        n = g.add('GET%d' % k, '', [g.exp('e', ty='TRICK_STRUCTURED', size='sizeof(GEI%d)' % k, off='0', sub=i)], table=False)
        tg = g.add('GT<GTT%d>' % k, '', [g.exp('t', ty='TRICK_STRUCTURED', size='sizeof(GTT%d)' % k, off='0', sub=a), g.exp('arr', ty='TRICK_STRUCTURED', size='sizeof(GTT%d)' % k, off=off('GT<GTT%d>' % k, 'arr'), dims=(2,), sub=a), g.exp('p', ty='TRICK_STRUCTURED', size='sizeof(GTT%d)' % k, off=off('GT<GTT%d>' % k, 'p'), dims=(0,), sub=a)], table=False)
        for d, nm, sz, dims, sb in (('GT<%s> a%d;' % (t, k), 'a%d', 'GTT%d' % k, (), a), ('GV<%s, 5> v%d[3];' % (t, k), 'v%d', 'GVT%d' % k, (3,), v), ('GE<%s> n%d;' % (t, k), 'n%d', 'GET%d' % k, (), n), ('GE<%s>::In *i%d;' % (t, k), 'i%d', 'GEI%d' % k, (0,), i),
                                ('GT<GT<%s> > g%d;' % (t, k), 'g%d', 'GT<GTT%d>' % k, (), tg), ('GT<%s> *b%d[2];' % (t, k), 'b%d', 'GTT%d' % k, (2, 0), a)):
            L.append(d); nm = nm % k; E.append(g.exp(nm, ty='TRICK_STRUCTURED', size='sizeof(%s)' % sz, off=off('TU', nm), dims=dims, sub=sb))
        k += 1
    out.append('struct TU {\n  %s\n};' % '\n  '.join(L)); g.add('TU', 'TU', E)
    for j, (t, e) in enumerate(BUILTIN[::3]):
        out.append('struct TD%d : public GT<%s> { char q; int t2; };\nnamespace nst { struct TN%d { GV<%s, 2> f; GT<%s> h; }; }' % (j, t, j, t, t))
        c = 'TD%d' % j
        g.add(c, c, [g.exp('t', ty='TRICK_' + e, size='sizeof(%s)' % t, off=off(c, 't')), g.exp('arr', ty='TRICK_' + e, size='sizeof(%s)' % t, off=off(c, 'arr'), dims=(2,)), g.exp('p', ty='TRICK_' + e, size='sizeof(%s)' % t, off=off(c, 'p'), dims=(0,)), g.exp('q', ty='TRICK_CHARACTER', size='1', off=off(c, 'q')), g.exp('t2', ty='TRICK_INTEGER', size='4', off=off(c, 't2'))])
        g.tab.append('} typedef GV<%s, 2> GW%d; typedef GT<%s> GX%d; namespace c09 {' % (t, j, t, j))
        f = g.add('GW%d' % j, '', [g.exp('c', ty='TRICK_CHARACTER', size='1', off='0'), g.exp('v', ty='TRICK_' + e, size='sizeof(%s)' % t, off=off('GW%d' % j, 'v'), dims=(2,))], table=False)
        h = tt('GX%d' % j, t, 'TRICK_' + e, -1)
        c = 'nst::TN%d' % j
        g.add(c, 'nst__TN%d' % j, [g.exp('f', ty='TRICK_STRUCTURED', size='sizeof(GW%d)' % j, off='0', sub=f), g.exp('h', ty='TRICK_STRUCTURED', size='sizeof(GX%d)' % j, off=off(c, 'h'), sub=h)])
    out.append('#endif'); return '\n'.join(out) + '\n'

def enums(g, H):
    out = ['/* PURPOSE: (enumerations) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"']
    U = {None: (-2**31, 2**31 - 1), 'signed char': (-128, 127), 'char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1),
         'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'bool': (0, 1)}
    k = 0
    for u, (lo, hi) in U.items():
        sets = [[('A', None), ('B', None)]]
        if u != 'bool': sets += [[('A', 5), ('B', None), ('C', 5)], [('LO', lo), ('HI', hi)], [('M', hi - 1), ('N', None)], [('P', min(hi, 2**31 - 1)), ('Q', min(hi, 2**31)), ('R', min(hi, 2**32 - 1)), ('S', min(hi, 2**32)), ('T', max(lo, -2**31)), ('U', max(lo, -2**31 - 1))]]
        if u is None: sets += [[('A', -1), ('B', 1)], [('A', 2**31)], [('A', 2**40), ('B', -1)], [('A', 2**63)], []]
        for vals in sets:
            for scoped in ('', 'class ', 'struct '):
                for place in ('', 'ns', 'emb', 'td'):
                    if place == 'td' and scoped: continue
                    if scoped and u is None and any(v is not None and not -2**31 <= v < 2**31 for _, v in vals): continue
                    if scoped == 'struct ' and place: continue
                    N = 'E%d' % k; k += 1; names = []; v = -1; ent = []
                    for n, x in vals:
                        v = v + 1 if x is None else x; ent.append((n + str(k), v)); 
                    body = ', '.join('%s%s' % (n, '' if x is None else ' = ' + ('(-9223372036854775807ll-1)' if x == -2**63 else '%dull' % x if x >= 2**63 else '%dll' % x)) for (n, _), (_, x) in zip(ent, vals))
                    if u and u != 'bool' and scoped == '' : pass
                    und = ' : ' + u if u else ''
                    d = 'enum %s%s%s { %s };' % (scoped, N, und, body)
                    cx, sy, pre = N, N, ''
                    if place == 'ns': d = 'namespace nse { %s }' % d; cx, sy, pre = 'nse::' + N, 'nse__' + N, 'nse::'
                    if place == 'emb': d = 'class O%s { public: %s int i; };' % (N, d); cx, sy, pre = 'O%s::%s' % (N, N), 'O%s__%s' % (N, N), 'O%s::' % N
                    if place == 'td': d = 'typedef enum%s { %s } %s;' % (und, body, N)
                    out.append(d)
                    g.tab.append('static const EnE n%d[] = {%s};' % (k, ', '.join('{"%s", (long long)(std::underlying_type<%s>::type)%s, %d}' % (pre + n, cx, cx + '::' + n, 1) for n, x in ent) or '{"", 0, 0}'))
                    g.tab.append('} extern "C" { extern ENUM_ATTR enum%s[]; size_t io_src_sizeof_%s(void); } namespace c09 {' % (sy, sy))
                    g.enums.append('{"%s", enum%s, n%d, %d, std::is_unsigned<std::underlying_type<%s>::type>::value || std::is_same<bool, std::underlying_type<%s>::type>::value, io_src_sizeof_%s, (long)sizeof(%s)}' % (cx, sy, k, len(ent), cx, cx, sy, cx))
    out.append('#endif'); return '\n'.join(out) + '\n'

def compat(g, H):
    """a header which uses TRICK_ICG: only what the generated code may reach is described, by offsetof at run time"""
    out = ['/* PURPOSE: (compat) */', '#ifndef C09_%s_HH' % H, '#define C09_%s_HH' % H, '#include "defs.hh"', '#ifdef TRICK_ICG', '#endif']
    for fr in (0, 1):
        for acc in ('public', 'protected', 'private'):
            for t, e in BUILTIN + [('GStruct', 'STRUCTURED'), ('GEnum', 'ENUMERATED')]:
                C = 'K%s%d%s' % (acc[:3], fr, re.sub(r'\W', '_', t)); vis = 1 if fr or acc == 'public' else 0
                sub = g.subs.get(t, g.subs.get('E' + t, -1)) if e in ('STRUCTURED', 'ENUMERATED') else -1
                out.append('class %s { %s%s: char pad; %s v; %s a[2]; %s *p; int b1 : 3; unsigned int b2 : 9; static %s s; public: short last; };' % (C, 'friend class InputProcessor; friend void init_attr%s(); ' % C if fr else '', acc, t, t, t, t))
                g.tab.append('} %s %s::s; namespace c09 {' % (t, C))
                ty = 'TRICK_' + e; z = 'sizeof(%s)' % t
                g.add(C, C, [g.exp('v', vis, ty=ty, size=z, off=off(C, 'v'), sub=sub), g.exp('a', vis, ty=ty, size=z, off=off(C, 'a'), dims=(2,), sub=sub), g.exp('p', vis, ty=ty, size=z, off=off(C, 'p'), dims=(0,), sub=sub), g.exp('pad', vis, ty='TRICK_CHARACTER', size='1', off='0'),
                      g.exp('s', vis, ty=ty, size=z, off='(long)&%s::s' % C, stat=1, sub=sub), g.exp('last', ty='TRICK_SHORT', size='2', off=off(C, 'last'))]
                      + ([setb(g, C, 'b1', 'int', 3, 'TRICK_BITFIELD'), setb(g, C, 'b2', 'unsigned int', 9, 'TRICK_UNSIGNED_BITFIELD')] if vis else [g.exp('b1', 0), g.exp('b2', 0)]))
    out.append('#endif'); return '\n'.join(out) + '\n'

# headers the generated code of which is only compiled, each by itself
SOLO = {
 'embedded-in-template-of-std-class': 'template <class T> struct SGE { struct In { T a; short b; }; In e; };\nstruct SUE { SGE<std::string> m; };',
 'embedded-in-template-of-class': 'template <class T> struct SGF { struct In { T a; short b; }; In e; };\nstruct SUF { SGF<GStruct> m; SGF<ns9::NStruct> n; };',
 'abstract': 'class SAB { public: int i; virtual int f() = 0; virtual ~SAB() {} };\nclass SAC : public SAB { public: int j; int f() { return 0; } };',
 'no-default-constructor': 'class SND { public: SND(int); int i; };\nclass SNE { SNE(); public: int i; };\nclass SNF { public: SNF() = delete; int i; };\nclass SNG { ~SNG(); public: int i; };\nstruct SNH { SNH(const SNH &) = delete; SNH &operator=(const SNH &) = delete; int i; SNH() {} };',
 'private-embedded': 'class SPE { struct P { int i; }; enum PE { A }; P p; PE e; P *pp; public: int i; protected: struct Q { int i; }; Q q; };',
 'wide-enumerators': 'enum SWA { SWA_A = 1ll << 40 };\nenum SWB : unsigned int { SWB_A = 0xffffffffu };\nenum class SWC : unsigned long long { A = ~0ull };\nenum SWD : long long { SWD_A = -(1ll << 40) };',
 'embedded-enum-in-template': 'template <class T> struct SEE { enum M { SA, SB }; M m; T t; };\nstruct SEU { SEE<int> a; SEE<double> b; };',
 'containers': 'struct SCO { std::vector<GStruct> a; std::map<std::string, GStruct> b; std::vector<std::vector<double> > c; std::set<int> d; std::pair<int, std::string> e; std::map<int, std::vector<std::string> > f; std::vector<GStruct *> g; std::vector<bool> h; std::array<bool, 3> i; std::deque<std::pair<int, int> > j; };',
 'const-members': 'struct SCM { const int a = 1; const double b[2] = {1, 2}; static const double c; static const int d = 4; int *const p = 0; const std::string s; const std::vector<int> v; };',
 'anonymous': 'struct SAN { union { int a; struct { int b; double c; }; }; struct { int x; } s; enum { E1, E2 } e; int last; };',
 'self-reference': 'struct SSR { SSR *next; SSR **all[2]; struct SSS *other; int i; };\nstruct SSS { SSR *back; SSR in; };',
 'virtual-diamond': 'struct SV0 { int i; virtual ~SV0() {} };\nstruct SV1 : virtual SV0 { int a; };\nstruct SV2 : virtual SV0 { int b; };\nstruct SV3 : SV1, SV2 { int i; };',
 'namespaces': 'namespace sn { struct A { int i; }; enum E { X }; namespace { struct H { int i; }; } inline namespace v1 { struct B { A a; }; } }\nstruct SNU { sn::A a; sn::E e; sn::B b; };',
}
def solo(d):
    os.makedirs(d, exist_ok=True)
    import shutil
    shutil.copy(os.path.dirname(os.path.abspath(__file__)) + '/defs.hh', d + '/defs.hh')
    for i, (n, b) in enumerate(SOLO.items()):
        open(d + '/solo%d.hh' % i, 'w').write('/* PURPOSE: (%s) */\n#ifndef SOLO%d_HH\n#define SOLO%d_HH\n#include "defs.hh"\n%s\n#endif\n' % (n, i, i, b))
    open(d + '/S_source.hh', 'w').write(''.join('#include "solo%d.hh"\n' % i for i in range(len(SOLO))))
    return ['solo%d' % i for i in range(len(SOLO))]

def generate(d, thorough):
    """writes the headers and the tables below d; returns the header names"""
    os.makedirs(d, exist_ok=True)
    import shutil
    here = os.path.dirname(os.path.abspath(__file__))
    shutil.copy(here + '/defs.hh', d + '/defs.hh')
    tabs = []; hs = []
    def part(name, fn, base=None):
        g = Gen(thorough)
        # classes and enumerations of defs.hh come first in every part: members point at them
        for c, m, E in (('GStruct', 'GStruct', [('i', 'INTEGER', '4', ()), ('d', 'DOUBLE', '8', (2,))]), ('TStruct', 'TStruct', [('s', 'SHORT', '2', ())]), ('GUnion', 'GUnion', [('i', 'INTEGER', '4', ()), ('d', 'DOUBLE', '8', ())]),
                        ('GOuter::Emb', 'GOuter__Emb', [('c', 'CHARACTER', '1', ()), ('l', 'LONG', '8', ())]), ('ns9::NStruct', 'ns9__NStruct', [('f', 'FLOAT', '4', ())]), ('ns9::in9::NNStruct', 'ns9__in9__NNStruct', [('c', 'CHARACTER', '1', (3,))])):
            g.subs[c] = g.add(c, m, [g.exp(n, ty='TRICK_' + ty, size=z, off=off(c, n), dims=dd) for n, ty, z, dd in E])
        g.tab.append('} extern "C" { %s } namespace c09 {' % ' '.join('extern ENUM_ATTR enum%s[];' % e.replace('::', '__') for e in ENUMS))
        for e in ENUMS:
            g.subs['E' + e] = '-2 - (int)(sizeof("%s"))' % e if False else str(-2 - ENUMS.index(e))
        open(d + '/' + name + '.hh', 'w').write(fn(g)); hs.append(name)
        ns = name
        open(d + '/t_' + name + '.cc', 'w').write('#include "%s.hh"\n#include <new>\n#include <cstddef>\n#include <type_traits>\n#include "c09.hh"\nnamespace c09 {\n%s\nextern const Cls cl_%s[]; const Cls cl_%s[] = {\n%s};\nextern const int nc_%s; const int nc_%s = %d;\nextern const En en_%s[]; const En en_%s[] = {\n%s};\nextern const int ne_%s; const int ne_%s = %d;\n}\n' % (
            name, '\n'.join(g.tab), name, name, ',\n'.join(g.cls), name, name, len(g.cls), name, name, ',\n'.join(g.enums) or '{"", NULL, NULL, 0, 0, NULL, 0}', name, name, len(g.enums)))
        tabs.append(name)
    part('mem', lambda g: members(g, 'mem', thorough))
    part('bits', lambda g: bits(g, 'bits'))
    for p in range(3): part('com%d' % p, lambda g: comments(g, 'com%d' % p, p, 3))
    part('inh', lambda g: inherit(g, 'I'))
    part('tpl', lambda g: templates(g, 'tpl'))
    part('enu', lambda g: enums(g, 'enu'))
    part('cmp', lambda g: compat(g, 'cmp'))
    open(d + '/S_source.hh', 'w').write(''.join('#include "%s.hh"\n' % h for h in ['defs'] + hs))
    open(d + '/parts.cc', 'w').write('#include "c09.hh"\nstruct Part { const char *name; const c09::Cls *c; int nc; const c09::En *e; int ne; };\nnamespace c09 {\n' + ''.join('extern const Cls cl_%s[]; extern const int nc_%s; extern const En en_%s[]; extern const int ne_%s;\n' % (h, h, h, h) for h in hs)
        + '}\nextern "C" { %s }\nENUM_ATTR *sub_enums[] = {%s};\nconst char *sub_enum_names[] = {%s};\nPart parts[] = {%s};\nint n_parts = %d;\n' % (' '.join('extern ENUM_ATTR enum%s[];' % e.replace('::', '__') for e in ENUMS), ', '.join('enum' + e.replace('::', '__') for e in ENUMS), ', '.join('"%s"' % e for e in ENUMS),
        ', '.join('{"%s", c09::cl_%s, c09::nc_%s, c09::en_%s, c09::ne_%s}' % (h, h, h, h, h) for h in hs), len(hs)))
    return hs
