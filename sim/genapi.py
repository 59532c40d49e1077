"""Generate the dispatch table of the library simulator from the preprocessed public header."""
import re, subprocess, sys

TYPES = {}
for b in (8, 16, 32, 64):
    TYPES['takum%d' % b] = ('K_LOG%d' % b)
    TYPES['takum_linear%d' % b] = ('K_LIN%d' % b)
TYPES.update({'int64_t': 'K_EXP', 'float': 'K_F32', 'double': 'K_F64', 'long double': 'K_F80', 'uint8_t': 'K_U8'})


def prototypes(repo, cppflags):
    txt = subprocess.run(['gcc', '-E', '-P'] + cppflags + [repo + '/takum.h'], check=True, capture_output=True, text=True).stdout
    txt = re.sub(r'\s+', ' ', txt)
    out = []
    for m in re.finditer(r'(?<=[;}])\s*(?:extern )?((?:const )?[a-z_0-9 ]+?) (takum[a-z_0-9]*) ?\(([^()]*)\)(?: __attribute__ ?\(\(.*?\)\))? ?;', ';' + txt):
        ret, name, args = m.group(1).strip(), m.group(2), m.group(3)
        if ret not in TYPES:
            continue
        al, ok = [], True
        for a in args.split(','):
            a = a.strip()
            t = None
            for c in sorted(TYPES, key=len, reverse=True):
                if a == c or a.startswith(c + ' '):
                    t = c
                    break
            if t is None:
                ok = False
                break
            al.append(t)
        if ok and len(al) <= 3:
            out.append((name, ret, al))
    return sorted(set((n, r, tuple(a)) for n, r, a in out))


def generate(repo, cppflags, prefixes):
    protos = prototypes(repo, cppflags)
    o = ['#include <stdint.h>', '#include "libsim.h"', '#include "%s/takum.h"' % repo]
    for px in prefixes:
        for n, r, a in protos:
            if px:
                o.append('extern %s %s%s(%s);' % (r, px, n, ', '.join(a)))
            args = []
            for i, t in enumerate(a):
                args.append('a[%d].%s' % (i, {'K_F32': 'f32', 'K_F64': 'f64', 'K_F80': 'f80'}.get(TYPES[t], 'i')) if TYPES[t].startswith('K_F')
                            else '(%s)a[%d].i' % (t, i))
            call = '%s%s(%s)' % (px, n, ', '.join(args))
            f = {'K_F32': 'f32', 'K_F64': 'f64', 'K_F80': 'f80'}.get(TYPES[r], 'i')
            o.append('static void th_%s%s(const val *a, val *r) { r->%s = %s; }' % (px, n, f, call))
    o.append('const apifn api[] = {')
    for n, r, a in protos:
        ths = ', '.join('th_%s%s' % (px, n) for px in prefixes)
        o.append('\t{ "%s", %d, %s, { %s }, { %s } },' % (n, len(a), TYPES[r], ', '.join(TYPES[t] for t in a), ths))
    o.append('};')
    o.append('const int napi = %d;' % len(protos))
    return '\n'.join(o) + '\n', protos


if __name__ == '__main__':
    s, p = generate(sys.argv[1], ['-D_ISOC99_SOURCE'], ['', 'vz_', 'vp_'])
    print(len(p), file=sys.stderr)
    print(s)
