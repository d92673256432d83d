#!/usr/bin/env python3
"""One-off generator of harness/src/tables.rs: reads the coefficient tables of the
equations of state out of a *pinned* source tree (argument 1: a checkout of the base commit)
and prints frozen literal tables. Never run by a check: the reference keeps the values
as they were at the pinned commit."""
import re, sys, ast, math
root = sys.argv[1]
def num(s): return s
def consts(src):
    env = {}
    for m in re.finditer(r'^\s*(?:pub\(crate\) )?const (\w+): [^=]+?= (.*?);', src, re.S | re.M):
        name, body = m.group(1), m.group(2)
        body = re.sub(r'//.*', '', body)
        body = re.sub(r'(?<=[\d.])_+(?=\D|$)', '', re.sub(r'(?<=\d)_(?=\d)', '', body))
        try: env[name] = eval(body, {**env, 'math': math})
        except Exception as e: print('skip', name, e, file=sys.stderr)
    return env
def run_setup(src, names, shapes, env, stop):
    st = src[src.index('fn setup(&mut self) {'):]
    st = st[:st.index(stop)]
    py = ['def f(E,env):']
    ind = 1
    for line in st.splitlines()[1:]:
        l = re.sub(r'//.*', '', line).strip()
        if not l: continue
        m = re.match(r'for (\w+) in (\d+)\.\.=(\w+) \{', l)
        if m:
            py.append('  ' * ind + f"for {m[1]} in range({m[2]}, ({m[3] if m[3].isdigit() else 'env[%r]' % m[3]})+1):"); ind += 1; continue
        m = re.match(r'if i != 3 \{', l)
        if m: py.append('  ' * ind + 'if i != 3:'); ind += 1; continue
        if l == '}': ind = max(1, ind - 1); continue
        m = re.match(r'(?:self\.)?(\w+)((?:\[\w+\])+) = ([-\d._eE]+);', l)
        if m:
            v = re.sub(r'(?<=\d)_(?=\d)', '', m[3])
            py.append('  ' * ind + f"E['{m[1]}']{m[2]} = {v}"); continue
        py.append('  ' * ind + 'pass')
    E = {n: [[0.0] * shapes[n][1] for _ in range(shapes[n][0])] for n in names}
    if py[-1].rstrip().endswith(':'): py.pop()
    ns = {}
    exec('\n'.join(py), ns)
    ns['f'](E, env)
    return E
def emit(name, v, ty='f64'):
    def dims(v): return [len(v)] + dims(v[0]) if isinstance(v, (list, tuple)) else []
    t = ty
    for d in reversed(dims(v)): t = f'[{t}; {d}]'
    def s(v):
        if isinstance(v, (list, tuple)): return '[' + ', '.join(s(x) for x in v) + ']'
        return repr(float(v)) if ty == 'f64' else str(int(v))
    body = s(v)
    if dims(v) and len(dims(v)) == 2: body = '[\n    ' + ',\n    '.join(s(x) for x in v) + ',\n]'
    print(f'pub const {name}: {t} = {body};\n')
print('// Generated by tools/extract_tables.py from the pinned commit b82f0cd. Frozen: not derived from the code under test.')
print('#![allow(clippy::all)]\n#![cfg_attr(rustfmt, rustfmt_skip)]\n')
d = open(root + '/src/detail.rs').read(); C = consts(d)
for n in ['MMI','AN','UN','EI','KI','GI','QI','FI','SI','WI','EIJ','UIJ','KIJ','GIJ','TH0I']: emit('D_' + n, C[n])
for n in ['BN','KN','FN','GN','QN','SN','WN']: emit('D_' + n if n not in('BN','KN') else 'D_' + n, C[n], 'u32') if n in('BN','KN') else emit('D_FLAG_' + n, C[n], 'u32')
E = run_setup(d, ['n0i'], {'n0i': (21, 7)}, {'MAXFLDS': 21}, 'let mut bsnij'); emit('D_N0I', E['n0i'])
g = open(root + '/src/gerg2008.rs').read(); C = consts(g)
for n in ['MMI_GERG','DC','TC','NOIK','FIJ','TH0I','GVIJ','BTIJ','GTIJ']: emit('G_' + n.replace('_GERG',''), C[n])
for n in ['KPOL','KEXP','KPOLIJ','KEXPIJ','MNUMB']: emit('G_' + n, C[n], 'u32')
# raw (literature) mixing parameters get a RAW_ prefix: GVIJ etc. above are the reduced forms
names = {'coik':(22,25),'doik':(22,25),'toik':(22,25),'dijk':(13,13),'tijk':(11,13),'cijk':(11,13),'eijk':(11,13),'gijk':(11,13),'nijk':(11,13),'bijk':(11,13),'n0i':(22,8),'bvij':(22,22),'gvij':(22,22),'btij':(22,22),'gtij':(22,22)}
E = run_setup(g, list(names), names, C, 'self.bvij[i][i] = 1.0')
for n in names: emit('G_' + ('RAW_' if n in ('bvij','gvij','btij','gtij') else '') + n.upper(), E[n], 'u32' if n in ('coik','doik','dijk') else 'f64')
