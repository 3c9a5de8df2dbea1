#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in defs*.py: each is a set of textual edits to
/repo's HEAD, a demonstration, and what the change breaks. No check uses this file or its output.

gen.py [ID...]           write them
gen.py --verify [ID...]  also confirm, in a scratch copy: applies, builds, the stable test passes,
                         the demonstration passes without and fails with the change; then run the
                         property's quick check against the changed copy and print what it said
"""
import glob, json, os, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
SCR = os.environ.get('SEED_SCRATCH', '/tmp/seedrepo')

def defs():
    out = {}
    for p in sorted(glob.glob(HERE + '/defs*.py')):
        spec = importlib.util.spec_from_file_location('d', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for d in m.SEEDS:
            assert d['id'] not in out, d['id']
            out[d['id']] = d
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fresh():
    if os.path.isdir(SCR):
        shutil.rmtree(SCR)
    subprocess.check_call(['git', 'clone', '-q', '/repo', SCR])

def write(d):
    fresh()
    for f, old, new in d['edits']:
        p = f'{SCR}/goost/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (d['id'], f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', SCR, 'diff'], text=True)
    o = f"{OUT}/{d['id']}"
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    t = open(HERE + '/demo.sh').read()
    t = t.replace('@FLAGS@', d.get('flags', '')).replace('@ENV@ ', d.get('env', '') + ' ' if d.get('env') else '')
    open(o + '/demo.sh', 'w').write(t)
    os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.cpp', 'w').write('#include "common.h"\n' + d.get('head', '') + '\nint main()\n{\n' + d['demo'].rstrip() + '\n\treturn 0;\n}\n')
    shutil.copy(HERE + '/common.h', o + '/common.h')
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
              open(o + '/meta.json', 'w'), indent=1)
    open(o + '/meta.json', 'a').write('\n')

def verify(d):
    i = d['id']
    o = f'{OUT}/{i}'
    sh(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
    r0 = sh(['bash', o + '/demo.sh'], cwd=SCR)
    if r0.returncode != 0:
        return f'{i}: BAD demo fails on the unchanged tree: {r0.stdout[-600:]}'
    if sh(['git', '-C', SCR, 'apply', o + '/patch.diff']).returncode:
        return f'{i}: BAD does not apply'
    W = '-std=c++17 -O2 -g -include array -Wall -Wextra -Weffc++ -Wpedantic -Werror -Wno-non-virtual-dtor -I.'
    b = sh(f'mkdir -p _b && ls goost/*/*.cpp | xargs -P 8 -I{{}} sh -c \'g++ {W} -c {{}} -o _b/$(echo {{}} | tr / _).o\' && g++ -std=c++17 -include array -I. test_package/*.cpp _b/*.o -o _b/t', shell=True, cwd=SCR)
    if b.returncode:
        return f'{i}: BAD build {b.stdout[-1500:]}'
    if sh([SCR + '/_b/t']).returncode:
        return f'{i}: BAD stable test fails'
    r1 = sh(['bash', o + '/demo.sh'], cwd=SCR)
    if r1.returncode in (0, 3):
        return f'{i}: BAD demo exits {r1.returncode} with the change {r1.stdout[-300:]}'
    res = []
    for pid in [d['property']] + d.get('also', []):
        e = dict(os.environ, GOOST_REPO=SCR, VERIF_TIER='quick', VERIF_SEED='1')
        c = sh(['python3', '/verif/run.py', pid, '--tier', 'quick'], env=e, cwd='/verif')
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        res.append(f"{pid}:{'CAUGHT' if c.returncode == 1 and v else 'missed rc=%d' % c.returncode}")
        if c.returncode not in (0, 1):
            res.append(c.stdout[-500:])
    return f'{i}: ok demo={r1.returncode} ' + ' '.join(res)

if __name__ == '__main__':
    a = sys.argv[1:]
    ver = '--verify' in a
    a = [x for x in a if x != '--verify']
    D = defs()
    for i in a or list(D):
        write(D[i])
        if ver:
            print(verify(D[i]), flush=True)
    if os.path.isdir(SCR):
        shutil.rmtree(SCR)
