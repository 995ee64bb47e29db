#!/usr/bin/env python3
"""newseed.py FILE...   each FILE (python) defines ID, PROP, EDITS [(file, old, new)], MAIN (body of main), NEEDS, BREAKS;
writes seeded/ID.  MAIN is wrapped with use lines for the crate."""
import os, shutil, subprocess, sys, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#![allow(unused_imports, dead_code)]
use babs::{UBig, BinaryDigit, DecimalDigit};
use num_traits::{One, Zero, Pow};

fn b8(v: &[u8]) -> UBig<BinaryDigit<u8>> { UBig::new(v.iter().map(|&d| BinaryDigit(d)).collect()) }
fn d8(v: &[u8]) -> UBig<DecimalDigit<u8>> { UBig::new(v.iter().map(|&d| DecimalDigit(d)).collect()) }
fn b32(v: &[u32]) -> UBig<BinaryDigit<u32>> { UBig::new(v.iter().map(|&d| BinaryDigit(d)).collect()) }

'''
DEMO = open(os.path.join(HERE, 'tools', 'demo.sh')).read()


def main(path):
    seeds = {}
    exec(open(path).read(), seeds)
    for s in seeds['SEEDS']:
        w = tempfile.mkdtemp(prefix='ns-')
        try:
            r = w + '/repo'
            subprocess.check_call(['git', 'clone', '-q', '/repo', r])
            for f, old, new in s['edits']:
                p = r + '/' + f
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            d = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        finally:
            shutil.rmtree(w)
        o = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d)
        open(o + '/main.rs', 'w').write(PRE + s.get('pre', '') + 'fn main()\n{\n' + s['main'].strip('\n') + '\n}\n')
        open(o + '/demo.sh', 'w').write(DEMO)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        print(s['id'])


for x in sys.argv[1:]:
    main(x)
