#!/usr/bin/env python3
"""dev.py [-m module]... [verus args]: generate to /tmp/w/gen.rs and run Verus on it"""
import sys, os, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
c = config.load()
text, ranges, info = c.generate()
os.makedirs('/tmp/w', exist_ok=True)
open('/tmp/w/gen.rs', 'w').write(text)
for k, v in info['lost'].items():
    print('LOST', k, v)
for k, v in info['inlined'].items():
    print('inlined', k, v)
args = []
for a in sys.argv[1:]:
    args.append(a)
t = time.time()
r = subprocess.run(['verus', '/tmp/w/gen.rs', '--crate-type', 'lib'] + args)
print('%.1fs' % (time.time() - t))
