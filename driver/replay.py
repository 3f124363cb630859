#!/usr/bin/env python3
"""replay.py <property id> <file.tape>: rebuilds the program the tape belongs to and runs the one case"""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from core import *
import programs
from programs import *

pid, path = sys.argv[1:3]
text = open(path).read()
name = re.search(r'^# program: (\S+)', text, re.M).group(1)
conf = re.search(r'^# configuration: (.*)', text, re.M).group(1).split()
fams = {'C01': ['sha2'], 'C02': ['sha512t'], 'C03': ['sha3'], 'C04': ['shake'], 'C05': ['xxh']}.get(pid, FAMS)
dense = pid in ('C02', 'C04')
kinds = ['-DCTH_KINDS=1', '-DCTH_ONESHOT=1'] if pid in ('C10', 'C19', 'C20') else ['-DCTH_KINDS=1'] if pid == 'C08' else ['-DCTH_ONESHOT=1'] if pid == 'C21' else []
prog = {'hash': lambda: hash_prog(fams, kinds, ['-DCOUNT_ALLOCATIONS'] if pid == 'C09' else [], dense, plain=pid != 'C10'), 'big': lambda: big_prog(fams), 'encode': lambda: ENCODE, 'chunks': lambda: CHUNKS, 'value': lambda: VALUE,
        'text': lambda: TEXT, 'names': lambda: NAMES, 'threads': lambda: Program('threads', THREADS.units + algs(FAMS), THREADS.libs)}[name]()
flags = [x for x in conf[1:] if not x.startswith(('-I', '-std=', '-O')) and x not in ('-w', '-DCTH_SINGLE')]
cfg = Config('replay', conf[0], conf[1][5:], [x for x in conf if x.startswith('-O')][0], flags, '-DCTH_SINGLE' in conf)
c = Ctx(pid, 'quick', 1)
b = c.build([prog], cfg, broken_is_violation=False)
r = subprocess.run([b[name], '--replay', os.path.abspath(path)])
sys.exit(r.returncode)
