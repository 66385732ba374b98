"""Type-level witnesses: programs written from the documentation that must
type-check (or must not) against the headers of the current tree. Nothing that
is compiled is run."""
import re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from report import *
WIT = os.path.join(VERIF, 'witness')
INC = ['-I' + WIT, '-I' + REPO, '-I/usr/include/eigen3']

def run1(cmd):
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return None, 'timeout'
    return p.returncode, p.stderr + p.stdout

def first_error(txt):
    """file:line and text of the first error, and the construct of the library it leads to"""
    loc = msg = None
    for l in txt.splitlines():
        m = re.match(r'(/[^:]*):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            loc, msg = '%s:%s' % (rel(m.group(1)), m.group(2)), m.group(3); break
    return loc, msg

class Compiler:
    def __init__(self, td): self.td = td
    def accepts(self, src, std='c++11', defs=(), obj=None):
        """(True/False/None, where, message): a program is rejected when both
        compilers reject it; when only one does the question stays open."""
        def cmd(cxx): return [cxx, '-std=' + std, '-w', '-ferror-limit=20' if 'clang' in cxx else '-fmax-errors=20'] + list(defs) + INC + (['-c', '-O0', '-g1', '-o', obj] if obj and 'clang' in cxx else ['-fsyntax-only']) + [src]
        rc, out = run1(cmd('clang++-18'))
        if rc == 0: return True, None, None
        if rc is None or rc < 0 or 'error:' not in out: return None, None, out[-400:]
        loc, msg = first_error(out)
        rc2, out2 = run1(cmd('g++'))
        if rc2 is None or rc2 < 0: return None, loc, msg
        if rc2 == 0: return None, loc, 'accepted by g++ only: %s' % msg
        return False, loc, msg

def symbols(obj):
    """(defined, undefined, strong) symbols of an object file"""
    p = subprocess.run(['nm', '-l', obj], capture_output=True, text=True)
    if p.returncode: raise Broken('nm: ' + p.stderr[:200])
    d, u, strong = set(), {}, {}
    for l in p.stdout.splitlines():
        m = re.match(r'(?:[0-9a-f]+)?\s+([A-Za-z]) (\S+)(?:\t(.*))?$', l)
        if not m: continue
        t, n, w = m.groups()
        if t in 'Uw' : u[n] = w or ''
        else:
            d.add(n)
            if t in 'TDBRGS': strong[n] = w or ''
    return d, u, strong

def demangle(n):
    return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
