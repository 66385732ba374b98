"""Loads the resolved (type-checked, instantiated) program of the repository."""
import glob, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FBSTAB_REPO', '/repo')

class Broken(Exception):
    """The analysis cannot give an answer (error exit, never a verdict)."""

def sources():
    out = []
    for d in ('fbstab', 'tools'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', '_build', 'examples'))
            for f in sorted(files):
                if f.endswith(('.cc', '.cpp', '.cxx')): out.append(os.path.join(root, f))
    return out

def headers():
    out = []
    for d in ('fbstab', 'tools'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', '_build', 'examples'))
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.hh', '.inl', '.ipp')): out.append(os.path.join(root, f))
    return out

class Program:
    def __init__(self):
        self.functions = {}      # key -> function
        self.records = {}        # name -> record
        self.globals = []
        self.enums = {}          # name -> {enumerator: value}
        self.units = []
        self.byname = {}
        self.load()

    def load(self):
        subprocess.check_call(['bash', os.path.join(VERIF, 'setup.sh')], stdout=sys.stderr)
        tus = sources() + [os.path.join(VERIF, 'tool', 'driver.cc')]
        res = subprocess.run(['clang-18', '-print-resource-dir'], capture_output=True, text=True, check=True).stdout.strip()
        with tempfile.TemporaryDirectory() as td:
            def one(k):
                out = os.path.join(td, '%d.json' % k)
                for std in ('c++11', 'c++14', 'c++17'):     # g++ lets later features pass with a warning
                    p = subprocess.run([os.path.join(VERIF, 'build', 'export'), REPO, tus[k], out, '-std=' + std,
                                        '-I' + REPO, '-I/usr/include/eigen3', '-resource-dir', res],
                                       capture_output=True, text=True)
                    if p.returncode == 0 and os.path.exists(out): return json.load(open(out))
                raise Broken('cannot parse %s: %s' % (tus[k], p.stderr[-2000:]))
            with ThreadPoolExecutor(8) as ex:
                for tu, d in zip(tus, ex.map(one, range(len(tus)))):
                    self.units.append(tu)
                    self.merge(d)
        if not self.functions: raise Broken('no function was exported')

    def merge(self, d):
        for f in d['functions']:
            if f['key'] in self.functions: continue
            self.functions[f['key']] = f
            self.byname.setdefault(f['n'], []).append(f)
        for r in d['records']:
            if r['n'] not in self.records: self.records[r['n']] = r
        for g in d.get('enums', []): self.enums.setdefault(g['n'], {}).update(g['v'])
        seen = {(g['n'], g['file'], g['l']) for g in self.globals}
        for g in d['globals']:
            if (g['n'], g['file'], g['l']) not in seen: self.globals.append(g)

    def own_functions(self):
        return [f for f in self.functions.values() if f['file'].startswith(REPO)]

    def find(self, name, pred=None):
        fs = self.byname.get(name, [])
        return [f for f in fs if pred is None or pred(f)]

def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path

def walk(n):
    """all JSON nodes below n."""
    if isinstance(n, dict):
        if 'k' in n: yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)
