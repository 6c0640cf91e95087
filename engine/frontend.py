"""Real source -> LLVM IR -> JSON, on every run."""
import os, re, subprocess, json, tempfile, shutil, hashlib
from vc import Module
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.path.join(VERIF, 'build')

class FrontendError(Exception): pass

def irdump():
    src = os.path.join(VERIF, 'engine', 'irdump.cpp'); exe = os.path.join(BUILD, 'irdump')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + f'.{os.getpid()}'
        r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', src, '-I/usr/lib/llvm-18/include', '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode: raise FrontendError('irdump does not build: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe

EXTRACTION = "headers copied verbatim except that ' = nullptr' default initialisers of reference members (accepted by g++ only, never used) are dropped so that clang accepts them"
def extract(dst, repo=None):
    """mechanical, line-preserving extraction of the headers under verification"""
    repo = repo or REPO
    os.makedirs(dst, exist_ok=True)
    dropped = []
    for f in sorted(os.listdir(repo)):
        if f.endswith('.hpp'):
            s = open(os.path.join(repo, f), encoding='utf-8', errors='surrogateescape', newline='').read()
            out = []
            for i, l in enumerate(s.split('\n')):
                m = re.match(r'^(\s*(?:const\s+)?[\w:<>]+\s*&\s*\w+)\s*=\s*nullptr\s*;(.*)$', l)
                if m: dropped.append(f'{f}:{i + 1}'); l = m.group(1) + ';' + m.group(2)
                out.append(l)
            open(os.path.join(dst, f), 'w', encoding='utf-8', errors='surrogateescape', newline='').write('\n'.join(out))
    return dropped

def compile_ir(harness, workdir, defines=(), passes=None):
    """harness: path of a .cpp under /verif/harness"""
    inc = os.path.join(workdir, 'src'); dropped = extract(inc)
    bc, ob, js = (os.path.join(workdir, 'a.' + e) for e in ('bc', 'opt.bc', 'json'))
    cmd = [LLVM + 'clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-access-control', '-w', '-include', 'cstdint', '-include', 'algorithm',
           '-I' + inc, '-I' + os.path.join(VERIF, 'harness'), '-emit-llvm', '-c', harness, '-o', bc, '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-Xclang', '-fno-validate-pch' ][:-2] + list(defines)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontendError('the harness does not compile against the current source:\n' + r.stderr[-3000:])
    r = subprocess.run([LLVM + 'opt', '-passes=' + (passes or 'function(sroa,early-cse,simplifycfg)'), bc, '-o', ob], capture_output=True, text=True)
    if r.returncode: raise FrontendError('opt: ' + r.stderr[-2000:])
    with open(js, 'w') as fo:
        r = subprocess.run([irdump(), ob, 'h_'], stdout=fo, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise FrontendError('irdump: ' + r.stderr[-2000:])
    m = Module(json.load(open(js)))
    m.dropped = dropped
    return m
