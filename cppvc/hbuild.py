"""builds a replay/oracle harness together with the repository sources it exercises (from the current tree)"""
import os, subprocess, hashlib, concurrent.futures as cf, fcntl
from unit import VERIF, REPO, BUILD, flags
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
OBJ = os.path.join(BUILD, 'obj')
def compile_one(src, extra=()):
    path = src if src.startswith('/') else os.path.join(REPO, src)
    cc = ['clang'] if path.endswith('.c') else ['clang++'] + flags()
    if path.endswith('.c'): cc += ['-w', '-I' + REPO, '-I' + REPO + '/libskutils/include']
    opts = ['-O1', '-gline-tables-only', '-ffunction-sections', '-fdata-sections'] + SAN + list(extra)
    pp = subprocess.run(cc + opts + ['-E', path], capture_output=True, timeout=300)
    if pp.returncode: raise RuntimeError('preprocess %s: %s' % (src, pp.stderr.decode()[-1500:]))
    h = hashlib.sha256(pp.stdout + repr(opts).encode()).hexdigest()[:32]
    o = os.path.join(OBJ, h + '.o')
    if not os.path.exists(o):
        os.makedirs(OBJ, exist_ok=True); t = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(cc + opts + ['-c', path, '-o', t], capture_output=True, text=True, timeout=800)
        if r.returncode: raise RuntimeError('compile %s: %s' % (src, r.stderr[-3000:]))
        os.rename(t, o)
    return o
def build(name, main, sources, libs=(), extra=(), cflags=()):
    """returns path of the linked harness binary"""
    srcs = [os.path.join(VERIF, 'harness', main)] + list(sources)
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: compile_one(s, tuple(cflags) + (('-fno-access-control',) if s == srcs[0] else ())), srcs))
    h = hashlib.sha256(repr((objs, libs)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'h_%s_%s' % (name, h))
    if not os.path.exists(out):
        t = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++', '-fuse-ld=lld', '-fsanitize=address', '-o', t] + objs + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=report-all'] + list(libs), capture_output=True, text=True, timeout=300)
        if r.returncode: raise RuntimeError('link %s: %s' % (name, r.stderr[-3000:]))
        os.rename(t, out)
    return out
