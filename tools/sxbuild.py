"""Build steps: engine, LLVM IR of the code under test, native replay programs.

Everything is derived from /repo's current working tree.  Objects are cached under /verif/build by a
hash of the compiler command and of the contents of everything under /repo/source that can influence
them, so a change of the tree always leads to a rebuild."""
import glob, threading, hashlib, os, re, subprocess, sys, fcntl, contextlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
BUILD = os.path.join(VERIF, 'build')
RT = os.path.join(VERIF, 'engine', 'rt')
ENGINE = os.path.join(BUILD, 'engine', 'symex')
RAPIDJSON = '/opt/vp/deps/rapidjson-shim'
INC = ['-I' + SRC, '-I' + RT, '-I' + os.path.join(VERIF, 'engine', 'stubs'), '-I' + RAPIDJSON, '-include', 'cstdint', '-DJSON_SCHEMA_PATH="/nonexistent"']
CLANG = ['clang++-18', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize',
         '-ffp-contract=off', '-fno-access-control', '-w', '-DSX_ENGINE', '-emit-llvm', '-c'] + INC
NATIVE = ['clang++-18', '-std=c++17', '-O0', '-gline-tables-only', '-fno-access-control', '-w', '-DSX_NATIVE', '-fPIC', '-ffp-contract=off',
          '-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,float-divide-by-zero,float-cast-overflow,bounds'] + INC


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock-' + name), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (SRC, RT, os.path.join(VERIF, 'engine', 'stubs'), os.path.join(VERIF, 'engine', 'shadow')):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.inl')) or f == 'regex':
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def engine():
    with lock('engine'):
        run(['make', '-j4', '-C', os.path.join(VERIF, 'engine')])
    return ENGINE


def _compile(base, src, ext):
    key = sha(' '.join(base), headers_hash(), src, open(src, 'rb').read())
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ext)
    if not os.path.exists(out):
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        run(base + ['-c', src, '-o', tmp])
        os.rename(tmp, out)
    return out


def shadow():
    """standard headers of the symbolic build with two functions rewritten: bitset::to_string scans for set
    bits with count-trailing-zeros and indexed stores, the rewritten loop visits every bit (same result), and
    the constructor from text sets bits without branching"""
    d = os.path.join(BUILD, 'shadow')
    out = os.path.join(d, 'bitset')
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        src = next(p for p in sorted(glob.glob('/usr/include/c++/*/bitset'), reverse=True))
        t = open(src).read()
        t2 = re.sub(r'size_t __n = this->_Find_first\(\);\s*while \(__n < _Nb\)\s*\{\s*__s\[_Nb - __n - 1\] = __one;\s*__n = _Find_next\(__n\);\s*\}',
                    'for (size_t __n = 0; __n < _Nb; __n++) __s[_Nb - __n - 1] = this->_Unchecked_test(__n) ? __one : __zero;', t)
        t3 = re.sub(r'if \(_Traits::eq\(__c, __zero\)\)\s*;\s*else if \(_Traits::eq\(__c, __one\)\)\s*_Unchecked_set\(__i - 1\);',
                    'if (_Traits::eq(__c, __zero) | _Traits::eq(__c, __one)) this->_M_getword(__i - 1) |= (unsigned long)_Traits::eq(__c, __one) << ((__i - 1) % (8 * sizeof(unsigned long)));', t2)
        if t2 == t or t3 == t2:
            raise BuildError('bitset header not recognised')
        with open(out + '.%d' % threading.get_ident(), 'w') as f:
            f.write(t3)
        os.rename(out + '.%d' % threading.get_ident(), out)
    return ['-isystem', d, '-isystem', os.path.join(VERIF, 'engine', 'shadow')]


def to_bc(src, defs=()):
    return _compile(CLANG + list(defs) + shadow(), src, '.bc')


def to_obj(src, defs=()):
    return _compile(NATIVE + list(defs), src, '.o')


CFG = 'simplifycfg<hoist-common-insts;speculate-blocks;bonus-inst-threshold=4>'
PASSES = ('internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,' + CFG + '),cgscc(inline),'
          'function(sroa,early-cse,instcombine<no-verify-fixpoint>,' + CFG + ',sroa,early-cse),cgscc(inline),'
          'function(sroa,early-cse,instcombine<no-verify-fixpoint>,' + CFG + ',instcombine<no-verify-fixpoint>,' + CFG + '),globaldce')


def link_bc(files, entries, out):
    tmp = out + '.%d' % os.getpid()
    run(['llvm-link-18', '-o', tmp + '.l.bc'] + files)
    run(['opt-18', '-passes=' + PASSES, '-inline-threshold=225', '--internalize-public-api-list=' + ','.join(entries),
         '-o', tmp + '.o.bc', tmp + '.l.bc'])
    # functions of the code under test that the entries can reach (before inlining)
    run(['opt-18', '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), '-o', tmp + '.f.bc', tmp + '.l.bc'])
    names = run(['llvm-nm-18', '--defined-only', '-C', tmp + '.f.bc'])
    fs = sorted(set(m.group(1) for m in re.finditer(r'^[-0-9a-f ]+[tTwW] ((?:auto |std::\S+ |\S+ )?(?:haptics|spiht)::.*)$', names, re.M)))
    with open(tmp + '.funcs', 'w') as f:
        f.write('\n'.join(fs))
    os.rename(tmp + '.funcs', out + '.funcs')
    os.unlink(tmp + '.l.bc')
    os.unlink(tmp + '.f.bc')
    os.rename(tmp + '.o.bc', out)


NOT_BUILT = ('main.cpp', 'Filterbank.cpp', 'WavParser.cpp', 'PsychohapticModel.cpp')
GROUPS = {'TYPES': ['Types/src/', 'Tools/src/'],
          'BINARY': ['Types/src/', 'Tools/src/', 'IOHaptics/src/IOBinary.cpp', 'IOHaptics/src/IOBinaryBands.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp'],
          'STREAM': ['Types/src/', 'Tools/src/', 'IOHaptics/src/IOStream.cpp', 'IOHaptics/src/IOBinary.cpp', 'IOHaptics/src/IOBinaryBands.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp'],
          'JSON': ['Types/src/', 'Tools/src/', 'IOHaptics/src/IOJson.cpp', 'IOHaptics/src/IOJsonPrimitives.cpp'],
          'WAVELET': ['Spiht/src/', 'FilterBank/src/', 'WaveletDecoder/src/', 'Encoder/src/WaveletEncoder.cpp']}


def _srcs(sources):
    """group name, directory (all its translation units that build without third-party code) or file"""
    out = []
    for s in sources:
        for t in GROUPS.get(s, [s]):
            if t.endswith('/'):
                d = os.path.join(SRC, t)
                out += [t + f for f in sorted(os.listdir(d)) if f.endswith('.cpp') and f not in NOT_BUILT]
            else:
                out.append(t)
    sources = list(dict.fromkeys(out))
    return [s if s.startswith('/') else os.path.join(VERIF, s[1:]) if s.startswith('@') else os.path.join(SRC, s) for s in sources]


def build_ir(harness, sources, entries, defs=(), hdefs=()):
    """harness: path; sources: paths relative to /repo/source ('@' = relative to /verif)."""
    files = [(harness, tuple(defs) + tuple(hdefs))] + [(s, tuple(defs)) for s in _srcs(sources)]
    files += [(os.path.join(VERIF, 'engine', 'rt', f), ()) for f in ('rt.cpp', 'rtstring.cpp')]
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda f: to_bc(*f), files))
    key = sha(PASSES, *bcs, *entries)
    out = os.path.join(BUILD, 'obj', key + '.link.bc')
    if not os.path.exists(out):
        link_bc(bcs, entries, out)
    return out, open(out + '.funcs').read().split('\n')


def build_native(harness, sources, defs=(), hdefs=()):
    files = [(harness, tuple(defs) + tuple(hdefs))] + [(s, tuple(defs)) for s in _srcs(sources)]
    files.append((os.path.join(VERIF, 'engine', 'rt', 'native.cpp'), ()))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda f: to_obj(*f), files))
    key = sha(*objs)
    out = os.path.join(BUILD, 'obj', key + '.replay')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run(['clang++-18', '-fsanitize=address,undefined', '-rdynamic', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-o', tmp] + objs + ['-ldl'])
        os.rename(tmp, out)
    return out
