"""Compile a harness against /repo's current headers: to LLVM IR for the executor, or natively for replay."""
import os, subprocess, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
STDINC = ['-nostdinc++', '-isystem', V + '/shim', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13']
PASSES = ('always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse<memssa>,simplifycfg,dce,'
          'loop-simplify,lcssa),globaldce')
# variants: (standard, extra flags)
VARIANTS = {
    '20':    ['-std=c++20'],
    '20n':   ['-std=c++20', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS'],
    '17':    ['-std=c++17'],
    '17n':   ['-std=c++17', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS'],
    '14n':   ['-std=c++14', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS'],
    '11':    ['-std=c++11'],
    '11n':   ['-std=c++11', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS'],
    '17be': ['-std=c++17', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_ENDIAN=1'],
    '20ns':  ['-std=c++20', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_NO_IPV6_SCOPE'],
    '20s3':  ['-std=c++20', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=3'],
    '17s32': ['-std=c++17', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=32'],
    '11ns':  ['-std=c++11', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_NO_IPV6_SCOPE'],
    '20nu':  ['-std=c++20', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_CHAR_IS_UTF8'],
}
for k in list(VARIANTS): VARIANTS[k + '+ub'] = VARIANTS[k] + ['-fsanitize=undefined', '-fsanitize-trap=undefined', '-fno-sanitize=alignment,null,vptr,object-size,function,pointer-overflow']

class BuildError(Exception): pass

def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(what + ' failed:\n' + p.stdout[-3000:])
    return p.stdout

def to_ir(src, variant, defs, out):
    """src.cpp -> out.ll (before inlining), out.opt.ll"""
    run(['clang++-18', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-S', '-D_GLIBCXX_EXTERN_TEMPLATE=0', *STDINC,
         '-I', REPO + '/include', *VARIANTS[variant], *defs, src, '-o', out + '.ll'], 'clang ' + src)
    run(['opt-18', '-S', '-passes=' + PASSES, '--inline-threshold=5000', out + '.ll', '-o', out + '.opt.ll'], 'opt ' + src)
    return out + '.opt.ll'

def native(src, variant, defs, out, san='address,undefined', opt='-O0'):
    fl = [f for f in VARIANTS[variant] if not f.startswith('-fsanitize') and not f.startswith('-fno-sanitize')]
    run(['clang++-18', '-w', '-g1', opt, '-DVF_NATIVE', '-Dalways_inline=unused', *fl, *([] if not san else ['-fsanitize=' + san, '-fno-sanitize-recover=all']),
         '-D_GLIBCXX_ASSERTIONS', '-I', REPO + '/include', *defs, src, '-o', out, '-rdynamic', '-ldl'], 'native build ' + src)
    return out

def lib_functions(ll):
    """per harness entry: demangled library functions reachable from it in the IR before inlining"""
    calls = {}; cur = None
    with open(ll) as f:
        for l in f:
            if l.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); cur = m.group(1); calls[cur] = set()
            elif cur and ('@' in l) and ('call' in l or 'invoke' in l or '@_Z' in l):
                for m in re.finditer(r'@([\w.$]+)', l): calls[cur].add(m.group(1))
            elif l.startswith('}'): cur = None
    return calls
def reach(calls, fn):
    seen = set(); st = [fn]
    while st:
        x = st.pop()
        if x in seen or x not in calls: continue
        seen.add(x); st += calls[x]
    return seen
def demangle(names):
    names = sorted(names)
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')[:len(names)]
