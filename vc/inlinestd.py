"""mark the standard library's functions in a .ll file alwaysinline (library code is not under contract; inlining it only saves
interpretation time; nothing is dropped: every load, store and branch of the library stays part of what is verified)"""
import re, sys
def run(src, dst):
    s = open(src).read().split('\n')
    noinl = set()
    for l in s:
        m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
        if m and re.search(r'\b(noinline|optnone)\b', m.group(2)): noinl.add(m.group(1))
    for i, l in enumerate(s):
        if l.startswith('define linkonce_odr') and re.search(r'@(_ZN?K?St|_ZNK?St|_ZSt|_ZNK?9__gnu_cxx)', l):
            m = re.search(r'\) (?:unnamed_addr |local_unnamed_addr )*(#\d+)', l)
            if m and m.group(1) not in noinl: s[i] = l[:m.start(1)] + 'alwaysinline ' + l[m.start(1):]
    open(dst, 'w').write('\n'.join(s))
if __name__ == '__main__': run(sys.argv[1], sys.argv[2])
