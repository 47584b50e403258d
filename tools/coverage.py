#!/usr/bin/env python3
"""lists the functions of /repo/src (tests aside) which no contract covers"""
import os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for p in glob.glob(os.path.join(H, 'verus', '*.vrs')):
    for l in open(p):
        m = re.match(r'//@(?:extract|item) (\S+) (.*)', l)
        if m:
            f, rest = m.groups()
            n = re.search(r'fn (\w+)\s*$', rest)
            if n: have.setdefault(f, []).append((re.sub(r'\s+', '', rest.rsplit('::', 1)[0]) if '::' in rest else '', n.group(1)))
def strip(s):
    s = re.sub(r'//[^\n]*', '', s)
    return s
tot = cov = 0
for root, _, fs in os.walk('/repo/src'):
    for f in sorted(fs):
        p = os.path.join(root, f); rel = os.path.relpath(p, '/repo')
        if 'test' in rel or not f.endswith('.rs'): continue
        s = strip(open(p).read())
        s = re.sub(r'#\[cfg\(test\)\]\s*mod \w+ \{.*', '', s, flags=re.S)
        # header of the innermost impl/trait/mod around each fn
        depth = 0; stack = []; hdr = ''; i = 0; miss = []
        toks = re.finditer(r"'(?:\\.|[^'\\])'|b?\"(?:\\.|[^\"\\])*\"|[{};]|[^{};'\"]+|'", s)
        cur = ''
        for t in toks:
            t = t.group(0)
            if t == '{': stack.append(re.sub(r'\s+', ' ', cur).strip()); cur = ''
            elif t == '}':
                if stack: stack.pop()
                cur = ''
            elif t == ';': cur = ''
            else:
                cur += t
                continue
            if t == '{':
                h = stack[-1]
                m = re.search(r'\bfn (\w+)', h)
                if m and not re.search(r'^(impl|trait)', h):
                    ctx = next((x for x in reversed(stack[:-1]) if re.search(r'\b(impl|trait|macro_rules)\b', x)), '')
                    c = re.sub(r'#\[[^\]]*\]|\s+', '', re.sub(r'^.*?\b(unsafe impl|impl|pub trait|trait|macro_rules)', r'\1', ctx))
                    tot += 1
                    hit = [x for x in have.get(rel, []) if x[1] == m.group(1) and (x[0] == c or x[0] in c or c in x[0])]
                    if hit: cov += 1
                    else: miss.append((c, m.group(1)))
        if miss:
            print(rel)
            for c, n in miss: print('   ', c, '::', n)
print(cov, 'of', tot)
