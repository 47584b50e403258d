"""Mechanical extraction of real functions from /repo/src into Verus source.

A template (.vrs) is Verus text plus directives; every `//@extract` directive is replaced by the
*current* text of one function of /repo with the contract spliced in.  What the extraction changes
is exactly what the directives (and the fixed rules in `normalise`) say; everything is listed in
the returned `Extraction.log`.

Directives
  //@include FILE                    paste another template
  //@include-contracts FILE GROUP  paste another template, functions by contract (verified in GROUP)
  //@thm PROPS...                   the next function (to a `}` in column 0) is a theorem over the contracts
  //@item FILE KIND NAME             paste a const/struct/enum/mod/use item verbatim
  //@extract FILE [IMPL ::] fn NAME  paste a function, followed by sub-directives up to //@end
      //@ret NAME                    name the return value
      //@sig OLD => NEW              token rewrite in the signature
      //@contract                    requires/ensures/decreases text
      //@loop N                      invariant text of the N-th loop (source order, 1-based)
      //@at start | loopstart N | loopend N | beforeloop N | afterloop N
      //@before PATTERN | //@after PATTERN   statement-level anchors (token match)
      //@rewrite OLD => NEW          token rewrite in the body (must match at least once)
      //@rewrite? OLD => NEW         same, may match zero times
      //@proved GROUP                contract only: the body is verified in GROUP
      //@stub                        contract only: body replaced, function becomes external_body
      //@attr TEXT                   attribute added in front
"""
import re, os

class Lost(Exception):
    """an anchor of the template no longer exists in the code"""
    hits = ()

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<p>.)
""", re.X | re.S)

class T:
    __slots__ = ('k', 's', 'pre', 'line')
    def __init__(self, k, s, pre='', line=0):
        self.k, self.s, self.pre, self.line = k, s, pre, line
    def __repr__(self): return self.s

def lex(src):
    """tokens, each with the whitespace that preceded it; comments are dropped (kept as newlines)"""
    out, pre, line = [], '', 1
    for m in TOK.finditer(src):
        k, s = m.lastgroup, m.group()
        if k == 'h': k = 'rstr'
        if k in ('ws', 'lc', 'bc'):
            pre += s if k == 'ws' else ('\n' * s.count('\n') or ' ')
        else:
            out.append(T(k, s, pre, line)); pre = ''
        line += s.count('\n')
    return out

def text(toks):
    return ''.join(t.pre + t.s for t in toks)

OPEN, CLOSE = '([{', ')]}'
def match(toks, i):
    """index of the bracket closing the one at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].s in OPEN: d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost('unbalanced brackets')

def strs(s):
    return [t.s for t in lex(s)]

def skip_attrs(toks, i):
    while i + 1 < len(toks) and toks[i].s == '#' and toks[i+1].s in ('[', '!'):
        j = i + 1
        if toks[j].s == '!': j += 1
        i = match(toks, j) + 1
    return i

class Src:
    def __init__(self, root, rel):
        self.rel = rel
        p = os.path.join(root, rel)
        if not os.path.exists(p): raise Lost('file %s is gone' % rel)
        self.toks = lex(open(p).read())

    def items(self, lo=0, hi=None):
        """(kind, name/header strs, start, sig_end, body_open, end) at one nesting level"""
        t = self.toks; hi = len(t) if hi is None else hi
        i = lo
        while i < hi:
            s0 = i
            i = skip_attrs(t, i)
            if i >= hi: break
            start = i
            # visibility and qualifiers
            while i < hi and t[i].s in ('pub', 'unsafe', 'const', 'async', 'extern', 'default') :
                if t[i].s == 'const' and i+1 < hi and t[i+1].s not in ('fn', 'unsafe', 'extern'): break
                if t[i].s == 'unsafe' and i+1 < hi and t[i+1].s == '{': break
                i += 1
                if t[i].s == '(' : i = match(t, i) + 1
                if t[i].k == 'str': i += 1
            kw = t[i].s
            if kw == 'fn':
                name = t[i+1].s; j = i
                while t[j].s not in ('{', ';'):
                    j = match(t, j) + 1 if t[j].s in '([' else j + 1
                if t[j].s == '{':
                    e = match(t, j); yield ('fn', [name], start, j, j, e); i = e + 1
                else:
                    yield ('fn', [name], start, j, None, j); i = j + 1
            elif kw in ('impl', 'mod', 'struct', 'enum', 'trait', 'union', 'macro_rules'):
                j = i
                while t[j].s not in ('{', ';'):
                    j = match(t, j) + 1 if t[j].s in '([' else j + 1
                hdr = [x.s for x in t[i:j]]
                if t[j].s == '{':
                    e = match(t, j); yield (kw, hdr, start, j, j, e); i = e + 1
                else:
                    yield (kw, hdr, start, j, None, j); i = j + 1
            else:
                j = i
                while j < hi and t[j].s != ';' :
                    if t[j].s in OPEN:
                        j = match(t, j)
                        if t[j].s == '}' and kw not in ('const', 'static', 'use', 'type', 'let'): break
                    j += 1
                yield (kw, [x.s for x in t[i:j]], start, j, None, j); i = j + 1

    def find_impls(self, hdr):
        want = strs(hdr)
        for it in self.items():
            if it[0] == 'impl':
                h = it[1]
                # drop a where clause
                if 'where' in h: h = h[:h.index('where')]
                if h == want: yield it

    def find_fn(self, name, impl=None):
        found = []
        if impl is None:
            found = [it for it in self.items() if it[0] == 'fn' and it[1] == [name]]
        else:
            hit = False
            for im in self.find_impls(impl):
                hit = True
                found += [it for it in self.items(im[4] + 1, im[5]) if it[0] == 'fn' and it[1] == [name]]
            if not hit: raise Lost('%s: no `%s`' % (self.rel, impl))
        if len(found) != 1:
            raise Lost('%s: %s%s found %d times' % (self.rel, (impl + ' :: ') if impl else '', name, len(found)))
        return found[0]

    def find_item(self, kind, name):
        path = name.split('::')
        lo, hi = 0, None
        for m in path[:-1]:
            for it in self.items(lo, hi):
                if it[0] in ('mod', 'impl') and it[4] is not None and it[1][1:] == [m]:
                    lo, hi = it[4] + 1, it[5]; break
            else: raise Lost('%s: no mod %s' % (self.rel, m))
        for it in self.items(lo, hi):
            h = it[1]
            if it[0] == kind and path[-1] in h[1:3]:
                return it
        raise Lost('%s: no %s %s' % (self.rel, kind, name))

    def fn_names(self):
        out = []
        def go(lo, hi, pre):
            for it in self.items(lo, hi):
                if it[0] == 'fn': out.append(pre + it[1][0])
                elif it[0] in ('impl', 'mod', 'trait') and it[4] is not None:
                    go(it[4] + 1, it[5], ' '.join(it[1]) + ' :: ')
        go(0, None, '')
        return out

# ---- token pattern rewriting: `$x` matches one token, `$$x` a balanced token run -------------
def parse_pat(s):
    toks = lex(s); out = []; i = 0
    while i < len(toks):
        if toks[i].s == '$':
            if toks[i+1].s == '$': out.append(('many', toks[i+2].s)); i += 3
            else: out.append(('one', toks[i+1].s)); i += 2
        else: out.append(('lit', toks[i].s)); i += 1
    return out

def match_pat(pat, toks, i):
    """returns (end, bindings) or None"""
    def go(pi, ti, b):
        if pi == len(pat): return ti, b
        k, v = pat[pi]
        if ti >= len(toks) and k != 'many': return None
        if k == 'lit':
            if toks[ti].s == v: return go(pi + 1, ti + 1, b)
            return None
        if k == 'one':
            if v in b:
                return go(pi+1, ti+1, b) if text(b[v]).strip() == toks[ti].s else None
            return go(pi + 1, ti + 1, {**b, v: [toks[ti]]})
        j = ti
        while True:                     # shortest balanced run first
            r = go(pi + 1, j, {**b, v: toks[ti:j]})
            if r: return r
            if j >= len(toks) or toks[j].s in CLOSE and toks[j].k == 'p' or toks[j].s == ';': return None
            # at the start of a pattern it is an operand: no statement, assignment or arm in it, and nothing but a call or field after a block
            if pi == 0 and (toks[j].s in ('let', 'return', 'if', 'while', 'for', 'loop', '=', '|') or j > ti and toks[j-1].s == '}' and toks[j].s not in ('.', '?')): return None
            j = match(toks, j) + 1 if toks[j].k == 'p' and toks[j].s in OPEN else j + 1
    return go(0, i, {})

def subst(rep, b, pre):
    out = []; toks = lex(rep); i = 0
    while i < len(toks):
        if toks[i].s == '$':
            if toks[i+1].s == '$': n, st = toks[i+2].s, 3
            else: n, st = toks[i+1].s, 2
            body = [T(t.k, t.s, t.pre, t.line) for t in b[n]]
            if body: body[0].pre = toks[i].pre
            out += body; i += st
        else:
            out.append(T(toks[i].k, toks[i].s, toks[i].pre)); i += 1
    if out: out[0].pre = pre
    return out

def rewrite(toks, old, new):
    pat = parse_pat(old); out = []; i = 0; n = 0
    while i < len(toks):
        r = match_pat(pat, toks, i)
        if r and r[0] > i:
            end, b = r
            b = {k: rewrite(v, old, new)[0] for k, v in b.items()}
            out += subst(new, b, toks[i].pre); i = end; n += 1
        else:
            out.append(toks[i]); i += 1
    return out, n

def mark(s, pre='\n'):
    return T('raw', s, pre)

def drop_stmt_attrs(toks):
    """lint attributes inside bodies are dropped (allow/inline/must_use/doc/cold/track_caller); cfg stays"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i+1].s == '[' and \
           toks[i+2].s in ('allow', 'inline', 'must_use', 'doc', 'cold', 'warn', 'deny', 'track_caller', 'derive', 'repr'):
            i = match(toks, i + 1) + 1
        else:
            out.append(toks[i]); i += 1
    return out

# fixed rules: Rust constructs the verifier does not accept, replaced by their std definition
FIXED = [
    ('for ( $i , $b ) in $$e . iter ( ) . enumerate ( ) {',
     'let vx_seq_$b = & $$e ; for $i in 0 .. vx_seq_$b . len ( ) { let $b = & vx_seq_$b [ $i ] ;',
     'for (i, b) in E.iter().enumerate()  ->  indexed loop over &E'),
    ('core :: hint :: black_box ( $$e )', '( $$e )', 'core::hint::black_box(E)  ->  E'),
    ('std :: hint :: black_box ( $$e )', '( $$e )', 'std::hint::black_box(E)  ->  E'),
]

# ---- functions which the pinned tree does not have (a helper extracted from one it has) are inlined where they are called
def fn_table(root):
    """name -> [(impl header or None, file's tokens, item)] of every function in src, tests apart"""
    tab = {}
    for d, _, fs in os.walk(os.path.join(root, 'src')):
        for n in sorted(fs):
            if not n.endswith('.rs') or n == 'tests.rs': continue
            s = Src(root, os.path.relpath(os.path.join(d, n), root))
            for it in s.items():
                if it[0] == 'fn': tab.setdefault(it[1][0], []).append((None, s.toks, it))
                elif it[0] in ('impl', 'trait') and it[4] is not None:
                    for x in s.items(it[4] + 1, it[5]):
                        if x[0] == 'fn': tab.setdefault(x[1][0], []).append((it[1], s.toks, x))
    return tab

def split_commas(toks):
    out, cur, ang, i = [], [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'p' and t.s in OPEN:
            j = match(toks, i); cur += toks[i:j+1]; i = j + 1; continue
        if t.s == ',' and ang == 0: out.append(cur); cur = []
        else:
            if t.s == '<': ang += 1
            elif t.s == '>' and i and toks[i-1].s != '-': ang -= 1
            cur.append(t)
        i += 1
    if cur: out.append(cur)
    return out

def split_args(toks):
    out, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].k == 'p' and toks[i].s in OPEN:
            j = match(toks, i); cur += toks[i:j+1]; i = j + 1; continue
        if toks[i].s == ',': out.append(cur); cur = []
        else: cur.append(toks[i])
        i += 1
    if cur: out.append(cur)
    return out

class Helpers:
    def __init__(self, root, known):
        self.new = {n: v[0] for n, v in fn_table(root).items() if n not in known and len(v) == 1 and v[0][2][4] is not None}
        self.used = []

    def parse(self, name):
        impl, t, it = self.new[name]
        i = it[2]
        while t[i].s != 'fn': i += 1
        i += 2
        generic = t[i].s == '<'
        while t[i].s != '(': i += 1
        e = match(t, i)
        ps = split_commas(t[i+1:e])
        me, params = None, []
        for k, p in enumerate(ps):
            p = [x for x in p if x.s != 'mut' or x is not p[0]] if p[0].s == 'mut' and len(p) > 1 and p[1].s != 'self' else p
            mut = ps[k][0].s == 'mut' and p is not ps[k]
            if 'self' in [x.s for x in p] and ':' not in [x.s for x in p]:
                ss = [x.s for x in p if x.k != 'life']
                me = '&mut' if ss[:2] == ['&', 'mut'] else '&' if ss[0] == '&' else ''
            elif len(p) > 2 and p[0].k == 'id' and p[1].s == ':':
                params.append((p[0].s, mut, [] if generic or 'impl' in [x.s for x in p] else [x for x in p[2:] if x.k != 'life']))
            else: return None
        body = drop_stmt_attrs(t[it[4]:it[5]+1])
        return me, params, body

    def expand(self, toks, depth=0):
        if not self.new or depth > 3: return toks
        i = 0
        toks = list(toks)
        while i < len(toks):
            n = toks[i].s
            if toks[i].k == 'id' and n in self.new:
                r = self.site(toks, i, depth)
                if r:
                    a, e, new = r
                    new[0] = T(new[0].k, new[0].s, toks[a].pre or ' ', new[0].line)
                    toks[a:e] = new; i = a + len(new)
                    if n not in self.used: self.used.append(n)
                    continue
            i += 1
        return toks

    def site(self, toks, i, depth):
        p = self.parse(toks[i].s)
        if not p: return None
        me, params, body = p
        body = self.expand(body, depth + 1)
        a = i; recv = None
        while a >= 3 and toks[a-1].s == ':' and toks[a-2].s == ':' and toks[a-3].k == 'id': a -= 3
        if a == i and i >= 2 and toks[i-1].s == '.':
            a = i - 2
            if toks[a].k != 'id': return None
            while a >= 2 and toks[a-1].s == '.' and toks[a-2].k == 'id': a -= 2
            if a >= 1 and toks[a-1].s in ('.', ':'): return None
            recv = toks[a:i-1]
        one = not any(x.s == ';' for x in body) and body[1].s not in ('let', 'if', 'match', 'for', 'while', 'loop')
        if i + 1 >= len(toks) or toks[i+1].s != '(':
            # the function itself as a value
            if recv is None and me is None and len(params) == 1 and toks[i+1].s in (')', ','):
                return a, i + 1, lex('| %s |' % params[0][0]) + (body[1:-1] if one else body)
            return None
        e = match(toks, i + 1)
        args = split_args(toks[i+2:e])
        pre = []
        if me is not None:
            if recv is None:
                if not args: return None
                recv, bind = args[0], ''
                args = args[1:]
            else: bind = me
            if [x.s for x in recv] != ['self']:
                pre += lex('let vx_me = %s' % bind) + [T(recv[0].k, recv[0].s, ' ')] + recv[1:] + lex(';')
                body = [T('id', 'vx_me', x.pre, x.line) if x.k == 'id' and x.s == 'self' else x for x in body]
        elif recv is not None: return None
        if len(args) != len(params): return None
        if len(args) > 1 or args and [x.s for x in args[0]] != [params[0][0]]:
            for k, x in enumerate(args):
                if len(args) > 1: pre += lex('\nlet vx_arg%d = ' % k) + x + lex(';')
            for k, (n, mut, ty) in enumerate(params):
                pre += lex('\nlet %s%s' % ('mut ' if mut else '', n)) + (lex(':') + ty if ty else []) + lex(' =') + (lex(' vx_arg%d' % k) if len(args) > 1 else [T(args[k][0].k, args[k][0].s, ' ')] + args[k][1:]) + lex(';')
        elif args and params[0][1]:
            pre += lex('let mut %s = %s;' % (params[0][0], params[0][0]))
        early = [k for k, x in enumerate(body) if x.s == '?' and x.k == 'p' or x.s == 'return']
        # leaving the helper early is leaving the caller if the call is its result, or if `?` follows and what is left with is a failure
        if early and not (e + 1 == len(toks) - 1 or a >= 1 and toks[a-1].s == 'return'
                or e + 1 < len(toks) and toks[e+1].s == '?' and all(body[k].s == '?' or body[k+1].s in ('Err', 'None') for k in early)): return None
        if not pre and one: return a, e + 1, lex('(') + body[1:-1] + lex(')')
        return a, e + 1, lex('({') + pre + body[1:-1] + lex('})')

def known_fns():
    return set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_fns.txt')).read().split())

def loops(toks):
    """(index of loop keyword, index of its `{`, index of its `}`) in source order"""
    res = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s in ('while', 'for', 'loop'):
            if t.s == 'for' and i + 1 < len(toks) and toks[i+1].s == '<': continue
            j = i + 1
            while j < len(toks) and toks[j].s != '{':
                j = match(toks, j) + 1 if toks[j].k == 'p' and toks[j].s in '([' else j + 1
            if j < len(toks): res.append((i, j, match(toks, j)))
    return res

def stmt_start(toks, i):
    """walk back from i to the first token of its statement"""
    d = 0
    j = i - 1
    while j >= 0:
        t = toks[j]
        if t.k == 'p':
            if t.s in CLOSE: 
                if d == 0 and t.s == '}' : return j + 1
                d += 1
            elif t.s in OPEN:
                if d == 0: return j + 1
                d -= 1
            elif t.s == ';' and d == 0: return j + 1
        j -= 1
    return 0

def stmt_end(toks, i):
    """index after the `;` (or block) ending the statement containing i"""
    j = i
    while j < len(toks):
        t = toks[j]
        if t.k == 'p':
            if t.s in OPEN:
                j = match(toks, j)
            elif t.s == ';': return j + 1
            elif t.s in CLOSE: return j
        j += 1
    return j

def find_stmt(toks, pat):
    p = parse_pat(pat)
    hits = [(i, match_pat(p, toks, i)[0]) for i in range(len(toks)) if match_pat(p, toks, i)]
    if len(hits) != 1:
        x = Lost('anchor `%s` matches %d times' % (pat, len(hits)))
        x.hits = hits
        raise x
    return hits[0]

class Extraction:
    def __init__(self):
        self.globals = []      # (old, new): rewrites applied to every following function
        self.lost = []         # (function, reason): anchors of this function are gone
        self.soft = {}         # function -> which of its anchors are gone: it is tried without them
        self.soften = []
        self.out = []          # lines
        self.fns = []          # dicts: name, file, first line, last line, stub
        self.log = []
        self.assumed = []
        self.elsewhere = None
        self.uses = set()      # groups whose contracts are used
        self.rewrites = []

def build(template, root, tdir, stubs=(), vacuity=False, tolerant=False):
    """stubs: functions ("impl :: name") to reduce to their contract; vacuity: assert(false) at the
    start of every contracted body; tolerant: a function whose anchors are gone is reduced to its
    contract and recorded in .lost instead of raising"""
    ex = Extraction()
    ex.tolerant = tolerant
    srcs = {}
    helpers = Helpers(root, known_fns())
    def src(rel):
        if rel not in srcs: srcs[rel] = Src(root, rel)
        return srcs[rel]
    def emit(s):
        ex.out += s.split('\n')
    def run(path):
        lines = open(path).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]; st = l.strip()
            if st.startswith('//@include '):
                run(os.path.join(tdir, st.split()[1])); i += 1
            elif st.startswith('//@include-contracts '):
                # the functions of FILE by contract only: their bodies are verified in group GROUP
                _, f, g = st.split()
                was = ex.elsewhere; ex.elsewhere = g
                run(os.path.join(tdir, f)); ex.elsewhere = was; i += 1
            elif st.startswith('//@item '):
                m = re.match(r'//@item (\S+) (\S+) (\S+)(?: as (.*))?$', st)
                rel, kind, name, _ = m.groups()
                s = src(rel); it = s.find_item(kind, name)
                toks = drop_stmt_attrs(s.toks[it[2]:it[5] + 1])
                # sub rewrites
                while i + 1 < len(lines) and lines[i+1].strip().startswith('//@rewrite'):
                    toks = do_rewrite(ex, toks, lines[i+1].strip(), name); i += 1
                a = len(ex.out) + 1
                emit(text(toks).strip('\n'))
                ex.log.append('item %s %s %s' % (rel, kind, name)); i += 1
            elif st.startswith('//@globals-off'):
                ex.globals = []; i += 1
            elif st.startswith('//@global '):
                ex.globals.append(st.split(None, 1)[1].split(' => ', 1)); i += 1
            elif st.startswith('//@extract '):
                j = i + 1; block = []
                while lines[j].strip() != '//@end':
                    block.append(lines[j]); j += 1
                key = re.match(r'//@extract \S+ (.*)$', st).group(1).replace('fn ', '')
                n = len(ex.rewrites)
                if key in stubs and ex.elsewhere is None: one(st, block, force=True)
                elif not tolerant: one(st, block)
                else:
                    try: one(st, block)
                    except Lost as e:
                        del ex.rewrites[n:]
                        ex.lost.append((key, str(e)))
                        one(st, block, force=True)
                i = j + 1
            elif st.startswith('//@thm '):
                # a client of the contracts, carried by the template: its verifying is the property
                name = re.search(r'fn (\w+)', lines[i+1]).group(1); key = 'theorem ' + name
                j = i + 1
                while lines[j] != '}': j += 1
                a = len(ex.out) + 1
                forced = key in stubs
                if not forced:
                    ex.out += lines[i+1:j+1]
                    if vacuity:
                        k = next(q for q in range(a - 1, len(ex.out)) if ex.out[q].rstrip() == '{')
                        ex.out[k] += ' assert(false);' if 'proof fn' in lines[i+1] else ' proof { assert(false); }'
                ex.fns.append(dict(name=name, impl=None, file='theorem', line=0, first=a, last=max(a, len(ex.out)), stub=forced, forced=forced,
                                   props=st.split()[1:], key=key, theorem=True))
                i = j + 1
            elif st.startswith('//@'):
                raise ValueError('bad directive ' + st)
            else:
                if ex.elsewhere and re.match(r'pub (broadcast )?proof fn ', l):
                    # a lemma proved in another group
                    ex.uses.add(ex.elsewhere)
                    l = '#[verifier::external_body] /* contract of group %s */ ' % ex.elsewhere + l
                elif vacuity and re.match(r'pub (broadcast )?proof fn ', l): l = '#[verifier::external_body] ' + l
                ex.out.append(l); i += 1

    def one(head, block, force=False):
        m = re.match(r'//@extract (\S+) (?:(.*?) :: )?fn (\w+)$', head)
        rel, impl, name = m.groups()
        s = src(rel); it = s.find_fn(name, impl)
        sig = drop_stmt_attrs(s.toks[it[2]:it[3]])
        if it[4] is None: raise Lost('%s has no body' % name)
        body = drop_stmt_attrs(s.toks[it[4]:it[5] + 1])
        src_line = s.toks[it[2]].line
        subs = []; cur = None
        for l in block:
            if l.strip().startswith('//@'):
                cur = [l.strip(), []]; subs.append(cur)
            elif cur is not None: cur[1].append(l)
            elif l.strip(): raise ValueError('text before sub-directive in ' + head)
        contract = ''; stub = force; props = None; attrs = []; inv = {}; ats = []; ret = None; elsewhere = None
        for d, b in subs:
            b = '\n'.join(b)
            if d == '//@contract': contract = b
            elif d == '//@nobody': pass
            elif d == '//@stub': stub = True
            elif d.startswith('//@proved '): elsewhere = d.split()[1]
            elif d.startswith('//@prop '): props = d[8:].split()
            elif d.startswith('//@attr '): attrs.append(d[8:])
            elif d.startswith('//@ret '): ret = d[7:].strip()
            elif d.startswith('//@sig '):
                o, n = (x.strip() for x in d[7:].split(' =>', 1))
                sig, c = rewrite(sig, o, n)
                if not c: raise Lost('%s: signature no longer contains `%s`' % (name, o))
                ex.rewrites.append('%s signature: %s => %s' % (name, o, n))
        if ex.elsewhere is not None and not stub: elsewhere = ex.elsewhere
        if elsewhere: stub = True
        # fixed rules, then per-function rewrites
        def glob(toks, what):
            for o, n in ex.globals:
                toks, c = rewrite(toks, o.strip(), n.strip())
                if c:
                    g = 'in every function: `%s` => `%s`' % (o, n)
                    if g not in ex.rewrites: ex.rewrites.append(g)
            return toks
        if not stub:
            helpers.used = []; ex.soften = []
            body = helpers.expand(body)
            for h in helpers.used: ex.rewrites.append('%s: calls of the new function %s are inlined' % (name, h))
            for o, n, why in FIXED:
                body, c = rewrite(body, o, n)
                if c: ex.rewrites.append('%s: %s' % (name, why))
            for d, b in subs:
                if d.startswith('//@rewrite'): body = do_rewrite(ex, body, d, name)
            body = glob(body, name)
            for d, b in subs:
                b = '\n'.join(b)
                m2 = re.match(r'//@loop (\d+)$', d)
                if m2: inv[int(m2.group(1))] = b
                elif re.match(r'//@(at|before|after) ', d): ats.append((d, b))
            lp = loops(body)
            nl = len(lp)
            lost_loops = nl != len(inv)
            if lost_loops:
                why = '%d loops in the code, contracts for %d' % (nl, len(inv))
                if not ex.tolerant: raise Lost('%s: %s' % (name, why))
                ex.soften.append(why); inv = {}
            ins = []                       # (token index, order, text)
            if vacuity: ins.append((1, 2, 'proof { assert(false); }'))
            for n, t in inv.items(): ins.append((lp[n-1][1], 0, '\n' + t + '\n'))
            for d, t in ats:
                w = d.split(None, 2)
                if w[0] == '//@at':
                    if w[1] == 'start': ins.append((1, 1, t))
                    else:
                        n = int(w[2])
                        if lost_loops: continue
                        if n > nl: raise Lost('%s: loop %d is gone' % (name, n))
                        a, o, c = lp[n-1]
                        ins.append({'loopstart': (o+1, 1, t), 'loopend': (c, 1, t),
                                    'beforeloop': (stmt_start(body, a), 1, t), 'afterloop': (c+1, 1, t)}[w[1]])
                else:
                    try: a, e = find_stmt(body, d.split(None, 1)[1])
                    except Lost as x:
                        if not ex.tolerant: raise
                        ex.soften.append(str(x))
                        if not x.hits: continue
                        a, e = x.hits[-1]
                    if w[0] == '//@before': ins.append((stmt_start(body, a), 1, t))
                    else: ins.append((stmt_end(body, a), 1, t))
            nb = []
            ins.sort(key=lambda x: (x[0], x[1]))
            k = 0
            for idx in range(len(body) + 1):
                while k < len(ins) and ins[k][0] == idx:
                    nb.append(T('raw', '\n' + ins[k][2] + '\n')); k += 1
                if idx < len(body): nb.append(body[idx])
            btxt = text(nb)
        else:
            btxt = ' { unimplemented!() }'
            attrs.append('#[verifier::external_body]' + (' /* contract of group %s */' % elsewhere if elsewhere else ''))
            if elsewhere: ex.uses.add(elsewhere)
            elif not force: ex.assumed.append('%s%s (%s)' % (impl + ' :: ' if impl else '', name, rel))
        if not stub and ex.soften: ex.soft[(impl + ' :: ' if impl else '') + name] = '; '.join(ex.soften)
        sig = glob(sig, name)
        stxt = sig_text(sig, ret)
        a = len(ex.out) + 1
        emit('\n'.join(attrs) + ('\n' if attrs else '') + stxt + '\n' + contract + '\n' + btxt.lstrip('\n'))
        if not elsewhere: ex.fns.append(dict(name=name, impl=impl, file=rel, line=src_line, first=a, last=len(ex.out), stub=stub, forced=force,
                           props=props, key=(impl + ' :: ' if impl else '') + name))
        ex.log.append('fn %s :: %s%s' % (rel, impl + ' :: ' if impl else '', name))

    run(template)
    return ex

def do_rewrite(ex, toks, d, name):
    opt = d.startswith('//@rewrite? ')
    o, n = d.split(None, 1)[1].split(' => ', 1)
    toks, c = rewrite(toks, o.strip(), n.strip())
    m = re.match(r'(for .* in )(& mut |& |)([\w$ .]+?)( \{)?$', o.strip())
    if c == 0 and m:
        # the same loop, written with the method which it calls (both are under contract, or the standard library's)
        for it in {'& mut ': ['iter_mut'], '& ': ['iter'], '': ['iter', 'into_iter']}[m.group(2)]:
            if c == 0 and '..' not in m.group(3).replace(' ', ''): toks, c = rewrite(toks, m.group(1) + m.group(3) + ' . %s ( )' % it + (m.group(4) or ''), n.strip())
    if c == 0 and not opt:
        if not ex.tolerant: raise Lost('%s: rewrite `%s` matches nothing' % (name, o))
        ex.soften.append('the rewrite `%s` matches nothing' % o)
    if c: ex.rewrites.append('%s: `%s` => `%s` (%d)' % (name, o, n, c))
    return toks

def sig_text(sig, ret):
    """`-> T` becomes `-> (r: T)`"""
    if ret is None: return text(sig).strip()
    for i in range(len(sig) - 1):
        if sig[i].s == '-' and sig[i+1].s == '>' and depth0(sig, i):
            j = i + 2
            e = j
            while e < len(sig) and sig[e].s != 'where':
                e = match(sig, e) + 1 if sig[e].k == 'p' and sig[e].s in OPEN else e + 1
            return text(sig[:i+2]) .strip() + ' (' + ret + ': ' + text(sig[j:e]).strip() + ') ' + text(sig[e:]).strip()
    raise Lost('no return type')

def depth0(sig, i):
    d = 0
    for t in sig[:i]:
        if t.k == 'p' and t.s in OPEN: d += 1
        elif t.k == 'p' and t.s in CLOSE: d -= 1
    return d == 0
