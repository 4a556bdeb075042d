"""Verus stage: mechanical extraction of functions from /repo and their verification.

A unit file (/verif/verus/NAME.rs) is Verus text with directives, each on lines of its own:

  //@const FILE | NAME [| value]       the constant's declaration, copied from the source (value: with its integer expression evaluated)
  //@struct FILE | NAME                the struct's declaration, copied (fields made public)
  //@fn FILE | CONTAINER | NAME        the function, copied; CONTAINER is '-' or an impl header
    //@ret r                           name of the return value
    //@spec                            following lines: contract, put between signature and body
    //@loop N                          following lines: invariants of the N-th loop (source order)
    //@guard N EXPR                  the condition of the N-th loop, for when it is written loop { .. break .. }
    //@at start|end|tail|loop N start|loop N end|loop N exits|after loop N   following lines: proof text put there
    //@subst /REGEX/ => TEXT -- REASON     rewriting of the copied text; must match
    //@subst? ...                      the same, need not match
    //@sig TEXT -- REASON              replaces the signature (types the verifier cannot see)
    //@trait                         a method of a trait (stays without 'pub')
    //@arr                           uses of arr!([NAME; N]) are written out
    //@expand FILE | NAME              uses of macro_rules NAME are expanded in place
  CONTAINER 'macro M': the function that the invocation M!(.. NAME ..) makes
  //@end

Everything else is taken over as written. What the extraction drops or rewrites is
reported in the evidence. Comments and attributes are dropped.
"""
import json, os, re, subprocess, time, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
TRUSTED_COMMON = ['Verus and Z3 are sound; vstd specifications of the standard library',
                  'the extraction (bin/vx.py) copies function text faithfully, dropping comments and attributes and applying only the rewritings listed under verus.rewritings']


class Lost(Exception):
    """the code is no longer where or what the contract is written for"""


def mask(t):
    """the text with comments and the contents of literals blanked, same length"""
    out = list(t)
    i, n = 0, len(t)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif t.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith('/*', j):
                    d += 1
                    j += 2
                elif t.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif t[i] == '"' or re.match(r'(b?r#*"|b")', t[i:i + 8]) and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] == '_')):
            m = re.match(r'b?r(#*)"', t[i:])
            if m:
                e = t.find('"' + m.group(1), i + m.end())
                j = n if e < 0 else e + 1 + len(m.group(1))
            else:
                j = i + (2 if t[i] == 'b' else 1)
                while j < n and t[j] != '"':
                    j += 2 if t[j] == '\\' else 1
                j += 1
            blank(i + 1, j - 1)
            i = j
        elif t[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", t[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


def close(m, i):
    """index of the bracket matching the opening one at i, in masked text"""
    o = m[i]
    c = {'{': '}', '(': ')', '[': ']'}[o]
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise Lost('unbalanced brackets')


def tail_at(body):
    """where the last expression of a block begins (its end if the block has none)"""
    m = mask(body)
    d, at, last = 0, 1, 1
    for k, c in enumerate(m):
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            rest = m[k + 1:-1].strip()
            if c == '}' and d == 1 and rest and not re.match(r'[.;,?)=<>&|+*/-]|else\b|as\b', rest):
                at, last = k + 1, at
        elif c == ';' and d == 1:
            at, last = k + 1, at
    if m[at:-1].strip():
        return at
    return last if re.match(r'return\b', m[last:].lstrip()) else len(body) - 1


def norm(s):
    return re.sub(r'\s*([<>&,:()\[\]])\s*', r'\1', re.sub(r'\s+', ' ', s.strip()))


def body_open(m, i, end):
    """the first { at bracket depth 0 from i"""
    d = 0
    for k in range(i, end):
        if m[k] in '([':
            d += 1
        elif m[k] in ')]':
            d -= 1
        elif m[k] == '{' and d == 0:
            return k
        elif m[k] == ';' and d == 0:
            return None
    return None


def strip_comments(t):
    m = mask(t)
    out = []
    for a, b in zip(t, m):
        out.append(a)
    # blank comments only (literals stay): a comment is where mask blanks and the text starts // or /*
    i, n = 0, len(t)
    res = []
    while i < n:
        if m[i] == ' ' and t.startswith('//', i):
            j = t.find('\n', i)
            i = n if j < 0 else j
        elif m[i] == ' ' and t.startswith('/*', i):
            while i < n and m[i] in ' \n' and not t.startswith('*/', i):
                i += 1
            i += 2
        else:
            res.append(t[i])
            i += 1
    return ''.join(res)


def split_args(t):
    m = mask(t)
    args, d, st = [], 0, 0
    for k in range(len(m) + 1):
        if k == len(m) or m[k] == ',' and d == 0:
            args.append(t[st:k].strip())
            st = k + 1
        elif m[k] in '([{':
            d += 1
        elif m[k] in ')]}':
            d -= 1
    if args and args[-1] == '':
        args.pop()
    return args


def instantiate(name, arms, args):
    """the first arm that fits, its parameters replaced"""
    for pars, text, br in arms:
        if len(pars) != len(args) or any(p == '=' and v != a for (p, v), a in zip(pars, args)):
            continue
        for (p, kind), a in sorted(zip(pars, args), key=lambda x: -len(x[0][0])):
            if p == '=':
                continue
            if kind == 'expr' and not re.fullmatch(r'[\w.!]+(\([^()]*\))?', a):
                a = '(' + a + ')'
            text = re.sub(r'\$%s\b' % p, lambda _: a, text)
        return text, br
    raise Lost('macro %s: no arm for %r' % (name, args))


class Source:
    cache = {}

    def __init__(self, f):
        p = os.path.join(REPO, f)
        try:
            self.t = open(p, encoding='utf-8').read()
        except OSError:
            raise Lost('no file ' + f)
        self.m = mask(self.t)

    def const(self, name):
        r = re.search(r'(?:pub(?:\([^)]*\))?\s+)?(const|static)\s+%s\s*:' % re.escape(name), self.m)
        if not r:
            raise Lost('no constant ' + name)
        d, k = 0, r.end()
        while k < len(self.m):
            if self.m[k] in '([{':
                d += 1
            elif self.m[k] in ')]}':
                d -= 1
            elif self.m[k] == ';' and d == 0:
                break
            k += 1
        return strip_comments(self.t[r.start():k + 1])

    def struct(self, name):
        r = re.search(r'(?:pub(?:\([^)]*\))?\s+)?(struct|enum)\s+%s\b' % re.escape(name), self.m)
        if not r:
            raise Lost('no struct ' + name)
        o = body_open(self.m, r.start(), len(self.m))
        if o is None:
            raise Lost('struct %s has no fields' % name)
        c = close(self.m, o)
        return strip_comments(self.t[r.start():c + 1])

    def macro(self, name):
        """arms of a macro_rules without repetitions: ([parameter or ('=', literal)], body, brace)"""
        r = re.search(r'\bmacro_rules!\s*%s\s*\{' % re.escape(name), self.m)
        if not r:
            raise Lost('no macro ' + name)
        o = r.end() - 1
        c = close(self.m, o)
        arms, k = [], o + 1
        while True:
            g = re.compile(r'[\s;]*([({\[])').match(self.m, k, c)
            if not g:
                break
            p = g.start(1)
            pc = close(self.m, p)
            g = re.compile(r'\s*=>\s*([({\[])').match(self.m, pc + 1, c)
            if not g:
                raise Lost('macro %s: arm not understood' % name)
            b = g.start(1)
            bc = close(self.m, b)
            if '$(' in self.m[p:bc]:
                raise Lost('macro %s has repetitions' % name)
            pars = []
            for x in split_args(strip_comments(self.t[p + 1:pc])):
                q = re.match(r'\$(\w+)\s*:\s*(\w+)$', x)
                pars.append((q.group(1), q.group(2)) if q else ('=', x))
            arms.append((pars, strip_comments(self.t[b + 1:bc]), self.m[b]))
            k = bc + 1
        if not arms:
            raise Lost('macro %s has no arms' % name)
        return arms

    def macro_fn(self, macro, name):
        """the function NAME that an invocation MACRO!(.. NAME ..) makes"""
        arms = self.macro(macro)
        for r in re.finditer(r'\b%s!\s*([({])' % re.escape(macro), self.m):
            o = r.start(1)
            args = split_args(self.t[o + 1:close(self.m, o)])
            if name in args:
                text, br = instantiate(macro, arms, args)
                text = re.sub(r'#\[[^\]]*\]', '', text)
                m = mask(text)
                q = re.search(r'\bfn\s+%s\b' % re.escape(name), m)
                if not q:
                    raise Lost('%s! does not make fn %s' % (macro, name))
                b = body_open(m, q.start(), len(m))
                return text[q.start():b].strip(), text[b:close(m, b) + 1]
        raise Lost('no use of %s! for %s' % (macro, name))

    def fn(self, container, name):
        """(signature text from 'fn', body text with braces)"""
        spans = []
        if container == '-':
            spans = [(0, len(self.m))]
        else:
            want = norm(container)
            for r in re.finditer(r'\b(impl|trait)\b', self.m):
                o = body_open(self.m, r.start(), len(self.m))
                if o is None:
                    continue
                if norm(self.m[r.start():o]) == want:
                    spans.append((o + 1, close(self.m, o)))
            if not spans:
                raise Lost('no ' + container)
        hits = []
        for a, b in spans:
            for r in re.finditer(r'\bfn\s+%s\b' % re.escape(name), self.m[a:b]):
                s = a + r.start()
                # depth inside the container must be zero
                if self.m[a:s].count('{') != self.m[a:s].count('}'):
                    continue
                o = body_open(self.m, s, b)
                if o is None:
                    continue
                hits.append((s, o, close(self.m, o)))
        if len(hits) != 1:
            raise Lost('%d functions %s in %s' % (len(hits), name, container))
        s, o, c = hits[0]
        return strip_comments(self.t[s:o]).strip(), strip_comments(self.t[o:c + 1])


KNOWN = None


def declared(m):
    """names of the functions and constants that masked source text declares"""
    return sorted(set(re.findall(r'\b(?:fn|const|static)\s+(\w+)', m)))


def known(f):
    """those the file had when the contracts were written (bin/known.json, by bin/mkknown.py)"""
    global KNOWN
    if KNOWN is None:
        KNOWN = {k: set(v) for k, v in json.load(open(os.path.join(HERE, 'known.json'))).items()}
    return KNOWN.get(f, set())


def source_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.relpath(os.path.join(d, x), REPO) for x in fs if x.endswith('.rs')]
    return sorted(out)


def no_returns(body):
    """a block whose early returns are 'if C { .. return X; }' statements of its own, with them turned
    into if/else; None where that is not enough"""
    inner = body[1:-1]
    m = mask(inner)
    if not re.search(r'\breturn\b', m):
        return None if '?' in m else body
    # the first top-level 'if' statement that has a return in it
    d = 0
    for r in re.finditer(r'[{}()\[\]]|\bif\b|\breturn\b', m):
        c = r.group(0)
        if c in '{([':
            d += 1
        elif c in '})]':
            d -= 1
        elif c == 'return' and d == 0:
            e = m.index(';', r.end()) if ';' in m[r.end():] else len(m)
            return no_returns_ok('{' + inner[:r.start()] + inner[r.end():e] + '}') if not m[e + 1:].strip() else None
        elif c == 'if' and d == 0:
            if re.search(r'\belse\s*$|=\s*$', m[:r.start()]):
                continue
            o = body_open(m, r.end(), len(m))
            if o is None:
                return None
            e = close(m, o)
            if 'return' not in m[o:e]:
                continue
            if m[e + 1:].lstrip().startswith('else'):
                return None
            t = inner[o + 1:e].rstrip().rstrip(';')
            k = mask(t).rfind('return')
            if mask(t).count('return') != 1 or mask(t)[k:].count(';') or mask(t)[:k].count('{') != mask(t)[:k].count('}'):
                return None
            rest = no_returns('{' + inner[e + 1:] + '}')
            if rest is None:
                return None
            return no_returns_ok('{' + inner[:o] + '{' + t[:k] + t[k + 6:] + '} else ' + rest + '}')
    return None


def no_returns_ok(b):
    m = mask(b)
    return None if '?' in m or re.search(r'\breturn\b', m) else b


def loops(body):
    """[(keyword index, brace index, closing index)] in source order"""
    m = mask(body)
    out = []
    for r in re.finditer(r'\b(while|loop|for)\b', m):
        if r.group(1) == 'for' and m[r.end():].lstrip().startswith('<'):
            continue
        o = body_open(m, r.end(), len(m))
        if o is None:
            continue
        out.append((r.start(), o, close(m, o)))
    return out


class Unit:
    def __init__(self, name, smoke=False, forms=None, missing=()):
        # forms: function -> which of the contracts' alternative forms is meant (`//@loop 0 or`, for a loop written
        # the other way); missing: locals named in invariants that the current text does not have
        self.name, self.smoke, self.forms, self.missing, self.alts = name, smoke, forms or {}, missing, set()
        # places of contracts (loops, proof text, rewritings) that the current text of a function does not have: the
        # unit is tried without them, and what the verifier then does not accept is undecided, not failed
        self.lost = []
        self.fns, self.rewrites = [], []
        self.smokes = 0
        self.new = None
        self.text = self.constants(self.expand(open(os.path.join(VERIF, 'verus', name + '.rs')).read()))

    def source(self, f):
        k = (REPO, f)
        if k not in Source.cache:
            Source.cache[k] = Source(f)
        return Source.cache[k]

    def expand(self, t):
        lines = t.splitlines()
        out, i = [], 0
        while i < len(lines):
            l = lines[i].strip()
            if l.startswith('//@include '):
                out.append(self.expand(open(os.path.join(VERIF, 'verus', l.split()[1])).read()))
            elif l.startswith('//@const '):
                f, n = [x.strip() for x in l[9:].split('|')][:2]
                c = self.source(f).const(n)
                if l.endswith('| value'):
                    # names of other constants of the file stand for their expressions
                    for _ in range(5):
                        h, e = c.split('=', 1)
                        k = re.search(r'\b[A-Z][A-Z0-9_]+\b', e)
                        if not k:
                            break
                        try:
                            v = self.source(f).const(k.group(0)).split('=', 1)[1].strip().rstrip(';')
                        except Lost:
                            break
                        c = h + '=' + re.sub(r'\b%s\b' % k.group(0), '(' + v.strip() + ')', e)
                r = re.match(r'(.*=)\s*([\d_\s()<>+*|&^-]+);\s*$', c, re.S) if l.endswith('| value') else None
                if r and re.search(r'[^\d_\s]', r.group(2)):
                    # integer literals and operators only: + - * << >> & ^ | bind alike in Rust and Python
                    c = '%s %d;' % (r.group(1), eval(r.group(2)))
                    self.rewrites.append('%s: the constant expression replaced by its value' % n)
                c = re.sub(r'^(pub(\([^)]*\))?\s+)?(const|static)\b', 'pub const', c)
                out.append(c)
            elif l.startswith('//@struct '):
                f, n = [x.strip() for x in l[10:].split('|')]
                subs = []
                while lines[i + 1].strip().startswith('//@subst'):
                    i += 1
                    subs.append(lines[i].strip())
                c = self.source(f).struct(n)
                for s in subs:
                    c = self.subst(s, c, n)
                c = re.sub(r'^(pub(\([^)]*\))?\s+)?(struct|enum)\b', r'pub \3', c)
                c = re.sub(r'([{,]\s*)(?:pub(?:\([^)]*\))?\s+)?(\w+\s*:[^:])', r'\1pub \2', c) if 'enum' not in c.split('{')[0] else c
                out.append(c)
            elif l.startswith('//@fn '):
                f, cont, n = [x.strip() for x in l[6:].split('|')]
                secs, cur = [], None
                i += 1
                while lines[i].strip() != '//@end':
                    s = lines[i].strip()
                    if s.startswith('//@'):
                        cur = [s[3:], []]
                        secs.append(cur)
                    elif cur is not None:
                        cur[1].append(lines[i])
                    i += 1
                out.append(self.function(f, cont, n, secs))
            else:
                out.append(lines[i])
            i += 1
        return '\n'.join(out)

    def subst(self, d, text, where):
        r = re.match(r'(?://@)?subst(\??) /(.*)/ => (.*?)(?: -- (.*))?$', d)
        if not r:
            raise Exception('bad subst: ' + d)
        new, k = re.subn(r.group(2), r.group(3), text, flags=re.S)
        if k == 0 and not r.group(1):
            raise Lost('%s: nothing matches %s' % (where, r.group(2)))
        if k:
            self.rewrites.append('%s: /%s/ => %s (%s)' % (where, r.group(2), r.group(3), r.group(4) or 'no change of meaning'))
        return new

    def new_items(self):
        """functions and constants the contracts know nothing of: name -> [(file, kind)]"""
        if self.new is None:
            self.new = {}
            for f in source_files():
                src = self.source(f)
                for n in set(declared(src.m)) - known(f):
                    for r in re.finditer(r'\b(fn|const)\s+%s\b' % re.escape(n), src.m):
                        self.new.setdefault(n, []).append((f, r.group(1), r.start()))
        return self.new

    def inline(self, where, body):
        """calls of functions the contracts know nothing of (helpers added since) are replaced by the body of
        the helper, its parameters bound to the arguments; what does not fit is left as it is"""
        fns = {n: v[0] for n, v in self.new_items().items() if len(v) == 1 and v[0][1] == 'fn'}
        if not fns:
            return body
        call = re.compile(r'(?:\b((?:\w+\.)+)|\b((?:\w+::)+))?\b(%s)\s*(?:::<[^()]*>)?\(' % '|'.join(map(re.escape, fns)))
        done = 0
        for _ in range(12):
            at, todo = 0, None
            m = mask(body)
            while True:
                r = call.search(m, at)
                if not r:
                    break
                at = r.end()
                t = self.inlined(fns[r.group(3)], r.group(3), r.group(1), body, m, r)
                if t is not None:
                    todo = t
                    break
            if todo is None:
                break
            self.rewrites.append('%s: the new function %s inlined at its call' % (where, r.group(3)))
            body = todo
        return body

    def inlined(self, at, name, recv, body, m, r):
        f, _, s = at
        src = self.source(f)
        if m[:r.start()].rstrip().endswith(('.', 'fn')):
            return None
        o = body_open(src.m, s, len(src.m))
        if o is None:
            return None
        sig, hb = strip_comments(src.t[s:o]), strip_comments(src.t[o:close(src.m, o) + 1])
        hb = re.sub(r'#\[[^\]]*\]', '', hb)
        sm = mask(sig)
        p = sm.index('(', sm.index(name))
        generic = '<' in sm[:p] or "'" in sig
        pars = split_args(sig[p + 1:close(sm, p)])
        ac = close(m, r.end() - 1)
        args = split_args(body[r.end():ac])
        takes_self = bool(pars and re.match(r"(&\s*('\w+\s+)?)?(mut\s+)?self\b", pars[0]))
        if takes_self:
            if not recv or re.match(r'mut\s+self', pars[0]):
                return None
            recv = recv.rstrip('.')
            pars = pars[1:]
            if recv != 'self':
                hb = re.sub(r'\bself\b', recv, hb)
        elif recv:
            return None
        if len(pars) != len(args) or re.search(r'\b%s\s*\(' % re.escape(name), mask(hb)):
            return None
        hm = mask(hb)
        if re.search(r'\breturn\b|\?', hm):
            pre, post = m[:r.start()], m[ac + 1:]
            inloop = any(a < r.start() < c for a, o2, c in loops(body))
            tail = re.search(r'\breturn\s*$', pre) and post.lstrip().startswith(';') or (not inloop and not re.search(r'\|[^|]*\|\s*$', pre) and re.fullmatch(r'[\s}]*', post))
            q = post.lstrip().startswith('?') and not re.search(r'\breturn\b(?!\s*Err\b)', hm)
            if not tail and not q:
                hb = no_returns(hb)
                if hb is None:
                    return None
        lets, binds = '', ''
        plain = re.compile(r"(&\s*)?(mut\s+)?(\[\s*)?(u8|u16|u32|u64|usize|i32|i64|isize|bool|str|char|Slice|String|Vec<\w+>)(\s*\])?")
        for i, (x, a) in enumerate(zip(pars, args)):
            pat, _, ty = x.partition(':')
            # the types of pointers are written otherwise in some units
            lets += ' let vx_i%d%s = %s;' % (i, ': ' + ty.strip() if plain.fullmatch(ty.strip()) and not generic else '', a)
            binds += ' let %s = vx_i%d;' % (pat.strip(), i)
        t = '{' + lets + binds + hb[1:]
        return body[:r.start()] + t + body[ac + 1:]

    def constants(self, t):
        """constants added since, where the text names them"""
        add = ''
        for n, v in self.new_items().items():
            if len(v) == 1 and v[0][1] == 'const' and re.search(r'\b%s\b' % re.escape(n), t) and not re.search(r'\bconst\s+%s\b' % re.escape(n), t):
                t = re.sub(r'\b\w+::%s\b' % re.escape(n), n, t)
                c = self.source(v[0][0]).const(n)
                add += re.sub(r'^(pub(\([^)]*\))?\s+)?const\b', 'pub const', c) + '\n'
        return t.replace('verus! {\n', 'verus! {\n' + add, 1) if add else t

    def expand_macro(self, body, name, arms):
        while True:
            m = mask(body)
            r = re.search(r'\b%s!\s*[({]' % re.escape(name), m)
            if not r:
                return body
            o = r.end() - 1
            c = close(m, o)
            t, br = instantiate(name, arms, split_args(body[o + 1:c]))
            e = c + 1
            if br == '{' and m[e:].lstrip().startswith(';'):
                e = m.index(';', e) + 1
            t = '{' + t + '}' if br == '{' else '(' + t + ')'
            body = body[:r.start()] + t + body[e:]

    def without(self, ls):
        """a loop's clauses without the conjuncts about locals that are no longer there"""
        t = '\n'.join(ls)
        m = mask(t)
        names = re.compile(r'\b(%s)\b' % '|'.join(map(re.escape, self.missing)))
        if not names.search(m):
            return ls
        cuts, d = [], 0
        for i, ch in enumerate(m):
            d += ch in '([{'
            d -= ch in ')]}'
            if ch == ',' and d == 0:
                cuts.append(i)
        out, a = '', 0
        for c in cuts + [len(t)]:
            x = t[a:c + 1]
            k = re.match(r'\s*(invariant_except_break|invariant|ensures|decreases)\b', x)
            if names.search(x):
                if k and k.group(1) == 'decreases' or re.search(r'\bdecreases\b', x):
                    raise Lost('the measure is about a local that is gone')
                x = k.group(0) + ' ' if k else ''
            out += x
            a = c + 1
        return out.split('\n')

    def function(self, f, cont, name, secs):
        try:
            if cont.startswith('macro '):
                sig, body = self.source(f).macro_fn(cont.split()[1], name)
                self.rewrites.append('%s: the text that %s! makes for it' % (name, cont.split()[1]))
            else:
                sig, body = self.source(f).fn(cont, name)
        except Lost as e:
            raise Lost('%s: %s' % (f, e))
        body = self.inline(name, body)
        for h, ls in secs:
            if re.search(r' or$', h):
                self.alts.add(name)
        if self.forms.get(name):
            other = {h[:-3] for h, ls in secs if h.endswith(' or')}
            secs = [(h[:-3] if h.endswith(' or') else h, ls) for h, ls in secs if h not in other]
            self.rewrites.append('%s: the contract\'s form for the loop as it is now written' % name)
        else:
            secs = [(h, ls) for h, ls in secs if not h.endswith(' or')]
        if self.missing:
            secs = [(h, self.without(ls) if re.match(r'loop \d+$', h) else ls) for h, ls in secs]
        ret = None
        sigsub = None
        vis = 'pub '
        label = name
        for h, ls in secs:
            if h.startswith('ret '):
                ret = h[4:].strip()
            elif h.startswith('sig '):
                sigsub, _, why = h[4:].partition(' -- ')
                self.rewrites.append('%s: signature written as %s (%s)' % (name, sigsub.strip(), why))
            elif h.startswith('expand '):
                mf, mn = [x.strip() for x in h[7:].split('|')]
                body = self.expand_macro(body, mn, self.source(mf).macro(mn))
                body = self.inline(name, body)
                self.rewrites.append('%s: macro %s! expanded in place, as the compiler does' % (name, mn))
            elif h == 'trait':
                vis = ''
            elif h == 'arr':
                body = re.sub(r'\barr!\(\[\s*(\w+)\s*;\s*(\d+)\s*\]\)', lambda r: '[' + ', '.join('%s!(%dusize, capacity, default_length)' % (r.group(1), i) for i in range(int(r.group(2)))) + ']', body)
                self.rewrites.append('%s: arr!([NAME; N]) written out as the N uses of NAME! it stands for' % name)
            elif h.startswith('subst'):
                whole = sig + '\x00' + body
                try:
                    whole = self.subst(h, whole, name)
                except Lost as e:
                    self.lost.append(str(e))
                sig, body = whole.split('\x00')
        if sigsub:
            sig = sigsub.strip()
        elif ret:
            if '->' not in mask(sig):
                raise Lost(name + ' returns nothing')
            k = sig.rindex('->') if sig.count('->') == 1 else mask(sig).rindex('->')
            sig = sig[:k] + '-> (%s: %s)' % (ret, sig[k + 2:].strip())
        spec = ''
        lp = loops(body)
        ins = []    # (index, text)
        used = set()

        def need(k):
            if k >= len(lp):
                raise Lost('%s has %d loops, contract written for loop %d' % (name, len(lp), k))
            used.add(k)
            return lp[k]
        guards = {int(h.split()[1]): h.split(None, 2)[2] for h, ls in secs if h.startswith('guard ')}

        def place(h, txt):
            """[(index, text)] for one section of the contract"""
            if re.match(r'loop \d+$', h):
                k = need(int(h.split()[1]))
                if int(h.split()[1]) in guards and re.match(r'loop\b', body[k[0]:]):
                    g = guards[int(h.split()[1])]
                    if not re.match(r'\s*if\b[^{]*\{\s*break\b', mask(body)[k[1] + 1:]):
                        txt = re.sub(r'\binvariant\b', 'invariant_except_break %s,\n        invariant' % g, txt, count=1)
                    txt = re.sub(r'\n(\s*)decreases\b', '\n        ensures !(%s),\n        decreases' % g, txt, count=1) if not re.search(r'\bensures\b', txt) else txt
                return [(k[1], '\n' + txt + '\n')]
            if not h.startswith('at '):
                return []
            w = h[3:].strip()
            txt = '\n' + txt + '\n'
            if w == 'start':
                return [(1, txt)]
            if w == 'tail':
                return [(tail_at(body), txt)]
            if w == 'end':
                return [(len(body) - 1, txt)]
            if re.match(r'loop \d+ start$', w):
                return [(need(int(w.split()[1]))[1] + 1, txt)]
            if re.match(r'loop \d+ end$', w):
                return [(need(int(w.split()[1]))[2], txt)]
            if re.match(r'loop \d+ exits$', w):
                a, o, c = need(int(w.split()[1]))
                return [(c, txt)] + [(r.start(), txt) for r in re.finditer(r'\b(break|continue)\b', mask(body))
                                     if o < r.start() < c and not any(o < o2 < r.start() < c2 for _, o2, c2 in lp)]
            if re.match(r'after loop \d+$', w):
                return [(need(int(w.split()[2]))[2] + 1, txt)]
            if re.match(r'before loop \d+$', w):
                return [(need(int(w.split()[2]))[0], txt)]
            if w.startswith('before each /'):
                rx = w[w.index('/') + 1:w.rindex('/')]
                ms = list(re.finditer(rx, body))
                if not ms:
                    raise Lost('%s: no place matches /%s/' % (name, rx))
                return [(m.start(), txt) for m in ms]
            if w.startswith('after /') or w.startswith('before /'):
                rx = w[w.index('/') + 1:w.rindex('/')]
                ms = list(re.finditer(rx, body))
                if len(ms) != 1:
                    raise Lost('%s: %d places match /%s/' % (name, len(ms), rx))
                return [(ms[0].end() if w.startswith('after') else ms[0].start(), txt)]
            raise Exception('bad place: ' + w)
        for h, ls in secs:
            txt = '\n'.join(ls)
            if h == 'spec':
                spec = txt
                continue
            try:
                ins += place(h, txt)
            except Lost as e:
                self.lost.append(str(e))
        if len(used) < len(lp):
            self.lost.append('%s has %d loops, contract covers %d' % (name, len(lp), len(used)))
        if self.smoke:
            for a, o, c in lp:
                ins.append((o + 1, '\nif vx_nondet() { assert(false); /*SMOKE %s loop*/ }\n' % name))
                self.smokes += 1
            ins.append((1, '\nif vx_nondet() { assert(false); /*SMOKE %s entry*/ }\n' % name))
            self.smokes += 1
        # stable: for equal indices keep the order given
        for k, (pos, txt) in sorted(enumerate(ins), key=lambda x: (x[1][0], x[0]), reverse=True):
            body = body[:pos] + txt + body[pos:]
        self.fns.append('%s %s::%s' % (f, cont, name) if cont != '-' else '%s %s' % (f, name))
        return '%s%s\n%s\n%s' % (vis, sig, spec, body)


FAILED = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic (under|over)flow|'
                    r'possible division by zero|decreases not satisfied|possible bit shift|unreachable|constructed value may fail|recommendation not met|'
                    r'assertion not satisfied|termination|cannot show|ensures not satisfied|loop invariant|index out of bounds|precondition of', re.I)
SOFT = re.compile(r'rlimit|resource limit|timed? ?out|not supported|unsupported|The verifier does not yet support|cannot find|mismatched types|expected', re.I)


def fn_at(lines, ln):
    for k in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.search(r'\bfn\s+(\w+)', lines[k])
        if m:
            return m.group(1)
    return '?'


def assumes(f):
    """the //@assume lines of a unit and of what it includes"""
    out = []
    for l in open(os.path.join(VERIF, 'verus', f)).read().splitlines():
        l = l.strip()
        if l.startswith('//@assume '): out.append(l[10:])
        if l.startswith('//@include '): out += assumes(l.split()[1])
    return out


class Verus:
    def __init__(self, pid, tier, specs, work):
        self.pid, self.tier, self.specs, self.work = pid, tier, specs, work
        self.cmd = 'verus UNIT.rs --output-json --time --multiple-errors 20 -- --error-format=json' if specs else None
        self.res = {}
        self._failed, self._undecided = [], []
        self.out = ''

    def run(self):
        if not self.specs:
            return
        os.makedirs(self.work, exist_ok=True)
        for s in self.specs:
            forms, missing, first = {}, set(), None
            for attempt in range(4):
                mark = len(self._failed), len(self._undecided), len(self.out)
                try:
                    u = Unit(s, forms=forms, missing=missing)
                    sm = Unit(s, smoke=True, forms=forms, missing=missing)
                except Lost as e:
                    self._undecided.append((s, 'lost anchor: %s' % e))
                    u = None
                except RecursionError as e:
                    self._undecided.append((s, repr(e)))
                    u = None
                if u is None:
                    if first:
                        # what the first attempt said stands
                        self._undecided = self._undecided[:mark[1]] + first[2]
                        self._failed += first[1]
                        self.res[s] = first[0]
                        self.out += first[3]
                    break
                self.attempt(s, u, sm)
                failed, und = self._failed[mark[0]:], self._undecided[mark[1]:]
                raw = list(failed)
                if u.lost:
                    if failed or und:
                        # the first line tells what the contract was written for and is not there
                        del self._failed[mark[0]:], self._undecided[mark[1]:]
                        self._undecided += [(s, 'lost anchor: ' + '; '.join(u.lost))] + [(s, 'without it: %s %s' % x) for x in failed + und]
                        self.res[s]['status'] = 'undecided'
                    else:
                        self.res[s]['rewritings'] = self.res[s].get('rewritings', []) + ['not needed for the text as it is now: ' + x for x in u.lost]
                    failed, und = self._failed[mark[0]:], self._undecided[mark[1]:]
                if not failed and not und:
                    break
                if first is None:
                    first = (self.res[s], failed, und, self.out[mark[2]:])
                gone = {n for x in und + failed for n in re.findall(r'cannot find value `(\w+)`', x[1])} - missing
                alt = {x[0].split('::')[-1] for x in raw} & u.alts - set(forms)
                del self._failed[mark[0]:], self._undecided[mark[1]:]
                self.out = self.out[:mark[2]]
                if attempt < 3 and (gone or alt):
                    missing = missing | gone
                    forms = dict(forms, **{x: 1 for x in alt})
                    continue
                # nothing else to try: the first account stands
                self.res[s] = first[0]
                self._failed += first[1]
                self._undecided += first[2]
                self.out += first[3]
                break
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)

    def attempt(self, s, u, sm):
        fn = os.path.join(self.work, s + '.rs')
        open(fn, 'w').write(u.text)
        fs = os.path.join(self.work, s + '_smoke.rs')
        # the lemmas are settled by the main run
        st = re.sub(r'^(\s*)pub proof fn', r'\1#[verifier::external_body] pub proof fn', sm.text, flags=re.M)
        k = st.rindex('} // verus!')
        open(fs, 'w').write(st[:k] + '\n#[verifier::external_body] fn vx_nondet() -> bool { unimplemented!() }\n' + st[k:])
        ps = [(fn, self.start(fn)), (fs, self.start(fs, '2'))]
        r = dict(unit=s, functions=u.fns, rewritings=u.rewrites, assumed=assumes(s + '.rs'))
        j, diags, err = self.finish(ps[0][1])
        j2, diags2, err2 = self.finish(ps[1][1])
        self.res[s] = r
        self.judge(s, r, j, diags, err, u.text)
        # vacuity: every inserted assert(false) must be reported
        if j is not None and not [x for x in self._failed if x[0].startswith(s)]:
            lines = sm.text.splitlines()
            hit, lim = set(), set()
            for d in diags2:
                if 'esource limit' in d.get('message', ''):
                    for sp in d.get('spans', []):
                        lim.add(fn_at(lines, sp.get('line_start', 0)))
                for sp in d.get('spans', []):
                    ln = sp.get('line_start', 0)
                    if 0 < ln <= len(lines) and 'SMOKE' in lines[ln - 1]:
                        hit.add(ln)
            r['vacuity'] = '%d of %d points reachable' % (len(hit), sm.smokes)
            if len(hit) < sm.smokes:
                miss = [re.search(r'SMOKE (.*?)\*/', x).group(1) for n, x in enumerate(lines, 1) if 'SMOKE' in x and n not in hit]
                bad = [x for x in miss if x.split()[0] not in lim]
                if len(bad) < len(miss):
                    r['vacuity'] += ', %d not settled within the resource limit' % (len(miss) - len(bad))
                if bad:
                    self._undecided.append((s, 'vacuous contract at: ' + ', '.join(bad)))

    def start(self, f, rlimit='10'):
        env = dict(os.environ)
        env.pop('RUSTUP_TOOLCHAIN', None)
        return subprocess.Popen(['verus', f, '--output-json', '--time', '--multiple-errors', '20', '--rlimit', rlimit, '--num-threads', '4', '--', '--error-format=json'],
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=self.work, start_new_session=True, env=env)

    def finish(self, p):
        try:
            o, e = p.communicate(timeout=420)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            return None, [], 'time limit'
        diags = []
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            return json.loads(o), diags, e
        except ValueError:
            return None, diags, e + o

    def judge(self, s, r, j, diags, err, text):
        errs = [d for d in diags if d.get('level') == 'error' and not d.get('message', '').startswith('aborting')]
        vr = (j or {}).get('verification-results', {})
        r['verified'], r['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        t = (j or {}).get('times-ms', {})
        r['solver_s'] = round(t.get('smt', {}).get('total', t.get('total', 0)) / 1000, 1) if isinstance(t.get('smt'), dict) else 0
        r['total_s'] = round(t.get('total', 0) / 1000, 1)
        comp = [d for d in errs if 'expression simplifies to false' in d.get('message', '')]
        if comp:
            # an obligation by computation that does not hold
            lines = text.splitlines()
            for d in comp:
                ln = next((x.get('line_start', 0) for x in d.get('spans', []) if x.get('is_primary')), 0)
                self._failed.append(('%s::%s' % (s, fn_at(lines, ln)), 'assertion by computation does not hold: ' + ' '.join(y['text'].strip() for x in d.get('spans', []) for y in x.get('text', [])[:1])[:300]))
            self.out += '\n'.join(d.get('rendered', '') for d in comp)
            r['status'] = 'failed'
            return
        if j is None or vr.get('encountered-vir-error') or not vr:
            why = '; '.join(d.get('message', '')[:160] for d in errs[:3]) or (err or '')[-300:]
            self._undecided.append((s, 'not verifiable as extracted: ' + why))
            r['status'] = 'undecided'
            return
        hard, soft = [], []
        lines = text.splitlines()
        for d in errs:
            msg = d.get('message', '')
            sp = d.get('spans', [])
            ln = next((x.get('line_start', 0) for x in sorted(sp, key=lambda x: not x.get('is_primary')) if 'std_specs' not in x.get('file_name', '') and 'vstd' not in x.get('file_name', '')), 0)
            fn = fn_at(lines, ln)
            labels = '; '.join((x.get('label') or '') + ': ' + ' '.join(y['text'].strip() for y in x.get('text', [])[:2]) for x in sp)
            rec = '%s in %s (%s)' % (msg, fn, labels[:400])
            if FAILED.search(msg) and not SOFT.search(msg):
                hard.append((fn, rec))
            else:
                soft.append(rec)
        self.out += '\n'.join(d.get('rendered', '') for d in errs)
        if soft and not vr.get('verified'):
            self._undecided.append((s, '; '.join(soft[:3])))
            r['status'] = 'undecided'
            return
        for fn, rec in hard:
            self._failed.append(('%s::%s' % (s, fn), rec))
        for x in soft:
            self._undecided.append((s, x))
        r['status'] = 'failed' if hard else 'undecided' if soft else 'proved' if vr.get('success') else 'undecided'
        if r['status'] == 'undecided' and not soft:
            self._undecided.append((s, 'no success reported'))

    def superseded(self, unit, why):
        self._failed = [x for x in self._failed if x[0].split('::')[0] != unit]
        self._undecided = [x for x in self._undecided if x[0] != unit]
        self.res.setdefault(unit, dict(unit=unit, verified=0, errors=0, total_s=0, assumed=[]))
        self.res[unit].update(status='superseded', why=why, errors=0)

    def report_lines(self):
        return ['verus %s: %s, %s verified, %s errors, %s s, %s' % (s, r.get('status'), r['verified'], r['errors'], r['total_s'], r.get('vacuity', ''))
                for s, r in self.res.items()]

    def ran_any(self):
        return any(r.get('status') in ('proved', 'failed') for r in self.res.values())

    def failed(self):
        return self._failed

    def undecided(self):
        return self._undecided

    def obligations(self):
        return sum(r['verified'] + r['errors'] for r in self.res.values())

    def discharged(self):
        return sum(r['verified'] for r in self.res.values())

    def evidence(self):
        return list(self.res.values())

    def assumptions(self):
        return ['verus %s: %s' % (s, a) for s, r in self.res.items() for a in r['assumed']]

    def output(self):
        return self.out


if __name__ == '__main__':
    import sys
    os.environ['VERIF_KEEP'] = '1'
    v = Verus('X', 'quick', sys.argv[1:], '/tmp/vxwork')
    t0 = time.time()
    v.run()
    for l in v.report_lines():
        print(l)
    for x in v.failed():
        print('FAILED', *x)
    for x in v.undecided():
        print('UNDECIDED', *x)
    print(v.out[-6000:])
    print('%.1f s' % (time.time() - t0))
    for r in v.evidence():
        print(r.get('functions'), *r['rewritings'], sep='\n  ')
