"""A small span-preserving Rust reader: tokens, bracket matching, items.

Used to extract functions from /repo's current source. It understands just enough of the
surface syntax to cut items apart; everything inside a function body stays the source's own
text, and the rewriting rules (desugar.py) work on tokens of that text.
"""
import re

TOKRE = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:_?[iuf](?:8|16|32|64|128|size))?|0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<p>\.\.=|\.\.\.|<<=|>>=|::|->|=>|\.\.|&&|\|\||==|<=|>=|!=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|.)
''', re.X)


class Tok:
    __slots__ = ('k', 't', 's', 'e')

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return self.t


class ParseError(Exception):
    pass


def tokenize(src):
    out, i, n = [], 0, len(src)
    while i < n:
        # hexadecimal numbers first (the decimal rule would stop at the x)
        m = re.compile(r'0[xbo][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?').match(src, i)
        if m:
            out.append(Tok('num', m.group(0), i, m.end()))
            i = m.end()
            continue
        m = TOKRE.match(src, i)
        if not m:
            raise ParseError('cannot tokenize at %r' % src[i:i + 20])
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        t = m.group(0)
        if k == 'bc':
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if k == 'num' and t.endswith('.'):
            t = t[:-1]
        # `0..n`: the number rule must not swallow the range dots
        if k == 'num' and '.' in t and src.startswith('..', i + t.index('.')):
            t = t[:t.index('.')]
        e = i + len(t)
        if k not in ('ws', 'lc'):
            kk = {'rstr': 'str', 'p': 'p'}.get(k, k)
            out.append(Tok(kk, t, i, e))
        i = e
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match_brackets(toks):
    st, mt = [], {}
    for i, t in enumerate(toks):
        if t.k != 'p':
            continue
        if t.t in OPEN:
            st.append(i)
        elif t.t in CLOSE:
            if not st or toks[st[-1]].t != CLOSE[t.t]:
                raise ParseError('unbalanced %s' % t.t)
            j = st.pop()
            mt[i] = j
            mt[j] = i
    if st:
        raise ParseError('unbalanced brackets')
    return mt


def match_angle(toks, i):
    """toks[i] is '<': index of the matching '>' (generics)."""
    d = 0
    while True:
        t = toks[i].t
        if t == '<':
            d += 1
        elif t == '>':
            d -= 1
        elif t == '>>':
            d -= 2
        elif t == '<<':
            d += 2
        elif t in ('->', '=>'):
            pass
        if d <= 0:
            return i
        i += 1
        if i >= len(toks):
            raise ParseError('unbalanced <')


class Item:
    def __init__(self, kind, name, path, src, s, e, **kw):
        self.kind, self.name, self.path, self.s, self.e = kind, name, path, s, e
        self.text = src[s:e]
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.path)


def _skip_attrs(toks, mt, i):
    attrs = []
    while i < len(toks) and toks[i].t == '#':
        j = i + 1
        if toks[j].t == '!':
            j += 1
        attrs.append((i, mt[j]))
        i = mt[j] + 1
    return i, attrs


def parse_items(src, toks, mt, lo, hi, prefix):
    """Items in toks[lo:hi]; returns a list of Item."""
    out, i = [], lo
    while i < hi:
        start = i
        i, attrs = _skip_attrs(toks, mt, i)
        if i >= hi:
            break
        atext = [src[toks[a].s:toks[b].e] for a, b in attrs]
        if toks[i].t == ';':
            i += 1
            continue
        vis0 = i
        if toks[i].t == 'pub':
            i += 1
            if toks[i].t == '(':
                i = mt[i] + 1
        quals = []
        while toks[i].t in ('const', 'unsafe', 'async', 'default') and toks[i + 1].t in ('fn', 'unsafe', 'async', 'extern'):
            quals.append(toks[i].t)
            i += 1
        if toks[i].t == 'extern' and toks[i + 1].k == 'str':
            i += 2
        kw = toks[i].t
        P = lambda n: (prefix + '::' + n) if prefix else n
        if kw == 'fn':
            f, i = parse_fn(src, toks, mt, i, P, atext)
            f.quals = quals
            f.s = toks[start].s
            out.append(f)
        elif kw == 'mod':
            name = toks[i + 1].t
            if toks[i + 2].t == ';':
                out.append(Item('moddecl', name, P(name), src, toks[start].s, toks[i + 2].e, attrs=atext))
                i += 3
            else:
                b = i + 2
                e = mt[b]
                it = Item('mod', name, P(name), src, toks[start].s, toks[e].e, attrs=atext)
                it.items = [] if any('cfg(test)' in a.replace(' ', '') for a in atext) else \
                    parse_items(src, toks, mt, b + 1, e, P(name))
                it.is_test = any('cfg(test)' in a.replace(' ', '') for a in atext)
                out.append(it)
                i = e + 1
        elif kw in ('struct', 'enum', 'union'):
            name = toks[i + 1].t
            j = i + 2
            gen = ''
            if toks[j].t == '<':
                g = match_angle(toks, j)
                gen = src[toks[j].s:toks[g].e]
                j = g + 1
            body = None
            while toks[j].t not in (';', '{'):
                if toks[j].t == '(':
                    body = (j, mt[j])
                    j = mt[j] + 1
                else:
                    j += 1
            if toks[j].t == '{':
                body = (j, mt[j])
                j = mt[j]
            it = Item(kw, name, P(name), src, toks[start].s, toks[j].e, attrs=atext, generics=gen,
                      body=src[toks[body[0]].s:toks[body[1]].e] if body else None)
            out.append(it)
            i = j + 1
        elif kw in ('impl', 'trait') or (kw == 'unsafe' and toks[i + 1].t in ('impl', 'trait')):
            if kw == 'unsafe':
                i += 1
                kw = toks[i].t
            j = i + 1
            gen = ''
            if kw == 'impl' and toks[j].t == '<':
                g = match_angle(toks, j)
                gen = src[toks[j].s:toks[g].e]
                j = g + 1
            h0 = j
            while toks[j].t != '{':
                j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
            head = src[toks[h0].s:toks[j].s].strip()
            e = mt[j]
            where = ''
            mw = re.search(r'\bwhere\b', head)
            if mw:
                where = head[mw.start():]
                head = head[:mw.start()].strip()
            if kw == 'impl':
                tr, ty = None, head
                parts = split_for(head)
                if parts:
                    tr, ty = parts
                ipath = P(norm(ty) + (' as ' + norm(tr) if tr else ''))
                it = Item('impl', norm(ty), ipath, src, toks[start].s, toks[e].e, attrs=atext, generics=gen,
                          head=head, where=where, trait=norm(tr) if tr else None, ty=norm(ty))
            else:
                name = toks[h0].t
                it = Item('trait', name, P(name), src, toks[start].s, toks[e].e, attrs=atext, head=head, where=where)
                ipath = P(name)
            it.items = parse_items(src, toks, mt, j + 1, e, ipath)
            out.append(it)
            i = e + 1
        elif kw in ('use', 'type', 'static', 'const'):
            j = i
            while toks[j].t != ';':
                j = mt[j] + 1 if toks[j].t in OPEN else j + 1
            name = toks[i + 1].t
            out.append(Item(kw, name, P(name), src, toks[start].s, toks[j].e, attrs=atext,
                            decl=src[toks[i].s:toks[j].e]))
            i = j + 1
        elif kw == 'extern':
            j = i
            while toks[j].t != ';':
                j += 1
            out.append(Item('extern', '', P('extern'), src, toks[start].s, toks[j].e, attrs=atext))
            i = j + 1
        elif kw == 'macro_rules' or (toks[i].k == 'id' and toks[i + 1].t == '!'):
            j = i + 2
            if toks[j].k == 'id':
                j += 1
            e = mt[j]
            nxt = e + 1
            if nxt < hi and toks[nxt].t == ';':
                nxt += 1
            out.append(Item('macro', kw, P(kw), src, toks[start].s, toks[e].e, attrs=atext))
            i = nxt
        else:
            raise ParseError('unknown item at %r' % src[toks[i].s:toks[i].s + 60])
    return out


def norm(t):
    return re.sub(r'\s+', '', t or '').replace(',>', '>') if t else t


def split_for(head):
    """`Trait for Type` -> (Trait, Type)"""
    toks = tokenize(head)
    d = 0
    for k, t in enumerate(toks):
        if t.t in ('<', '(', '['):
            d += 1
        elif t.t in ('>', ')', ']'):
            d -= 1
        elif t.t == '>>':
            d -= 2
        elif t.t == 'for' and d == 0:
            return head[:t.s].strip(), head[t.e:].strip()
    return None


def parse_fn(src, toks, mt, i, P, atext):
    name = toks[i + 1].t
    j = i + 2
    gen = ''
    if toks[j].t == '<':
        g = match_angle(toks, j)
        gen = src[toks[j].s:toks[g].e]
        j = g + 1
    if toks[j].t != '(':
        raise ParseError('fn %s: no parameter list' % name)
    p0, p1 = j, mt[j]
    params = src[toks[p0].e:toks[p1].s]
    j = p1 + 1
    ret = None
    if toks[j].t == '->':
        r0 = j + 1
        j = r0
        while toks[j].t not in ('{', ';', 'where'):
            j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
        ret = src[toks[r0].s:toks[j].s].strip()
    where = ''
    if toks[j].t == 'where':
        w0 = j
        while toks[j].t not in ('{', ';'):
            j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
        where = src[toks[w0].s:toks[j].s].strip()
    body = None
    if toks[j].t == '{':
        body = src[toks[j].e:toks[mt[j]].s]
        j = mt[j]
    f = Item('fn', name, P(name), src, toks[i].s, toks[j].e, attrs=atext, generics=gen, params=params, ret=ret,
             where=where, body=body)
    return f, j + 1


def split_top(text, sep=','):
    """Split text at top-level separators (brackets and angle brackets nest)."""
    toks = tokenize(text)
    parts, d, last = [], 0, 0
    for t in toks:
        if t.t in ('(', '[', '{', '<'):
            d += 1
        elif t.t in (')', ']', '}', '>'):
            d -= 1
        elif t.t == '>>':
            d -= 2
        elif t.t == sep and d == 0:
            parts.append(text[last:t.s].strip())
            last = t.e
    tail = text[last:].strip()
    if tail:
        parts.append(tail)
    return parts


def parse_file(src, prefix=''):
    toks = tokenize(src)
    mt = match_brackets(toks)
    return parse_items(src, toks, mt, 0, len(toks), prefix)


def walk(items):
    for it in items:
        yield it
        for sub in getattr(it, 'items', []) or []:
            yield from walk([sub])


if __name__ == '__main__':
    import sys
    for it in walk(parse_file(open(sys.argv[1]).read())):
        print(it.kind, it.path, getattr(it, 'params', ''), getattr(it, 'ret', ''))
