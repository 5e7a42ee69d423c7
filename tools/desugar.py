"""Mechanical, token-level rewriting rules applied to an extracted function body.

Each rule keeps the meaning of the code and exists because the verifier does not accept the
original form.  The list of rules is repeated in DESIGN.md; nothing else touches the body.
Every rule that does not recognise what it sees leaves the text alone (the verifier then
rejects the function, which is reported as "not reached", never as a violation).
"""
import re
from rsx import tokenize, match_brackets, split_top, OPEN, CLOSE


class Lost(Exception):
    """The function no longer has the shape the contracts were written for."""


def T(src):
    toks = tokenize(src)
    return toks, match_brackets(toks)


def splice(src, edits):
    """edits: list of (start, end, text), non-overlapping."""
    out, last = [], 0
    for s, e, t in sorted(edits, key=lambda x: (x[0], x[1])):
        if s < last:
            raise Lost('overlapping edits')
        out.append(src[last:s])
        out.append(t)
        last = e
    out.append(src[last:])
    return ''.join(out)


# R1 ---------------------------------------------------------------------------------------
def strip_comments(src):
    """comments, inner attributes and use declarations are dropped"""
    toks, mt = T(src)
    out, last = [], 0
    res = []
    i = 0
    pos = 0
    keep = []
    while i < len(toks):
        t = toks[i]
        if t.t == '#' and i + 1 < len(toks) and toks[i + 1].t in ('[', '!'):
            j = i + 1 if toks[i + 1].t == '[' else i + 2
            i = mt[j] + 1
            continue
        if t.k == 'id' and t.t == 'use' and (i == 0 or toks[i - 1].t in ('{', ';', '}')):
            j = i
            while toks[j].t != ';':
                j = mt[j] + 1 if toks[j].t in OPEN else j + 1
            i = j + 1
            continue
        if t.k == 'id' and t.t == 'macro_rules' and toks[i + 1].t == '!':
            j = i + 3
            i = mt[j] + 1
            if i < len(toks) and toks[i].t == ';':
                i += 1
            continue
        # debug_assert is compiled out of release builds
        if t.k == 'id' and t.t.startswith('debug_assert') and toks[i + 1].t == '!':
            i = mt[i + 2] + 1
            if i < len(toks) and toks[i].t == ';':
                i += 1
            continue
        keep.append(t)
        i += 1
    # keep the original whitespace shape roughly
    buf, prev_end = [], None
    for t in keep:
        if prev_end is not None:
            gap = src[prev_end:t.s]
            if gap == '':
                pass
            elif '\n' in gap:
                buf.append('\n' + gap.rsplit('\n', 1)[1] if gap.rsplit('\n', 1)[1].strip() == '' else '\n')
            else:
                buf.append(' ')
        buf.append(t.t)
        prev_end = t.e
    return ''.join(buf)


# R2 ---------------------------------------------------------------------------------------
def opaque_errors(src):
    """Err(<payload expression>) -> Err(crate::ext::mk_err()); `.into()` payloads likewise.
    Patterns `Err(e) =>` and plain string payloads of the filter crate stay."""
    while True:
        toks, mt = T(src)
        done = True
        for i, t in enumerate(toks):
            if t.t == 'Err' and i + 1 < len(toks) and toks[i + 1].t == '(':
                c = mt[i + 1]
                inner = src[toks[i + 1].e:toks[c].s].strip()
                if inner.startswith('crate::ext::mk_') or inner == '_' or re.fullmatch(r'\w+', inner):
                    continue
                if re.fullmatch(r'"(?:[^"\\]|\\.)*"', inner):
                    continue
                nxt = toks[c + 1].t if c + 1 < len(toks) else ''
                if nxt == '=>' or nxt == '=':
                    continue
                mk = 'mk_reuse_err' if 'ErrorQueryParamsReused' in inner else 'mk_err'
                src = src[:toks[i + 1].e] + 'crate::ext::%s()' % mk + src[toks[c].s:]
                done = False
                break
        if done:
            return src


# iterator sources --------------------------------------------------------------------------
def seq_source(expr, ctx):
    """An indexed reading of an iterator expression: (pre statements, [length terms], element(k)).
    An element is ('one', text, is_reference), ('pair', e1, e2) or ('let', statements, element)."""
    expr = expr.strip()
    toks, mt = T(expr)
    while toks and toks[0].t == '(' and mt[0] == len(toks) - 1:
        expr = expr[toks[0].e:toks[-1].s].strip()
        toks, mt = T(expr)
    ref = False
    off = 0
    if toks and toks[0].t == '&':
        ref = True
        off = 1
        if toks[1].t == 'mut':
            raise Lost('iteration over a mutable reference')
    # range
    d = 0
    for i, t in enumerate(toks):
        if t.t in OPEN:
            d += 1
        elif t.t in CLOSE:
            d -= 1
        elif t.t == '..' and d == 0:
            lo, hi = expr[:t.s].strip(), expr[t.e:].strip()
            if not hi or not lo:
                raise Lost('open range')
            if re.fullmatch(r'0(?:usize|u32|u64)?', lo):
                return '', ['(%s)' % hi if re.search(r'[^\w.()]', hi) else hi], lambda k: ('one', k, None)
            if re.fullmatch(r'\d+(?:usize)?', lo):
                return '', ['crate::ext::vsub0(%s, %s)' % (hi, lo)], lambda k: ('one', '(%s + %s)' % (lo, k), None)
            raise Lost('range that does not start at a literal')
    # postfix segments
    i = off
    if toks[i].t in ('(', '['):
        i = mt[i] + 1
    else:
        i += 1
        while i + 1 < len(toks) and toks[i].t == '::':
            i += 2
    segs = []
    while i < len(toks):
        t = toks[i]
        if t.t == '.' and i + 1 < len(toks):
            name = toks[i + 1].t
            if i + 2 < len(toks) and toks[i + 2].t == '(':
                c = mt[i + 2]
                segs.append((i, name, expr[toks[i + 2].e:toks[c].s].strip(), toks[i + 2], c))
                i = c + 1
            else:
                segs.append((i, None, None, None, None))
                i += 2
        elif t.t == '[':
            segs.append((i, None, None, None, None))
            i = mt[i] + 1
        elif t.t == '?':
            segs.append((i, None, None, None, None))
            i += 1
        else:
            raise Lost('iterator source %s' % expr)
    start = None
    for z, (pos, name, arg, o, c) in enumerate(segs):
        if name in ('iter', 'into_iter') and arg == '':
            start = z
            break
        if name in ('enumerate', 'zip', 'rev', 'map', 'take', 'skip') and toks[off].t == '(':
            start = z
            break
    if start is None:
        base, rest, own = expr[toks[off].s:], [], not ref
    else:
        base, rest = expr[toks[off].s:toks[segs[start][0]].s].strip(), segs[start:]
        own = segs[start][1] == 'into_iter'
        if ref:
            raise Lost('iterator source %s' % expr)
    pre = ''
    if start is not None and segs[start][1] not in ('iter', 'into_iter'):
        pre, lens, el = seq_source(base, ctx)
    else:
        if start is not None:
            rest = rest[1:]
        m = re.fullmatch(r'([\w.]+)\s*\[\s*(.*?)\s*\.\.\s*(.*?)\s*\]', base, re.S)
        bt, bm = T(base)
        simple = all(t.k in ('id', 'num') or t.t in ('.', '[', ']', '::', '*', '+', '-') for t in bt) and '..' not in base
        if m and '[' not in m.group(2) + m.group(3):
            b, lo, hi = m.group(1), m.group(2) or '0', m.group(3) or m.group(1) + '.len()'
            n = ctx['bind']
            ctx['bind'] += 1
            pre = 'let __lo%d: usize = %s; let __hi%d: usize = %s; crate::ext::slice_range(__lo%d, __hi%d, %s.len()); ' % (n, lo, n, hi, n, n, b)
            if lo == '0':
                lens, el = ['__hi%d' % n], lambda k: ('one', '%s[%s]' % (b, k), True)
            else:
                lens, el = ['(__hi%d - __lo%d)' % (n, n)], lambda k: ('one', '%s[__lo%d + %s]' % (b, n, k), True)
        else:
            if not simple:
                if '..' in base:
                    raise Lost('iterator source %s' % expr)
                n = ctx['bind']
                ctx['bind'] += 1
                pre = 'let __s%d = %s%s; ' % (n, '&' if ref else '', base)
                base = '__s%d' % n
            name0 = base
            isref = not own or ctx.get('ptypes', {}).get(name0, '').lstrip().startswith('&') or base.startswith('__s')
            lens, el = [base + '.len()'], lambda k: ('one', '%s[%s]' % (base, k), isref)
    for pos, name, arg, o, c in rest:
        prev, plens = el, list(lens)
        if name == 'enumerate' and arg == '':
            el = (lambda f: lambda k: ('pair', ('one', k, None), f(k)))(prev)
        elif name == 'zip':
            p2, l2, e2 = seq_source(arg, ctx)
            pre += p2
            lens = plens + l2
            el = (lambda f, g: lambda k: ('pair', f(k), g(k)))(prev, e2)
        elif name == 'take':
            lens = plens + [arg]
        elif name == 'skip':
            lens = ['crate::ext::vsub0(%s, %s)' % (len_text(plens), arg)]
            el = (lambda f, a: lambda k: f('%s + %s' % (k, a)))(prev, arg)
        elif name == 'rev' and arg == '' and len(plens) == 1:
            el = (lambda f, l: lambda k: f('%s - 1 - %s' % (l, k)))(prev, plens[0])
        elif name in ('copied', 'cloned') and arg == '':
            el = (lambda f, nm: lambda k: copied(f(k), nm))(prev, name)
        elif name in ('into_iter', 'iter', 'by_ref') and arg == '':
            pass
        elif name == 'map':
            cl = parse_closure(expr, toks, mt, toks.index(o) + 1, c)
            if cl is None:
                if not re.fullmatch(r'[\w:]+', arg):
                    raise Lost('map over %s' % arg)
                el = (lambda f, a: lambda k: ('one', '%s(%s)' % (a, value_of(f(k))), None))(prev, arg)
            else:
                if has_early_exit(cl[2]):
                    raise Lost('early exit inside a closure')
                n = ctx['bind']
                ctx['bind'] += 1
                el = (lambda f, cl, n: lambda k: ('let', '%s let __m%d = %s; ' % (bind_pat(cl[0], f(k)), n, cl[2]), ('one', '__m%d' % n, None)))(prev, cl, n)
        else:
            raise Lost('iterator adapter %s' % name)
    return pre, lens, el


def copied(e, nm):
    if e[0] == 'one':
        return ('one', e[1] + ('.clone()' if nm == 'cloned' and not e[1].endswith(']') else ''), None)
    raise Lost('copied')


def value_of(e):
    if e[0] == 'one':
        return ('&' if e[2] else '') + e[1]
    raise Lost('element')


def bind_pat(pat, e):
    pat = pat.strip()
    if e[0] == 'let':
        return e[1] + bind_pat(pat, e[2])
    if pat == '_':
        return ''
    m = re.fullmatch(r'\((.*)\)', pat, re.S)
    if m:
        ps = split_top(m.group(1))
        if e[0] != 'pair' or len(ps) != 2:
            raise Lost('pattern %s' % pat)
        return bind_pat(ps[0], e[1]) + ' ' + bind_pat(ps[1], e[2])
    if re.match(r'[\w]+\s*:[^:]', pat):
        pat = pat.split(':')[0].strip()
    if e[0] == 'pair':
        raise Lost('pattern %s' % pat)
    m = re.fullmatch(r'&\s*(\w+)', pat)
    if m:
        return 'let %s = %s;' % (m.group(1), e[1] if e[2] else '*' + e[1])
    if not re.fullmatch(r'(?:mut\s+)?\w+', pat):
        raise Lost('pattern %s' % pat)
    return 'let %s = %s;' % (pat, value_of(e))


def len_text(lens):
    t = lens[-1]
    for l in reversed(lens[:-1]):
        t = 'crate::ext::vmin(%s, %s)' % (l, t)
    return t


# R3 ---------------------------------------------------------------------------------------
def recv_start(toks, mt, p):
    """Index of the first token of the postfix expression that ends just before token p ('.')."""
    i = p - 1
    while True:
        t = toks[i]
        if t.t in (')', ']'):
            o = mt[i]
            i = o - 1
            if i >= 0 and (toks[i].k == 'id' and toks[i].t not in ('return', 'in', 'match', 'if', 'while', 'else', 'let', 'mut')):
                continue
            if i >= 0 and toks[i].t == '>' :
                return o  # generic call: not handled further
            if i >= 0 and toks[i].t in (')', ']'):
                continue
            return o
        if t.t == '?':
            i -= 1
            continue
        if t.k in ('id', 'num'):
            if i >= 1 and toks[i - 1].t == '.':
                i -= 2
                continue
            if i >= 1 and toks[i - 1].t == '::':
                i -= 2
                continue
            return i
        raise Lost('receiver of a method chain not recognised')


def parse_closure(src, toks, mt, i, end):
    """toks[i] is '|' or '||' (or 'move'): (param text, ret type, body text)"""
    if toks[i].t == 'move':
        i += 1
    if toks[i].t == '||':
        ps = ''
        j = i + 1
    elif toks[i].t == '|':
        j = i + 1
        d = 0
        while toks[j].t != '|' or d:
            if toks[j].t in ('<', '(', '['):
                d += 1
            if toks[j].t in ('>', ')', ']'):
                d -= 1
            j += 1
        ps = src[toks[i].e:toks[j].s].strip()
        j += 1
    else:
        return None
    ret = None
    if toks[j].t == '->':
        r0 = j + 1
        while toks[j].t != '{':
            j += 1
        ret = src[toks[r0].s:toks[j].s].strip()
    body = src[toks[j].s:toks[end - 1].e].rstrip(', \n')
    return ps, ret, body


def has_early_exit(body):
    toks, mt = T(body)
    return any(t.t in ('?', 'return') for t in toks)


def is_tail(src, toks, mt, s, e):
    """Is toks[s..e] the tail expression of the function body?"""
    if e + 1 < len(toks):
        return False
    return s == 0 or toks[s - 1].t in (';', '}')


def let_type(src, toks, s):
    """`let NAME: TYPE = <toks[s]...` -> TYPE or None"""
    if s == 0 or toks[s - 1].t != '=':
        return None
    i = s - 1
    while i >= 0 and toks[i].t != 'let':
        if toks[i].t in (';', '{', '}'):
            return None
        i -= 1
    m = re.match(r'let\s+(?:mut\s+)?\w+\s*:\s*(.*)$', src[toks[i].s:toks[s - 1].s].strip(), re.S)
    return m.group(1).strip() if m else None


def lazy_map(src):
    """let NAME = <recv>.map(closure); NAME.collect()  ->  <recv>.map(closure).collect()"""
    m = re.search(r'(\w+)\s*\.\s*collect\s*\(\s*\)\s*$', src)
    if not m:
        return src
    name = m.group(1)
    if len(re.findall(r'\b%s\b' % re.escape(name), src)) != 2:
        return src
    toks, mt = T(src)
    for i, t in enumerate(toks):
        if t.t == 'let' and toks[i + 1].t == name and toks[i + 2].t == '=':
            j = i + 3
            while toks[j].t != ';':
                j = mt[j] + 1 if toks[j].t in OPEN else j + 1
            expr = src[toks[i + 3].s:toks[j].s]
            return src[:toks[i].s] + src[toks[j].e:m.start()] + expr + '.collect()'
    return src


def chains(src, ctx):
    """R3: .map(closure).collect() chains become explicit loops with an accumulator."""
    src = lazy_map(src)
    guard = 0
    while True:
        guard += 1
        if guard > 50:
            raise Lost('too many iterator chains')
        toks, mt = T(src)
        hit = None
        for i, t in enumerate(toks):
            if t.t == '.' and i + 2 < len(toks) and toks[i + 1].t == 'map' and toks[i + 2].t == '(':
                c = mt[i + 2]
                if c + 2 < len(toks) and toks[c + 1].t == '.' and toks[c + 2].t == 'collect':
                    hit = (i, c)
                    break
            if t.t == '.' and i + 2 < len(toks) and toks[i + 1].t == 'fold' and toks[i + 2].t == '(':
                hit = (i, mt[i + 2])
                break
            if t.t == '.' and i + 2 < len(toks) and toks[i + 1].t in ('any', 'all', 'for_each') and toks[i + 2].t == '(' \
                    and toks[i + 3].t in ('|', 'move'):
                hit = (i, mt[i + 2])
                break
        if not hit:
            break
        i, c = hit
        n = ctx['chain']
        ctx['chain'] += 1
        rs = recv_start(toks, mt, i)
        recv = src[toks[rs].s:toks[i].s].strip()
        if re.match(r'\(\s*\{', recv):
            return src  # bound to a variable first (block_recv)
        what = toks[i + 1].t
        if what == 'map':
            cl = parse_closure(src, toks, mt, i + 3, c)
            fn_item = None
            if cl is None:
                # a path to a function
                fn_item = src[toks[i + 3].s:toks[c - 1].e]
            j = c + 3
            turbo = None
            if toks[j].t == '::':
                from rsx import match_angle
                g = match_angle(toks, j + 1)
                turbo = src[toks[j + 1].e:toks[g].e - 1].strip()
                j = g + 1
            if toks[j].t != '(':
                raise Lost('collect')
            e = mt[j]
            tail = is_tail(src, toks, mt, rs, e)
            lt = let_type(src, toks, rs)
            is_result = False
            if turbo is not None:
                is_result = turbo.startswith('Result') or turbo.startswith('ResultBoxedError')
            elif lt is not None:
                is_result = lt.startswith('Result')
            elif tail and ctx.get('ret', '').startswith('Result'):
                is_result = True
            params, ret, body = cl if cl else ('__a%d' % n, None, '%s(__a%d)' % (fn_item, n))
            early = has_early_exit(body)
            if early and not (is_result and tail):
                raise Lost('early exit inside a closure')
            if re.search(r'\breturn\b', body):
                raise Lost('return inside a closure')
            it, let = iter_source(recv, params, n, ctx)
            v = '__v%d' % n
            if ret and not is_result:
                bodyx = '{ let __e%d: %s = %s; %s.push(__e%d); }' % (n, ret, body, v, n)
            elif not is_result:
                bodyx = '{ let __e%d = %s; %s.push(__e%d); }' % (n, body, v, n)
            else:
                esc = 'return Err(__x%d);' % n if tail else '__r%d = Some(__x%d); break;' % (n, n)
                ann = ': ' + ret if ret else ''
                bodyx = '{ let __e%d%s = %s; match __e%d { Ok(__t%d) => { %s.push(__t%d); } Err(__x%d) => { %s } } }' % (
                    n, ann, body, n, n, v, n, n, esc)
            full = turbo or lt or (ctx.get('ret', '') if tail else '') or ''
            if is_result:
                m_ = re.match(r'Result\s*<(.*)>$', full.strip(), re.S)
                full = split_top(m_.group(1))[0] if m_ else ''
            full = full.strip()
            full = full if full.startswith('Vec') and full != 'Vec<_>' else ctx.get('opts', {}).get('v%d' % n, full)
            init = 'let mut %s%s = Vec::new();' % (v, ': ' + full if full.startswith('Vec') else '')
            fin = v
            if is_result:
                fin = 'Ok(%s)' % v if tail else 'match __r%d { None => Ok(%s), Some(__x%d) => Err(__x%d) }' % (n, v, n, n)
                if not tail:
                    init += ' let mut __r%d = None;' % n
            loop = 'for %s { %s %s }' % (it, let, bodyx[1:-1])
            new = '{ %s%s %s %s }' % (ctx.get('pre', {}).pop(n, ''), init, loop, fin)
            nxt = toks[e + 1].t if e + 1 < len(toks) else ''
            if nxt == '.':
                # bind the collected vector first, so that what follows can be rewritten too
                new = '(%s)' % new
            src = src[:toks[rs].s] + new + src[toks[e].e:]
        elif what == 'fold':
            args = split_top(src[toks[i + 2].e:toks[c].s])
            if len(args) < 2:
                raise Lost('fold')
            args = [args[0], src[toks[i + 2].e:toks[c].s].strip()[len(args[0]):].lstrip(' ,\n')]
            at, amt = T(args[1])
            cl = parse_closure(args[1], at, amt, 0, len(at))
            if not cl or has_early_exit(cl[2]):
                raise Lost('fold closure')
            ps = split_top(cl[0])
            acc = re.sub(r'^mut\s+', '', ps[0])
            # X.map(f).fold(..): the map's result is bound first
            pre, inner = '', ps[1]
            if toks[i - 1].t == ')':
                o = mt[i - 1]
                if toks[o - 1].t == 'map' and toks[o - 2].t == '.':
                    mc = parse_closure(src, toks, mt, o + 1, i - 1)
                    if not mc or has_early_exit(mc[2]) or not re.fullmatch(r'\w+', inner.strip()):
                        raise Lost('map closure before fold')
                    recv = src[toks[rs].s:toks[o - 2].s].strip()
                    pre = 'let %s = %s; ' % (inner.strip(), mc[2])
                    inner = mc[0]
            it, let = iter_source(recv, inner, n, ctx)
            let += ' ' + pre
            lt = let_type(src, toks, rs) or (ctx.get('ret', '') if is_tail(src, toks, mt, rs, c) else '')
            new = '{ ' + ctx.get('pre', {}).pop(n, '') + 'let mut %s%s = %s; for %s { %s %s = %s; } %s }' % (acc, ': ' + lt if lt else '', args[0], it, let, acc,
                                                                     re.sub(r'^mut\s+', '', cl[2]), acc)
            src = src[:toks[rs].s] + new + src[toks[c].e:]
        else:
            cl = parse_closure(src, toks, mt, i + 3, c)
            if not cl or has_early_exit(cl[2]):
                raise Lost(what + ' closure')
            it, let = iter_source(recv, cl[0], n, ctx)
            if what == 'for_each':
                new = '{ %s for %s { %s %s; } }' % (ctx.get('pre', {}).pop(n, ''), it, let, cl[2])
            else:
                # X.all(p) is !X.any(!p); !X.all(p) is X.any(!p)
                cond = cl[2] if what == 'any' else '!(%s)' % cl[2]
                neg, st = what == 'all', toks[rs].s
                if neg and rs and toks[rs - 1].t == '!':
                    neg, st = False, toks[rs - 1].s
                new = '{ ' + ctx.get('pre', {}).pop(n, '') + 'let mut __v%d = false; for %s { %s if %s { __v%d = true; break; } } %s__v%d }' % (
                    n, it, let, cond, n, '!' if neg else '', n)
                src = src[:st] + new + src[toks[c].e:]
                continue
            src = src[:toks[rs].s] + new + src[toks[c].e:]
    return src


def iter_source(recv, pat, n, ctx):
    """('PAT in RANGE', 'let ...;') for an iterator source expression."""
    recv = recv.strip()
    pat = pat.strip()
    pat0 = re.sub(r':\s*[^,|]+$', '', pat) if ':' in pat and '::' not in pat else pat
    if recv.startswith('(') and '..' in recv and recv.endswith(')'):
        inner = recv[1:-1].strip()
        if inner.startswith('(') and inner.endswith(')'):
            pass
        if pat0 == '_':
            pat0 = '__k%d' % n
        ctx.setdefault('idx', {})[n] = pat0
        return '%s in %s' % (pat0, inner), ''
    k = '__k%d' % n
    ctx.setdefault('idx', {})[n] = k
    m = re.match(r'(.*)\.\s*(iter|into_iter)\s*\(\s*\)$', recv, re.S)
    if m:
        base = re.sub(r'\s+', '', m.group(1))
        bt, bm = T(base)
        simple = all(t.k in ('id', 'num') or t.t in ('.', '[', ']', '::', '*') for t in bt)
        if not simple:
            return gen_source(recv, pat, k, n, ctx)
        if pat0 == '_':
            return '%s in 0..%s.len()' % (k, base), ''
        if pat0.startswith('&') and re.fullmatch(r'&\w+', pat0):
            return '%s in 0..%s.len()' % (k, base), 'let %s = %s[%s];' % (pat0[1:], base, k)
        if re.fullmatch(r'\w+', pat0):
            return '%s in 0..%s.len()' % (k, base), 'let %s = &%s[%s];' % (pat0, base, k)
    return gen_source(recv, pat, k, n, ctx)


def gen_source(recv, pat, k, n, ctx):
    pre, lens, el = seq_source(recv, ctx)
    let = bind_pat(pat, el(k))
    if pre:
        ctx.setdefault('pre', {})[n] = pre
    if len(lens) > 1 or re.search(r'crate::ext|[-+]', lens[0]):
        ctx.setdefault('pre', {})[n] = pre + 'let __l%d = %s; ' % (n, len_text(lens))
        return '%s in 0..__l%d' % (k, n), let
    return '%s in 0..%s' % (k, lens[0]), let


def block_recv(src, ctx):
    """(({ block }).iter().fold..)  ->  bind the block to a variable first."""
    while True:
        m = None
        toks, mt = T(src)
        for i, t in enumerate(toks):
            if t.t == '(' and toks[i + 1].t == '{' and mt[i] == mt[i + 1] + 1 and mt[i] + 1 < len(toks) \
                    and toks[mt[i] + 1].t == '.':
                m = i
                break
        if m is None:
            return src
        c = mt[m]
        # enclosing statement start
        d = m
        while d > 0 and not (toks[d - 1].t in (';', '{', '}')):
            d -= 1
        n = ctx['bind']
        ctx['bind'] += 1
        blk = src[toks[m + 1].s:toks[c - 1].e]
        src = src[:toks[d].s] + 'let __b%d = %s; ' % (n, blk) + src[toks[d].s:toks[m].s] + '__b%d' % n + src[toks[c].e:]


# R4 ---------------------------------------------------------------------------------------
def collect_results(src):
    """NAME.into_iter().collect() -> crate::ext::collect_results(NAME)"""
    return re.sub(r'\b(__b\d+|\w+)\s*\.\s*into_iter\s*\(\s*\)\s*\.\s*collect\s*\(\s*\)', r'crate::ext::collect_results(\1)', src)


# R4b --------------------------------------------------------------------------------------
def bool_or(src):
    """FLAG |= e;  ->  { let t: bool = (e); FLAG = FLAG || t; }  for flags initialised with true/false"""
    for name in set(re.findall(r'\blet\s+mut\s+(\w+)(?:\s*:\s*bool)?\s*=\s*(?:true|false)\s*;', src)):
        for op, o2 in (('|', '||'), ('&', '&&')):
            src = re.sub(r'\b%s\s*%s=\s*([^;{}]*);' % (name, re.escape(op)),
                         lambda m: '{ let __t: bool = (%s); %s = %s %s __t; }' % (m.group(1).strip(), name, name, o2), src)
    return src


# R8 ---------------------------------------------------------------------------------------
def destructs(src, ctx):
    """let S { a, f: [x, y] } = e;  ->  let d = e; let a = d.a; let x = d.f[0]; .."""
    while True:
        toks, mt = T(src)
        hit = False
        for i, t in enumerate(toks):
            if t.t == 'let' and i + 2 < len(toks) and toks[i + 1].k == 'id' and toks[i + 2].t == '{':
                c = mt[i + 2]
                inner = src[toks[i + 2].e:toks[c].s]
                if '[' not in inner or toks[c + 1].t != '=':
                    continue
                j = c + 2
                while toks[j].t != ';':
                    j = mt[j] + 1 if toks[j].t in OPEN else j + 1
                n = ctx['bind']
                ctx['bind'] += 1
                out = 'let __d%d = %s;' % (n, src[toks[c + 2].s:toks[j].s].strip())
                for part in split_top(inner):
                    m = re.match(r'(\w+)\s*(?::\s*(.*))?$', part.strip(), re.S)
                    if not m:
                        raise Lost('pattern %s' % part)
                    name, pat = m.group(1), (m.group(2) or m.group(1)).strip()
                    if pat.startswith('['):
                        for q, x in enumerate(split_top(pat[1:-1])):
                            if not re.fullmatch(r'\w+', x.strip()):
                                raise Lost('pattern %s' % part)
                            out += ' let %s = __d%d.%s[%d];' % (x.strip(), n, name, q)
                    elif re.fullmatch(r'\w+', pat):
                        out += ' let %s = __d%d.%s;' % (pat, n, name)
                    else:
                        raise Lost('pattern %s' % part)
                src = src[:toks[i].s] + out + src[toks[j].e:]
                hit = True
                break
        if not hit:
            return src


# R5 ---------------------------------------------------------------------------------------
def loops_of(src):
    """[(kind, kw token index, header start tok, body open tok)] in textual order."""
    toks, mt = T(src)
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.t in ('for', 'while', 'loop'):
            if t.t == 'for' and toks[i + 1].t == '<':
                continue
            if i and toks[i - 1].t in ('.', '::'):
                continue
            j = i + 1
            while toks[j].t != '{':
                j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
            out.append((t.t, i, j))
    return toks, mt, out


def body_has_continue(src, toks, mt, j):
    """a `continue` that belongs to the loop whose body opens at j"""
    i = j + 1
    while i < mt[j]:
        t = toks[i]
        if t.k == 'id' and t.t in ('for', 'while', 'loop'):
            q = i + 1
            while toks[q].t != '{':
                q = mt[q] + 1 if toks[q].t in ('(', '[') else q + 1
            i = mt[q] + 1
            continue
        if t.t == 'continue':
            return True
        i += 1
    return False


def fors(src, ctx):
    """R5: for-loops over slices become index loops; a for-range loop whose body continues
    becomes a while loop that increments first."""
    guard = 0
    ptypes = ctx.get('ptypes', {})
    while True:
        guard += 1
        if guard > 80:
            raise Lost('too many loops')
        toks, mt, ls = loops_of(src)
        changed = False
        for kind, i, j in ls:
            if kind != 'for':
                continue
            # pattern ... in expr {
            q = i + 1
            while toks[q].t != 'in':
                q = mt[q] + 1 if toks[q].t in ('(', '[') else q + 1
            pat = src[toks[i + 1].s:toks[q - 1].e].strip()
            expr = src[toks[q + 1].s:toks[j - 1].e].strip()
            top = expr
            while True:
                st, sm = T(top)
                if st and st[0].t == '(' and sm[0] == len(st) - 1:
                    top = top[st[0].e:st[-1].s].strip()
                else:
                    break
            d, isrange = 0, False
            tt, _ = T(top)
            for x in tt:
                if x.t in OPEN:
                    d += 1
                elif x.t in CLOSE:
                    d -= 1
                elif x.t in ('..', '..=') and d == 0:
                    isrange = True
            rev = re.match(r'\((.*)\)\s*\.\s*rev\s*\(\s*\)$', top, re.S)
            if isrange or (rev and '..' in top):
                n = ctx['k']
                if pat == '_':
                    ctx['k'] += 1
                    src = src[:toks[i + 1].s] + '__i%d' % n + src[toks[q - 1].e:]
                    changed = True
                    break
                if body_has_continue(src, toks, mt, j):
                    if rev or '..=' in top:
                        raise Lost('continue in a reversed or inclusive range loop')
                    lo, hi = re.split(r'\.\.', top, 1)
                    ctx['k'] += 1
                    n_ = n
                    src = (src[:toks[i].s] +
                           'let mut __n%d = %s; let __h%d = %s; while __n%d < __h%d { let %s = __n%d; __n%d += 1; ' % (
                               n_, lo.strip(), n_, hi.strip(), n_, n_, pat, n_, n_) +
                           src[toks[j].e:])
                    changed = True
                    break
                if rev and '..=' not in top:
                    lo, hi = re.split(r'\.\.', rev.group(1).strip(), 1)
                    ctx['k'] += 1
                    src = (src[:toks[i].s] +
                           'let mut __n%d = %s; let __h%d = %s; while __n%d > __h%d { __n%d -= 1; let %s = __n%d; ' % (
                               n, hi.strip(), n, lo.strip(), n, n, n, pat, n) +
                           src[toks[j].e:])
                    changed = True
                    break
                if not rev and '..=' not in top:
                    lo, hi = re.split(r'\.\.', top, 1)
                    if re.search(r'[(]', re.sub(r'[\w.]+\.len\(\)', '', hi)) and re.fullmatch(r'\s*[\w.]+\s*', lo):
                        ctx['k'] += 1
                        src = (src[:toks[i].s] + 'let __h%d = %s; ' % (n, hi.strip()) + src[toks[i].s:toks[q + 1].s] +
                               '%s..__h%d' % (lo.strip(), n) + src[toks[j - 1].e:])
                        changed = True
                        break
                if top != expr and not rev:
                    src = src[:toks[q + 1].s] + top + src[toks[j - 1].e:]
                    changed = True
                    break
                continue
            # slice-like source
            n = ctx['k']
            ctx['k'] += 1
            k = '__k%d' % (100 + n)
            body = src[toks[j].e:toks[mt[j]].s]
            base, mode = expr, None
            flat = re.sub(r'\s+', '', expr)
            m = re.match(r'(.*)\.iter\(\)\.enumerate\(\)$', flat)
            idx = k
            pre = ''
            if m:
                base, mode = m.group(1), 'enum'
            elif re.match(r'(.*)\.iter\(\)\.rev\(\)$', flat):
                base, mode = re.match(r'(.*)\.iter\(\)\.rev\(\)$', flat).group(1), 'rev'
            elif re.match(r'(.*)\.iter_mut\(\)$', flat):
                base, mode = re.match(r'(.*)\.iter_mut\(\)$', flat).group(1), 'mut'
            elif re.match(r'(.*)\.iter\(\)$', flat):
                base, mode = re.match(r'(.*)\.iter\(\)$', flat).group(1), 'ref'
            elif flat.startswith('&['):
                base, mode = '__a%d' % n, 'ref'
                pre = 'let __a%d = %s;' % (n, expr[expr.index('&') + 1:])
            elif flat.startswith('&'):
                base, mode = flat[1:], 'ref'
            elif re.fullmatch(r'\w+', flat):
                base = flat
                mode = 'ref' if ptypes.get(flat, '').lstrip().startswith('&') else 'val'
            else:
                base = '('
            bt, _ = tokenize(base), 0
            pm = re.match(r'\(\s*(\w+)\s*,\s*(&?)\s*(\w+)\s*\)$', pat)
            if not all(t.k in ('id', 'num') or t.t in ('.', '[', ']', '::', '*') for t in bt) or (mode == 'enum' and not pm):
                it, let = gen_source(expr, pat, k, n, ctx)
                pre = ctx.get('pre', {}).pop(n, '')
                src = src[:toks[i].s] + pre + ' for %s { %s %s' % (it, let, body) + src[toks[mt[j]].s:]
                changed = True
                break
            if mode == 'enum':
                let = 'let %s = %s; let %s = %s%s[%s];' % (pm.group(1), k, pm.group(3), '' if pm.group(2) else '&', base, k)
            elif mode == 'rev':
                let = 'let %s = &%s[%s.len() - 1 - %s];' % (pat, base, base, k)
            elif mode == 'val':
                let = 'let %s = %s[%s];' % (pat, base, k)
            elif mode == 'mut':
                let = ''
                xt, _ = T(body)
                eds = []
                for z, x in enumerate(xt):
                    if x.k == 'id' and x.t == pat:
                        if z and xt[z - 1].t == '*':
                            eds.append((xt[z - 1].s, x.e, '%s[%s]' % (base, k)))
                        else:
                            eds.append((x.s, x.e, '%s[%s]' % (base, k)))
                body = splice(body, eds)
                src = (src[:toks[i].s] + ' let __h%d = %s.len(); for %s in 0..__h%d { %s' % (n, base, k, n, body) +
                       src[toks[mt[j]].s:])
                changed = True
                break
            else:
                if pat.startswith('&') and re.fullmatch(r'&\w+', pat):
                    let = 'let %s = %s[%s];' % (pat[1:], base, k)
                elif pat == '_':
                    let = ''
                else:
                    let = 'let %s = &%s[%s];' % (pat, base, k)
            src = src[:toks[i].s] + pre + ' for %s in 0..%s.len() { %s %s' % (k, base, let, body) + src[toks[mt[j]].s:]
            changed = True
            break
        if not changed:
            eds = [(toks[mt[j]].e, toks[mt[j]].e, ';') for _, i, j in ls if mt[j] + 1 < len(toks) and toks[mt[j] + 1].t == '{']
            return splice(src, eds)


def counting(src):
    """let mut I = A; while I < E { .. I += 1; }  ->  for I in A..E { .. }  when the body leaves I and E alone, does not
    leave the loop, and I is not used afterwards"""
    for _ in range(20):
        toks, mt, ls = loops_of(src)
        hit = False
        for kind, i, j in ls:
            if kind != 'while':
                continue
            cond = src[toks[i + 1].s:toks[j - 1].e].strip()
            m = re.fullmatch(r'(\w+)\s*<\s*([\w.]+(?:\.len\(\))?)', cond)
            if not m:
                continue
            v, hi = m.group(1), m.group(2)
            pm = re.search(r'let\s+mut\s+%s(?:\s*:\s*(\w+))?\s*=\s*(\w+)\s*;\s*$' % v, src[:toks[i].s])
            body = src[toks[j].e:toks[mt[j]].s]
            bm = re.search(r'[;}{\s]%s\s*\+=\s*1\s*;\s*$' % v, body)
            # further statements may stand between the initialisation and the loop
            if not pm:
                pm = re.search(r'let\s+mut\s+%s(?:\s*:\s*(\w+))?\s*=\s*(\w+)\s*;((?:\s*let\s[^;{}]*;)*)\s*$' % v, src[:toks[i].s])
                if pm and re.search(r'\b%s\b' % v, pm.group(3)):
                    pm = None
            if not pm or not bm:
                continue
            core = body[:bm.start() + 1]
            base = hi.split('.')[0]
            if re.search(r'\b%s\s*(?:[-+*/^|&%%]|<<|>>)?=[^=]' % v, core) or re.search(r'&mut\s+%s\b' % v, core) or re.search(r'\b(break|continue|return)\b', core):
                continue
            if re.search(r'\b%s\s*(?:\[[^\]]*\]\s*)?(?:[-+*/^|&%%]|<<|>>)?=[^=]' % base, core) or re.search(r'&mut\s+%s\b' % base, core) or \
                    re.search(r'\b%s\s*\.\s*(push|pop|truncate|clear|insert|remove|extend|append|resize|drain|retain|swap_remove)\b' % base, core):
                continue
            rest = src[toks[mt[j]].e:]
            if re.search(r'\b%s\b' % v, rest):
                continue
            mid = pm.group(3) if pm.re.groups >= 3 else ''
            src = src[:pm.start()] + mid + ' for %s in %s..%s {' % (v, pm.group(2), hi) + core + '}' + rest
            hit = True
            break
        if not hit:
            return src
    return src


# R6 ---------------------------------------------------------------------------------------
def unreturn(body):
    """Guard clauses of a helper (`if c { ..; return x; } rest`) become if/else; raises Lost when a return remains."""
    b = body.strip()
    toks, mt = T(b)
    if not any(t.t == 'return' for t in toks):
        return b
    # statements at the top level
    i = 0
    while i < len(toks):
        s = i
        if toks[i].t == 'return':
            e = i
            while e < len(toks) and toks[e].t != ';':
                e = mt[e] + 1 if toks[e].t in OPEN else e + 1
            val = b[toks[i].e:toks[e].s if e < len(toks) else len(b)].strip() or '()'
            r = b[:toks[i].s] + val
            if any(t.t == 'return' for t in T(r)[0]):
                raise Lost('helper with an early return')
            return r
        if toks[i].t == 'if':
            o = i + 1
            while toks[o].t != '{':
                o = mt[o] + 1 if toks[o].t in ('(', '[') else o + 1
            c = mt[o]
            blk = [t.t for t in toks[o:c + 1]]
            if 'return' in blk:
                inner = b[toks[o].e:toks[c].s]
                if 'return' in [t.t for t in toks[i:o]]:
                    raise Lost('helper with an early return')
                it, im = T(inner)
                z = 0
                ends = False
                while z < len(it):
                    ends = it[z].t == 'return'
                    while z < len(it) and it[z].t != ';':
                        z = im[z] + 1 if it[z].t in OPEN else z + 1
                        if not ends and z < len(it) and it[z - 1].t == '}' and it[z].t not in (';', '.', '?', 'else'):
                            break
                    else:
                        z += 1
                if not ends:
                    raise Lost('helper with an early return')
                k = c + 1
                if k < len(toks) and toks[k].t == 'else':
                    if toks[k + 1].t != '{':
                        raise Lost('helper with an early return')
                    rest = b[toks[k + 1].e:toks[mt[k + 1]].s] + '\n' + b[toks[mt[k + 1]].e:]
                    if not b[toks[mt[k + 1]].e:].strip() == '' and 'let' in [t.t for t in T(b[toks[k + 1].e:toks[mt[k + 1]].s])[0]]:
                        raise Lost('helper with an early return')
                else:
                    rest = b[toks[c].e:]
                return b[:toks[i].s] + b[toks[i].s:toks[o].e] + unreturn(inner) + '} else {' + unreturn(rest) + '}'
        # next statement
        blocky = toks[i].t in ('if', 'while', 'for', 'loop', 'match', '{')
        while i < len(toks) and toks[i].t != ';':
            if toks[i].t == '{' and blocky and not (mt[i] + 1 < len(toks) and toks[mt[i] + 1].t in ('else', '.', '?')):
                i = mt[i]
                break
            i = mt[i] + 1 if toks[i].t in OPEN else i + 1
        if 'return' in [t.t for t in toks[s:i + 1]]:
            raise Lost('helper with an early return')
        i += 1
    raise Lost('helper with an early return')


def inline_helpers(src, helpers, ctx):
    """Calls to a function of the same crate that has no contract are replaced by its body."""
    guard = 0
    while True:
        guard += 1
        if guard > 40:
            raise Lost('helper inlining does not end')
        toks, mt = T(src)
        hit = None
        for i, t in enumerate(toks):
            if t.k == 'id' and t.t in helpers and i + 1 < len(toks) and toks[i + 1].t == '(' and \
                    not (i and toks[i - 1].t in ('.', 'fn')):
                hit = i
                break
            if t.k == 'id' and t.t in helpers and i + 1 < len(toks) and toks[i + 1].t == '(' and i > 1 and toks[i - 1].t == '.' \
                    and toks[i - 2].k == 'id' and helpers[t.t]['self']:
                hit = i
                break
        if hit is None:
            return src
        h = helpers[toks[hit].t]
        st = hit
        while st >= 2 and toks[st - 1].t == '::':
            st -= 2
        method = toks[st - 1].t == '.' if st else False
        recv = None
        if method:
            st -= 2
            while st >= 2 and toks[st - 1].t == '.' and toks[st - 2].k == 'id':
                st -= 2
            if st and toks[st - 1].t in ('.', '::'):
                raise Lost('helper %s' % toks[hit].t)
            recv = src[toks[st].s:toks[hit - 1].s].strip()
        args = split_top(src[toks[hit + 1].e:toks[mt[hit + 1]].s])
        if len(args) != len(h['params']):
            raise Lost('helper %s' % toks[hit].t)
        if h['generic'] or (h['self'] and not method):
            raise Lost('helper %s cannot be inlined' % toks[hit].t)
        nxt = toks[mt[hit + 1] + 1].t if mt[hit + 1] + 1 < len(toks) else ''
        body = unreturn(h['body'])
        if has_early_exit(body) and nxt != '?':
            raise Lost('helper %s cannot be inlined' % toks[hit].t)
        lets = ''
        tmp = []
        for (pn, pt), a in zip(h['params'], args):
            nm = '__p%d' % ctx['p']
            ctx['p'] += 1
            tmp.append((pn, pt, nm))
            lets += 'let %s: %s = %s; ' % (nm, pt, a)
        for pn, pt, nm in tmp:
            lets += 'let %s: %s = %s; ' % (pn, pt, nm)
        if recv and recv != 'self':
            nm = '__self%d' % ctx['p']
            ctx['p'] += 1
            lets = 'let %s = %s%s; ' % (nm, {'&': '&', '&mut': '&mut '}.get(h['self'], ''), recv) + lets
            body = re.sub(r'\bself\b', nm, body)
        blk = '{ %s%s }' % (lets, body)
        if nxt in ('?', '.', 'as'):
            blk = '(' + blk + ')'
        src = src[:toks[st].s] + blk + src[toks[mt[hit + 1]].e:]


# R7 ---------------------------------------------------------------------------------------
def add_args(src, calls):
    """Append ghost arguments at calls: calls maps a callee name to the argument text."""
    toks, mt = T(src)
    eds = []
    for i, t in enumerate(toks):
        if t.k == 'id' and i + 1 < len(toks) and toks[i + 1].t == '(' and not (i and toks[i - 1].t == 'fn'):
            key = None
            q = ''
            a = i
            while a >= 2 and toks[a - 1].t == '::':
                # skip generic arguments
                if toks[a - 2].t == '>':
                    b, d = a - 2, 0
                    while True:
                        if toks[b].t == '>':
                            d += 1
                        if toks[b].t == '<':
                            d -= 1
                        if d == 0:
                            break
                        b -= 1
                    a = b - 1 if toks[b - 1].t == '::' else b
                    q = toks[a - 1].t + '::' + q if toks[a - 1].k == 'id' else q
                    a -= 1
                    continue
                q = toks[a - 2].t + '::' + q
                a -= 2
            full = q + t.t
            for key in (full, '.' + t.t if i and toks[i - 1].t == '.' else full, t.t if not q and not (i and toks[i - 1].t == '.') else full):
                if key in calls:
                    c = mt[i + 1]
                    inner = src[toks[i + 1].e:toks[c].s].strip()
                    sep = '' if not inner else (' ' if inner.endswith(',') else ', ')
                    eds.append((toks[c].s, toks[c].s, sep + calls[key]))
                    break
    return splice(src, eds)
