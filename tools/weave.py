"""Weaves the contracts of /verif/specs into functions extracted from /repo's current source."""
import hashlib
import os
import re
import subprocess
import json
import rsx
import desugar as D
from desugar import Lost

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHALAMET_REPO', '/repo')

MAIN_FILES = [('errors', 'src/errors.rs'), ('utils', 'src/utils.rs'), ('db', 'src/db/mod.rs'),
              ('db::index', 'src/db/index.rs'), ('db::kv', 'src/db/kv.rs'), ('api', 'src/api.rs')]
EXPAND = ['rustc', '+stable', '--crate-type', 'lib', '--crate-name', 'xorf', '--edition', '2018',
          '-Zunpretty=expanded', '--cfg', 'feature="binary-fuse"', '--cfg', 'feature="binary-fuse-modp"',
          '--cfg', 'feature="uniform-random"', '-C', 'debug-assertions=off', 'src/lib.rs']


class Source:
    """Functions, structs and constants of one crate, by path."""

    def __init__(self, crate):
        self.fns, self.structs, self.consts, self.types, self.items = {}, {}, {}, {}, []
        self.crate = crate
        if crate == 'main':
            for prefix, f in MAIN_FILES:
                p = os.path.join(REPO, f)
                if not os.path.exists(p):
                    raise Lost('missing file %s' % f)
                self.add(rsx.parse_file(open(p).read(), prefix))
        else:
            env = dict(os.environ, RUSTC_BOOTSTRAP='1')
            r = subprocess.run(EXPAND, cwd=os.path.join(REPO, 'bff-modp'), env=env, capture_output=True, text=True)
            if 'pub trait Filter' not in r.stdout:
                raise Lost('macro expansion of the filter crate failed: ' + r.stderr[-400:])
            self.add(rsx.parse_file(r.stdout))

    def add(self, items):
        for it in items:
            if it.kind == 'mod':
                if not it.is_test:
                    self.add(it.items)
                continue
            if any('cfg(test)' in a.replace(' ', '') for a in it.attrs):
                continue
            self.items.append(it)
            if it.kind == 'fn':
                self.fns.setdefault(it.path, it)
            elif it.kind in ('impl', 'trait'):
                for sub in it.items:
                    if sub.kind == 'fn':
                        sub.owner = it
                        self.fns.setdefault(sub.path, sub)
                    if sub.kind == 'const':
                        self.consts.setdefault(sub.path, sub)
            elif it.kind in ('struct', 'enum'):
                self.structs.setdefault(it.path, it)
                if it.kind == 'struct' and re.search(r'derive\s*\([^)]*\bClone\b', ' '.join(it.attrs)) and self.crate == 'main':
                    for f in derived_clone(it):
                        self.fns.setdefault(f.path, f)
            elif it.kind in ('const', 'static'):
                self.consts.setdefault(it.path, it)
            elif it.kind == 'type':
                self.types.setdefault(it.path, it)


class FnSpec:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.sec = {}
        self.subs, self.subs2, self.opts, self.attrs, self.gparams = [], [], {}, [], []
        self.ret = None
        self.rettype = None
        self.tags = []


def parse_spec(text, vars=None):
    """-> list of ('raw', text) | ('fn', FnSpec) | ('struct', path, opts) | ('const', path)"""
    vars = dict(vars or {})
    for m in re.finditer(r'(?m)^@define (\w+) (.*)$', text):
        vars[m.group(1)] = m.group(2)
    text = re.sub(r'(?m)^@define .*$', '', text)
    for _ in range(4):
        for k, v in vars.items():
            text = text.replace('{{%s}}' % k, v)
    out, cur, sec, raw = [], None, None, []

    def flush():
        if raw:
            out.append(('raw', '\n'.join(raw)))
            raw.clear()
    for line in text.split('\n'):
        st = line.strip()
        if st.startswith('@fn '):
            flush()
            rest = st[4:].strip()
            m = re.match(r'(.*?)\s+=>\s+(\w+)$', rest)
            path, name = (m.group(1), m.group(2)) if m else (rest, None)
            cur = FnSpec(path, name)
            sec = None
            continue
        if cur is None:
            if st.startswith('@struct '):
                flush()
                out.append(('struct', st[8:].strip()))
            elif st.startswith('@const '):
                flush()
                out.append(('const', st[7:].strip()))
            elif st.startswith('@codec '):
                flush()
                out.append(('codec', st[7:].strip()))
            else:
                raw.append(line)
            continue
        if st == '@end':
            out.append(('fn', cur))
            cur, sec = None, None
        elif st.startswith('@ret '):
            cur.ret = st[5:].strip()
        elif st.startswith('@rettype '):
            cur.rettype = st[9:].strip()
        elif st.startswith('@attr '):
            cur.attrs.append(st[6:].strip())
        elif st.startswith('@gparam '):
            cur.gparams.append(st[8:].strip())
        elif st.startswith('@tags '):
            cur.tags += st[6:].split()
        elif st.startswith('@opt '):
            for o in st[5:].split():
                k, _, v = o.partition('=')
                cur.opts[k] = v or True
        elif st.startswith('@sub '):
            a, b = (st[5:] + ' ').split(' ==> ', 1)
            cur.subs.append((a.strip(), b.strip()))
        elif st.startswith('@sub2 '):
            a, b = (st[6:] + ' ').split(' ==> ', 1)
            cur.subs2.append((a.strip(), b.strip()))
        elif re.match(r'@(spec|start|tail|finish|(loop|body|bodyend|before|after|call|aftercall|stmt)\b.*)', st):
            sec = st[1:].strip()
            cur.sec.setdefault(sec, [])
        elif st.startswith('@'):
            raise ValueError('unknown directive %r in %s' % (st, cur.path))
        else:
            if sec is None:
                if st:
                    raise ValueError('text outside a section in %s: %r' % (cur.path, st))
            else:
                cur.sec[sec].append(line)
    flush()
    return out


GENERIC_SUBS = {
    # std and external calls -> contract models in ext.rs (each listed in the trusted base)
    'main': [
        (r'(?:std::)?\bfs::File::create\(((?:[^()]|\([^()]*\))*)\)', r'crate::files::file_create(\1, Tracked(disk))'),
        (r'(?:std::)?\bfs::File::open\(((?:[^()]|\([^()]*\))*)\)', r'crate::files::file_open(\1, Tracked(disk))'),
        (r'(?:std::)?\bfs::read_to_string\(((?:[^()]|\([^()]*\))*)\)', r'crate::files::read_to_string(\1, Tracked(disk))'),
        (r'(?:std::)?\bfs::write\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)', r'crate::files::file_write(\1, Tracked(disk))'),
        (r'\bserde_json::to_writer(?:_pretty)?\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)', r'crate::files::to_writer(\1, Tracked(disk))'),
        (r'\bserde_json::from_reader\b', 'crate::files::from_reader'),
        (r'\bserde_json::from_str\b', 'crate::files::from_str'),
        (r'\bserde_json::to_string(?:_pretty)?\b', 'crate::files::json_to_string'),
        (r'(?:std::io::)?\bBufReader::new\b', 'crate::files::BufReader::new'),
        (r'\blet &\s*(\w+)\s*(\{[^{}]*\})\s*=\s*([^;]*);', r'let \1 \2 = *(\3);'),
        (r'\b(\w+)\.clone_from\(&', r'\1 = crate::ext::vec_copy(&'),
        (r'vec!\[\s*Vec::(?:with_capacity\([^()]*\)|new\(\))\s*;\s*([^\]]*?)\]', r'crate::ext::empty_vecs(\1)'),
        (r'OsRng\s*\.\s*next_u32\s*\(\s*\)', 'crate::ext::os_next_u32(Tracked(log))'),
        (r'OsRng\s*\.\s*fill_bytes\s*\(\s*&mut\s+(\w+)\s*,?\s*\)', r'crate::ext::os_fill_bytes(&mut \1, Tracked(log))'),
        (r'\bbase64::encode\b', 'crate::ext::base64_encode'),
        (r'\bbase64::decode\b', 'crate::ext::base64_decode'),
        (r'\bbincode::serialize\b', 'crate::ext::bincode_serialize'),
        (r'\bstd::mem::size_of::<u32>\(\)', '4usize'),
        (r'\b(2u8|2u32|2u64)\s*\.\s*pow\s*\(', r'crate::ext::pow_\1('),
        (r'\bu32::from_le_bytes\s*\(', 'crate::ext::u32_from_le_bytes('),
        (r'\b(\w+)\s*\.\s*to_le_bytes\s*\(\s*\)', r'crate::ext::u32_to_le_bytes(\1)'),
        (r'\b(\w+)\s*\.\s*extend\s*\(', r'crate::ext::vec_extend(&mut \1, '),
        (r'\b(\w+)\[([^\[\];{}]*)\]\s*\.\s*to_vec\s*\(\s*\)', r'crate::ext::slice_to_vec(&\1[\2])'),
        (r'\bu64::from_le_bytes\s*\(', 'crate::ext::u64_from_le_bytes('),
        (r'\bString\b', 'crate::ext::VString'),
        (r'\(\(i as f64\) / 8f64\)\s*\.\s*floor\(\) as usize', 'crate::ext::f64_div8_floor(i)'),
    ],
    'xorf': [
        (r'::alloc::vec::from_elem\(Default::default\(\),', 'crate::ext::from_elem_default('),
        (r'::alloc::boxed::box_assume_init_into_vec_unsafe\(\s*::alloc::intrinsics::write_box_via_move\(\s*::alloc::boxed::Box::new_uninit\(\)\s*,\s*(\[[^\[\]]*\])\s*\)\s*\)', r'crate::ext::vec_of(\1)'),
        (r'\bErr\("[^"]*"\)', 'Err(crate::ext::mk_err())'),
        (r'\bHashMap::new\(\)', 'crate::ext::HMap::new()'),
        (r'\bmurmur3::mix64\b', 'mix64'),
        (r'::core::panicking::panic(_fmt)?\s*\(', 'crate::ext::panics('),
        (r'\bformat_args!\s*\((?:[^()]|\([^()]*\))*\)', '()'),
        (r'\bu64::from_le_bytes\((\w+\[[^\]]*\])\s*\.\s*try_into\(\)\s*\.\s*unwrap\(\)\)', r'crate::ext::u64_from_slice(&\1)'),
        (r'(\w+)\.iter\(\)\.sum::<usize>\(\)', r'crate::ext::sum3(&\1)'),
        (r'\brand::thread_rng\(\)', 'crate::ext::thread_rng()'),
        (r'\bround\(size as f64 \* size_factor\) as u32', 'round_capacity(size, size_factor)'),
    ],
}


def json_macro(body, field_id):
    """json!(x), json!({"k": x, ..}), json!([..]) -> the models of specs/files.rs"""
    for _ in range(50):
        toks, mt = D.T(body)
        hit = None
        for i, t in enumerate(toks):
            if t.t == 'json' and i + 2 < len(toks) and toks[i + 1].t == '!' and toks[i + 2].t in OPENS:
                hit = i
        if hit is None:
            return body
        s = hit - 2 if hit >= 2 and toks[hit - 1].t == '::' else hit
        o = hit + 2
        c = mt[o]
        inner = body[toks[o].e:toks[c].s].strip()
        if inner.startswith('{') and inner.endswith('}'):
            r = 'crate::files::json_obj()'
            for part in rsx.split_top(inner[1:-1]):
                m = re.match(r'\s*"([^"]*)"\s*:\s*(.*)$', part, re.S)
                if not m:
                    raise Lost('json! field %r' % part[:40])
                r += '.put(%d, &(%s))' % (field_id(m.group(1)), m.group(2).strip())
            r += '.done()'
        elif inner.startswith('['):
            raise Lost('json! list')
        else:
            r = 'crate::files::json_value(&(%s))' % inner
        body = body[:toks[s].s] + r + body[toks[c].e:]
    return body


def derived_clone(it):
    """The implementation that `derive(Clone)` gives a struct, field by field"""
    m = re.search(r'\bstruct\s+\w+\s*(<[^{(;]*>)?', it.text)
    params = [p.strip().split(':')[0].strip() for p in rsx.split_top(m.group(1)[1:-1])] if m.group(1) else []
    fs, tup = struct_fields(it)
    parts = []
    for f, ty, _ in fs:
        e = 'PhantomData' if ty.startswith('PhantomData') else 'self.%s' % f if re.fullmatch(r'bool|char|[iu](8|16|32|64|128|size)|\[[iu](8|16|32|64|128|size); *\w+\]', ty) else 'self.%s.clone()' % f
        parts.append(e if tup else '%s: %s' % (f, e))
    body = 'Self(%s)' % ', '.join(parts) if tup else 'Self { %s }' % ', '.join(parts)
    gen = '<%s>' % ', '.join(p + ': Clone' for p in params) if params else ''
    ty = it.path.split('::')[-1] + ('<%s>' % ','.join(params) if params else '')
    mod = '::'.join(it.path.split('::')[:-1])
    out = []
    for x in rsx.parse_file('impl%s Clone for %s { fn clone(&self) -> Self { %s } }' % (gen, ty, body), mod):
        for f in x.items:
            f.owner = x
            out.append(f)
    return out


def serde_fields(it):
    """[(name, type, ser name or None, de name or None, default)], tuple? of a struct that derives Serialize and Deserialize"""
    der = ' '.join(it.attrs)
    if not (re.search(r'derive\s*\([^)]*\bSerialize\b', der) and re.search(r'derive\s*\([^)]*\bDeserialize\b', der)):
        raise Lost('%s does not derive Serialize and Deserialize' % it.path)
    if re.search(r'\bserde\s*\(', der):
        raise Lost('%s has a serde container attribute' % it.path)
    fs, tup = struct_fields(it)
    out = []
    for name, ty, attrs in fs:
        ser = de = True
        rs = rd = None
        dflt = False
        for a in attrs:
            if not a.startswith('serde'):
                continue
            for opt in rsx.split_top(re.match(r'serde\s*\((.*)\)\s*$', a, re.S).group(1)):
                opt = opt.strip()
                if opt == 'skip':
                    ser = de = False
                elif opt == 'skip_serializing':
                    ser = False
                elif opt == 'skip_deserializing':
                    de = False
                elif opt == 'default':
                    dflt = True
                elif re.match(r'rename\s*=\s*"', opt):
                    rs = rd = opt.split('"')[1]
                elif re.match(r'rename\s*\(', opt):
                    m = re.search(r'\bserialize\s*=\s*"([^"]*)"', opt)
                    rs = m.group(1) if m else rs
                    m = re.search(r'\bdeserialize\s*=\s*"([^"]*)"', opt)
                    rd = m.group(1) if m else rd
                else:
                    raise Lost('%s: serde attribute %s' % (it.path, opt))
        out.append((name, ty, (rs or name) if ser else None, (rd or name) if de else None, dflt))
    return out, tup


def struct_fields(it):
    """[(name, type, attributes)], tuple?"""
    toks = rsx.tokenize(it.text)
    i = next(k for k, x in enumerate(toks) if x.t == 'struct')
    txt = it.text[toks[i].s:]
    toks, mt = D.T(txt)
    b = next(k for k, x in enumerate(toks) if x.t in ('{', '(', ';'))
    if toks[b].t == ';':
        return [], False
    tup = toks[b].t == '('
    out = []
    k, e = b + 1, mt[b]
    n = 0
    while k < e:
        attrs = []
        while toks[k].t == '#':
            attrs.append(txt[toks[k + 1].e:toks[mt[k + 1]].s].strip())
            k = mt[k + 1] + 1
        if toks[k].t == 'pub':
            k += 1
            if toks[k].t == '(':
                k = mt[k] + 1
        if tup:
            name = str(n)
        else:
            name = toks[k].t
            k += 2
        s = k
        d = 0
        while k < e and not (toks[k].t == ',' and d == 0):
            if toks[k].t in ('<', '<<'):
                d += len(toks[k].t)
            elif toks[k].t in ('>', '>>'):
                d -= len(toks[k].t)
            k = mt[k] + 1 if toks[k].t in OPENS else k + 1
        ty = txt[toks[s].s:toks[k - 1].e]
        out.append((name, ty, attrs))
        n += 1
        k += 1
    return out, tup


def emit_codec(it, types, field_id, admit, given_up=None):
    """The VSerde implementation that `derive(Serialize, Deserialize)` gives a struct; its laws are obligations."""
    name = it.path.split('::')[-1]
    m = re.search(r'\bstruct\s+\w+\s*(<[^{(;]*>)?', it.text)
    params = [p.strip().split(':')[0].strip() for p in rsx.split_top(m.group(1)[1:-1])] if m.group(1) else []
    out = ''
    try:
        fs, tup = serde_fields(it)
        why = given_up
    except (Lost, IndexError, KeyError, AttributeError, StopIteration) as x:
        fs, tup, why = [], False, str(x)
    gen = '<%s>' % ', '.join(p if p == 'DB' else p + ': crate::files::VNotNull' for p in params) if params else ''
    ty = name + ('<%s>' % ', '.join(params) if params else '')
    J = 'crate::files::Json'
    S = 'crate::files::VSerde'
    head = 'impl%s %s for %s {\n' % (gen, S, ty)
    if why is not None:
        fn = re.sub(r'\W', '_', it.path)
        return (head + '  uninterp spec fn j(&self) -> %s;\n  uninterp spec fn reads(v: %s, x: Self) -> bool;\n  open spec fn same(x: Self, y: Self) -> bool { x == y }\n' % (J, J)
                + '  #[verifier::external_body] proof fn law_back(&self) {}\n  #[verifier::external_body] proof fn law_same(v: %s, x: Self, y: Self) {}\n}\n' % J
                + 'impl%s crate::files::VNotNull for %s { #[verifier::external_body] proof fn law_not_null(v: %s, x: Self) {} }\n' % (gen, ty, J)), why
    T = [(f, types(t), a, b, d) for f, t, a, b, d in fs]
    same = ' && '.join('<%s as %s>::same(x.%s, y.%s)' % (t, S, f, f) for f, t, a, b, d in T) or 'true'
    if tup and len(T) == 1:
        f, t = T[0][0], T[0][1]
        j = 'self.0.j()'
        reads = '<%s as %s>::reads(v, x.0)' % (t, S)
        back = 'self.0.law_back();'
        law = '<%s as %s>::law_same(v, x.0, y.0);' % (t, S)
        nn = None
    else:
        j = 'Map::<int, %s>::empty()' % J
        obj, law = [], []
        for f, t, a, b, d in T:
            if a is not None:
                j += '.insert(%d, self.%s.j())' % (field_id(a), f)
            if b is None:
                obj.append('<%s as crate::files::VDefaulted>::is_default(x.%s)' % (t, f))
            else:
                k = field_id(b)
                obj.append('crate::files::reads_field%s::<%s>(v->Obj_0, %d, x.%s)' % ('_or_default' if d else '', t, k, f))
                law.append('if v->Obj_0.contains_key(%d) { <%s as %s>::law_same(v->Obj_0[%d], x.%s, y.%s); }' % (k, t, S, k, f, f))
        j = '%s::Obj(%s)' % (J, j)
        obj = ' && '.join(['v is Obj'] + obj)
        plain = all(a == f == b and not d for f, t, a, b, d in T)
        seq = ' && '.join(['v is Arr', 'v->Arr_0.len() == %d' % len(T)] + ['<%s as %s>::reads(v->Arr_0[%d], x.%s)' % (t, S, i, f) for i, (f, t, a, b, d) in enumerate(T)])
        reads = '(%s)' % obj + (' || (%s)' % seq if plain else '')
        back = ' '.join('self.%s.law_back();' % f for f, *_ in T)
        law = 'if v is Obj { %s }' % ' '.join(law)
        if plain:
            law += ' else { %s }' % ' '.join('<%s as %s>::law_same(v->Arr_0[%d], x.%s, y.%s);' % (t, S, i, f, f) for i, (f, t, *_) in enumerate(T))
        nn = True
    eb = '#[verifier::external_body] ' if admit else ''
    out = head
    out += '  open spec fn j(&self) -> %s { %s }\n' % (J, j)
    out += '  open spec fn reads(v: %s, x: Self) -> bool { %s }\n' % (J, reads)
    out += '  open spec fn same(x: Self, y: Self) -> bool { %s }\n' % same
    out += '  %sproof fn law_back(&self) { %s }\n' % (eb, back)
    out += '  %sproof fn law_same(v: %s, x: Self, y: Self) { %s }\n}\n' % (eb, J, law)
    if nn:
        out += 'impl%s crate::files::VNotNull for %s { proof fn law_not_null(v: %s, x: Self) {} }\n' % (gen, ty, J)
    return out, None


def fn_params(text):
    """[(pattern, type)] without self"""
    out = []
    for p in rsx.split_top(text):
        q = re.sub(r'^(&\s*)?(\'\w+\s+)?(mut\s+)?', '', p)
        if q == 'self' or re.match(r'self\s*:', q):
            continue
        toks = rsx.tokenize(p)
        for i, t in enumerate(toks):
            if t.t == ':':
                out.append((p[:t.s].strip(), p[t.e:].strip()))
                break
    return out


def tail_start(src):
    """Offset at which the tail expression of a block body starts (len(src) if none)."""
    toks, mt = D.T(src)
    i, start = 0, 0
    n = len(toks)
    cur = 0
    while i < n:
        s = i
        t = toks[i].t
        if t in ('for', 'while', 'loop', 'if', 'match', 'unsafe') or t == '{':
            j = i
            while toks[j].t != '{':
                j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
            e = mt[j]
            while t == 'if' and e + 1 < n and toks[e + 1].t == 'else':
                j = e + 2
                while toks[j].t != '{':
                    j = mt[j] + 1 if toks[j].t in ('(', '[') else j + 1
                e = mt[j]
            if e + 1 >= n:
                if t in ('for', 'while'):
                    return len(src)
                return toks[s].s
            if toks[e + 1].t == ';':
                i = e + 2
                continue
            if toks[e + 1].t in ('.', '?') or toks[e + 1].t in ('+', '-', '*', '/', '==', '&&'):
                pass
            else:
                i = e + 1
                continue
        j = i
        while j < n and toks[j].t != ';':
            j = mt[j] + 1 if toks[j].t in OPENS else j + 1
        if j >= n:
            return toks[s].s
        i = j + 1
    return len(src)


OPENS = ('(', '[', '{')


def unwrap_block(src):
    """A body that ends in a bare block is flattened (the block is the function's tail)."""
    while True:
        toks, mt = D.T(src)
        if not toks or toks[-1].t != '}':
            return src
        o = mt[len(toks) - 1]
        if o != 0 and toks[o - 1].t not in (';', '}'):
            return src
        if o and toks[o - 1].t == '}':
            # `if c {..} {..}` cannot be told from a struct literal in general; accept after a block statement
            k = mt[o - 1] - 1
        src = src[:toks[o].s] + src[toks[o].e:toks[-1].s]


class Woven:
    def __init__(self, spec, fn):
        self.spec, self.fn = spec, fn
        self.lost = None
        self.helpers = []


def rewrite_body(src_obj, spec, fn, specnames, calls, types):
    body = D.strip_comments(fn.body)
    body = unwrap_block(body)
    for a, b in spec.subs:
        nb = re.sub(a, b, body, flags=re.S)
        body = nb
    ctx = {'opts': spec.opts, 'chain': 0, 'bind': 0, 'k': 0, 'p': 0, 'ret': types(fn.ret or ''), 'ptypes': dict(fn_params(fn.params))}
    # helpers: functions next to this one that have no contract
    prefix = fn.path.rsplit('::', 1)[0]
    modpath = prefix.split('::')
    helpers = {}
    for p, f in src_obj.fns.items():
        if p in specnames or f.body is None or p == fn.path:
            continue
        if getattr(f, 'owner', None) is not None and (f.owner.kind == 'trait' or getattr(f.owner, 'trait', None)):
            continue
        own = p.rsplit('::', 1)[0]
        if own == prefix or fn.path.startswith(own + '::') or own.split('::')[0] == modpath[0]:
            ms = re.match(r'\s*(&\s*)?(mut\s+)?self\b', f.params)
            has_self = (('&' if ms.group(1) else '') + ('mut' if ms.group(1) and ms.group(2) else '') or 'self') if ms else ''
            hb = unwrap_block(D.strip_comments(f.body))
            for a, b in spec.subs:
                hb = re.sub(a, b, hb, flags=re.S)
            helpers.setdefault(f.name, {'params': fn_params(f.params), 'body': hb, 'ret': f.ret,
                                        'generic': bool(f.generics), 'self': has_self, 'path': p})
    used = [h for h in helpers if re.search(r'\b%s\s*\(' % h, body)]
    # names that also belong to a contracted function are ambiguous: leave them alone
    cnames = {s.rsplit('::', 1)[1] for s in specnames if '::' in s}
    helpers = {h: v for h, v in helpers.items() if h not in cnames}
    body = D.inline_helpers(body, helpers, ctx)
    body = types(body)
    body = D.opaque_errors(body)
    for _ in range(20):
        b0 = body
        body = D.chains(body, ctx)
        body = D.block_recv(body, ctx)
        if body == b0:
            break
    body = D.collect_results(body)
    body = D.bool_or(body)
    body = D.destructs(body, ctx)
    body = D.counting(body)
    body = D.fors(body, ctx)
    for a, b in GENERIC_SUBS[src_obj.crate]:
        body = re.sub(a, b, body)
    body = scaled_sizes(body, src_obj)
    if src_obj.crate == 'main':
        body = json_macro(body, src_obj.field_id)
    body = D.add_args(body, calls)
    for a, b in spec.subs2:
        body = re.sub(a, b, body, flags=re.S)
    return body, [h for h in used if h in helpers]


def scaled_sizes(body, src_obj):
    """(C * n as f64) as usize, C a constant of the source between 0 and 2: a call of ext::scaled, whose contract is
    r <= 2 n (multiplication by C and rounding are monotonic, and 2 n is exact)"""
    def value(c, depth=0):
        c = re.sub(r'_?f64\b', '', c.strip())
        if re.fullmatch(r'[\d. */()+-]+', c):
            try:
                return float(eval(c, {'__builtins__': {}}))
            except Exception:
                return None
        m = re.fullmatch(r'(?:\w+::)*(\w+)', c)
        if not m or depth > 3:
            return None
        vals = set()
        for path, it in src_obj.consts.items():
            if path.split('::')[-1] == m.group(1):
                k = re.search(r'=\s*(.*?)\s*;', it.text, re.S)
                vals.add(value(k.group(1), depth + 1) if k else None)
        return vals.pop() if len(vals) == 1 else None

    def rep(m):
        v = value(m.group(1))
        return 'crate::ext::scaled(%s)' % m.group(2) if v is not None and 0 <= v <= 2 else m.group(0)
    return re.sub(r'\(\s*([\w.:]+|\([\d. */]+\))\s*\*\s*(\w+)\s+as\s+f64\s*\)\s*as\s+usize', rep, body)


def locals_of(body):
    """[(name, loop depth, class of the initialiser)] of the let-bound variables, in textual order"""
    toks, mt, ls = D.loops_of(body)
    spans = [(j, mt[j]) for _, _, j in ls]
    out = []
    for i, t in enumerate(toks):
        if t.t != 'let' or toks[i + 1].t == 'ghost' or (i and toks[i - 1].t in ('if', 'while', '&&')):
            continue
        depth = sum(1 for a, b in spans if a < i < b)
        y = i + 1
        names = []
        while toks[y].t not in ('=', ';', ':'):
            if toks[y].k == 'id' and toks[y].t not in ('mut', 'ref'):
                names.append(toks[y].t)
            y += 1
        while toks[y].t not in ('=', ';'):
            y = mt[y] + 1 if toks[y].t in OPENS else y + 1
        s = y + 1
        e = y
        while toks[e].t != ';':
            e = mt[e] + 1 if toks[e].t in OPENS else e + 1
        init = body[toks[s].s:toks[e - 1].e].strip() if e > s else ''
        if re.match(r'(Vec\s*::\s*(<[^>]*>\s*::\s*)?(new|with_capacity)\b|vec!|crate::ext::(empty_vecs|vec_copy|from_elem_default))', init):
            cls = 'vec'
        elif re.fullmatch(r'(true|false)', init):
            cls = 'bool'
        elif re.fullmatch(r'\d\w*', init):
            cls = 'num'
        elif re.fullmatch(r'&?[\w.]+\[[^\]]*\]', init):
            cls = 'elem'
        else:
            m = re.match(r'(?:[\w.]+::|[\w.]+\.)*(\w+)\s*\(', init)
            cls = 'call ' + m.group(1) if m else re.sub(r'\s+', ' ', init)[:80]
        for z, n in enumerate(names):
            out.append([n, depth, cls if len(names) == 1 else 'tuple %d %s' % (z, cls)])
    return out


def rename_map(old, new, needed):
    """old, new: locals_of; which new local plays the part of each old one the contracts mention (proof hints only)"""
    cur = {n for n, _, _ in new}
    out, used = {}, set()
    for name in needed:
        if name in cur and not name.startswith('__'):
            used.add(name)
    for name in needed:
        if name in used:
            continue
        feats = [(d, c) for n, d, c in old if n == name]
        if not feats:
            continue
        if any(n == name and (d, c) in feats for n, d, c in new):
            continue
        oldnames = {n for n, _, _ in old}
        best = None
        for lvl in range(3):
            for n, d, c in new:
                if n in used or (n in oldnames and not n.startswith('__')):
                    continue
                if (lvl == 0 and (d, c) in feats) or (lvl == 1 and c in [f[1] for f in feats]) or (lvl == 2 and d in [f[0] for f in feats] and c.split(' ')[0] == feats[0][1].split(' ')[0]):
                    best = n
                    break
            if best:
                break
        if best:
            out[name] = best
            used.add(best)
    return out


def renamed(spec, fn, body, base):
    """The contract text with the names the current code uses for its parameters and locals."""
    ps = [p for p, _ in fn_params(fn.params)]
    ren = {}
    bp = base.get('params', [])
    if len(bp) == len(ps):
        ren = {a: b for a, b in zip(bp, ps) if a != b and a not in ps and re.fullmatch(r'\w+', a) and re.fullmatch(r'\w+', b)}
    text = '\n'.join('\n'.join(v) for k, v in spec.sec.items() if k != 'spec') + ' ' + ' '.join(k for k in spec.sec)
    needed = [n for n in dict.fromkeys(n for n, _, _ in base.get('locals', [])) if re.search(r'(?<![\w.])%s\b' % n, text)]
    loc = rename_map(base.get('locals', []), locals_of(body), needed) if body is not None else {}
    loc = {a: b for a, b in loc.items() if a not in ren}
    if not ren and not loc:
        return spec
    sp = FnSpec(spec.path, spec.name)
    sp.__dict__.update(spec.__dict__)
    sp.sec = {}
    both = dict(loc, **ren)

    def ap(s, mp):
        if not mp:
            return s
        return re.sub(r'(?<![\w.])(%s)\b' % '|'.join(mp), lambda m: mp[m.group(1)], s)
    for k, v in spec.sec.items():
        m = re.match(r'stmt (\S+)(.*)$', k)
        k2 = 'stmt ' + both.get(m.group(1), m.group(1)) + m.group(2) if m else k
        sp.sec[k2] = [ap(l, ren if k == 'spec' else both) for l in v]
    return sp


def loop_shape(body):
    return ','.join(k for k, i, j in D.loops_of(body)[2])


def weave_body(spec, body):
    toks, mt, ls = D.loops_of(body)
    shape = ','.join(k for k, _, _ in ls)
    eds = []
    want = {}
    for sec, lines in spec.sec.items():
        m = re.match(r'(loop|body|bodyend|before|after) (\d+)$', sec)
        if m:
            want[(m.group(1), int(m.group(2)))] = '\n'.join(lines)
    lvars, heads, nums, his = [], {}, {}, {}
    for kind, i, j in ls:
        v = ''
        if kind == 'for':
            q = i + 1
            while toks[q].t != 'in':
                q += 1
            v = body[toks[i + 1].s:toks[q - 1].e].strip()
            m = re.search(r'\.\.\s*([\w.]+(?:\.len\(\))?)$', body[toks[q + 1].s:toks[j - 1].e].strip())
            if m:
                his[len(lvars)] = m.group(1)
        else:
            # `while __nK < ..` made from a for-range loop: the next `let` names the variable
            m = re.match(r'\s*(?:__n\d+ -= 1; )?let (\w+) = __n(\d+);(?: __n\d+ \+= 1;)?', body[toks[j].e:])
            v = m.group(1) if m else ''
            if m:
                heads[len(lvars)] = toks[j].e + m.end()
                nums[len(lvars)] = m.group(2)
        lvars.append(v)

    def lv(text):
        return re.sub(r'\$i(\d+)', lambda m: lvars[int(m.group(1))] if int(m.group(1)) < len(lvars) else m.group(0), text)
    mx = max([k for _, k in want] + [-1])
    if mx >= len(ls):
        raise Lost('loop %d is gone (%d loops)' % (mx, len(ls)))
    for (what, k), text in want.items():
        kind, i, j = ls[k]
        text = re.sub(r'\$i(?!\d)', lvars[k], lv(text))
        if k in his:
            text = re.sub(r'\$h\b', his[k], text)
        text = re.sub(r'\$([nh])\b', lambda m: '__%s%s' % (m.group(1), nums.get(k, '')), text)
        if what == 'loop':
            eds.append((toks[j].s, toks[j].s, '\n' + text + '\n'))
        elif what == 'body':
            p = heads.get(k, toks[j].e)
            eds.append((p, p, '\n' + text + '\n'))
        elif what == 'bodyend':
            # a body that ends in a unit expression needs a separator
            p = toks[mt[j]].s
            last = toks[mt[j] - 1].t
            sep = '' if last in (';', '}', '{') else ';'
            eds.append((p, p, sep + '\n' + text + '\n'))
        elif what == 'before':
            eds.append((toks[i].s, toks[i].s, '\n' + text + '\n'))
        elif what == 'after':
            eds.append((toks[mt[j]].e, toks[mt[j]].e, '\n' + text + '\n'))
    for sec, lines in spec.sec.items():
        lines = [lv(x) for x in lines]
        m = re.match(r'(call|aftercall|stmt) (\S+)(?: (\d+))?$', sec)
        if m:
            name, k = m.group(2), int(m.group(3) or 0)
            cnt = 0
            pos = None
            for z, t in enumerate(toks):
                if m.group(1) == 'stmt':
                    if t.k == 'id' and t.t == 'let':
                        y = z + 1
                        while toks[y].t in ('mut', '('):
                            y += 1
                        if toks[y].t == name:
                            if cnt == k:
                                pos = z
                                break
                            cnt += 1
                elif t.k == 'id' and t.t == name and toks[z + 1].t in ('(',):
                    if cnt == k:
                        pos = z
                        break
                    cnt += 1
            if pos is None:
                raise Lost('anchor %s is gone' % sec)
            if m.group(1) == 'call':
                # the start of the statement: back to the previous ; { }
                y = pos
                while y > 0 and toks[y - 1].t not in (';', '{', '}'):
                    y = mt[y - 1] if toks[y - 1].t in (')', ']') else y - 1
                eds.append((toks[y].s, toks[y].s, '\n' + '\n'.join(lines) + '\n'))
            else:
                y = pos
                while toks[y].t != ';':
                    y = mt[y] + 1 if toks[y].t in OPENS else y + 1
                eds.append((toks[y].e, toks[y].e, '\n' + '\n'.join(lines) + '\n'))
    if 'tail' in spec.sec:
        p = tail_start(body)
        eds.append((p, p, '\n' + lv('\n'.join(spec.sec['tail'])) + '\n'))
    # several insertions at one position keep their order
    merged = {}
    for s, e, t in eds:
        merged.setdefault(s, []).append(t)
    out, last = [], 0
    for s in sorted(merged):
        out.append(body[last:s])
        out.append('\n'.join(merged[s]))
        last = s
    out.append(body[last:])
    body = ''.join(out)
    st = '\n'.join(spec.sec.get('start', []))
    fin = '\n'.join(spec.sec.get('finish', []))
    return (st + '\n' if st else '') + body + ('\n' + fin if fin else ''), shape


HINT_LEMMAS = 'broadcast use {crate::math::group_hints};\n'


def sha(t):
    return hashlib.sha256(t.encode()).hexdigest()[:16]


def sig_text(spec, fn, types):
    name = spec.name or fn.name
    params = types(fn.params).strip().rstrip(',')
    if spec.gparams:
        params = (params + ', ' if params else '') + ', '.join(spec.gparams)
    ret = spec.rettype or types(fn.ret or '')
    r = ''
    if ret:
        r = ' -> (%s: %s)' % (spec.ret, ret) if spec.ret else ' -> ' + ret
    gen = spec.opts.get('generics', '')
    g = types(fn.generics or '')
    if gen:
        g = gen.replace('~', ' ')
    where = types(fn.where or '')
    return 'fn %s%s(%s)%s %s' % (name, g, params, r, where)


def emit_fn(src, spec, fn, specnames, calls, types, external, notes, vacuity=False, base=None, hints=()):
    """Text of the woven function.  Raises Lost."""
    ttext = re.sub(r'\s+', ' ', D.strip_comments((fn.params or "") + (fn.ret or "") + (fn.body or "")))
    changed = bool(base) and base.get('sha') != sha(ttext)
    if changed:
        spec = renamed(spec, fn, None, base)
    in_trait_decl = fn.body is None
    head = ''.join(a + '\n' for a in spec.attrs)
    owner = getattr(fn, 'owner', None)
    vis = '' if (owner is not None and (owner.kind == 'trait' or (getattr(owner, 'trait', None) and spec.opts.get('vis') != 'pub'))) else 'pub '
    if spec.opts.get('vis') == 'pub':
        vis = 'pub '
    if spec.opts.get('vis') == 'none':
        vis = ''
    spectext = '\n'.join(spec.sec.get('spec', []))
    sig = sig_text(spec, fn, types)
    if in_trait_decl:
        return head + vis + sig + '\n' + spectext + ';\n', ''
    if external or spec.opts.get('external'):
        return '#[verifier::external_body]\n' + head + vis + sig + '\n' + spectext + '\n{ unimplemented!() }\n', ''
    body, used = rewrite_body(src, spec, fn, specnames, calls, types)
    if used:
        notes.setdefault('inlined', {})[fn.path] = used
    notes['locals'] = locals_of(body)
    if changed:
        spec = renamed(spec, fn, body, dict(base, params=[]))
    body, shape = weave_body(spec, body)
    if hints:
        head += ''.join('#[verifier::%s]\n' % h for h in hints if h != 'lemmas')
        if 'lemmas' in hints:
            body = HINT_LEMMAS + body
    if vacuity:
        body = 'assert(false);\n' + body
    return head + vis + sig + '\n' + spectext + '\n{\n' + body + '\n}\n', shape


def moved(source, path, specnames):
    """The function a contract is about, when it now lives in another module (same name, same type)."""
    seg = path.split('::')
    out = []
    for p, f in source.fns.items():
        q = p.split('::')
        if p in specnames or q[-1] != seg[-1] or f.body is None:
            continue
        owner = getattr(f, 'owner', None)
        meth = owner is not None
        if meth != (len(seg) > 1 and seg[-2][:1].isupper()) or (meth and q[-2] != seg[-2]):
            continue
        out.append(f)
    return out[0] if len(out) == 1 else None


def emit_struct(it, types):
    t = it.text
    toks = rsx.tokenize(t)
    # drop attributes and comments, make the item and its fields public
    out = D.strip_comments(t)
    out = re.sub(r'\bpub\b\s*(?:\((?:crate|super|self|in[^)]*)\)\s*)?', '', out)
    toks, mt = D.T(out)
    b = None
    for i, x in enumerate(toks):
        if x.t in ('{', '('):
            b = i
            break
    eds = []
    if b is not None:
        parts = rsx.split_top(out[toks[b].e:toks[mt[b]].s])
        inner = ', '.join('pub ' + p for p in parts)
        eds.append((toks[b].e, toks[mt[b]].s, ' ' + inner + ' '))
    out = D.splice(out, eds)
    return 'pub ' + types(out).strip()


class Crate:
    """The generated Verus file: contracts of /verif/specs woven into /repo's functions."""

    def __init__(self, sources, spec_files, calls, types, extra_mods, post_mods=()):
        """spec_files: [(module, file, vars, source key)]"""
        self.sources = sources
        self.calls, self.types, self.extra_mods, self.post_mods = calls, types, extra_mods, post_mods
        self.modules = []
        bl = os.path.join(VERIF, 'specs', 'baseline.json')
        self.baseline = json.load(open(bl)) if os.path.exists(bl) else {}
        for mod, fname, vars, key in spec_files:
            text = open(os.path.join(VERIF, 'specs', fname)).read()
            self.modules.append((mod, parse_spec(text, vars), key))
        self.specs = {}
        self.specnames = {k: set() for k in sources}
        self.fields, self.codecs = {}, []
        for src in sources.values():
            src.field_id = self.field_id
        for mod, items, key in self.modules:
            for it in items:
                if it[0] == 'codec':
                    self.codecs.append('codec:' + it[1])
                if it[0] == 'fn':
                    self.specs[it[1].path] = (mod, it[1], key)
                    self.specnames[key].add(it[1].path)

    def field_id(self, name):
        return self.fields.setdefault(name, len(self.fields))

    def generate(self, verify=None, lost=(), drop=(), post=True, vacuity=False, hints=None):
        """verify: set of function paths to verify (None = all); lost: paths given up on (contract assumed);
        drop: paths left out altogether; post: emit the theorems; vacuity: put assert(false) at every start.
        Returns (text, ranges, info)."""
        out, ranges, info = [], [], {'lost': {}, 'shapes': {}, 'inlined': {}, 'emitted': [], 'external': [], 'codecs': [], 'gone': []}
        line = 1

        def put(s):
            nonlocal line
            if not s.endswith('\n'):
                s += '\n'
            out.append(s)
            line += s.count('\n')
        put(open(os.path.join(VERIF, 'specs', 'header.rs')).read())

        def put_raw(m):
            put('pub mod %s {\n' % m)
            l0 = line
            put(open(os.path.join(VERIF, 'specs', m + '.rs')).read())
            ranges.append((l0, line - 1, 'raw:' + m))
            put('}\n')
        for m in self.extra_mods:
            put_raw(m)
        for mod, items, key in self.modules:
            source, types, calls = self.sources[key], self.types[key], self.calls[key]
            put('pub mod %s {\n' % mod)
            head = open(os.path.join(VERIF, 'specs', 'modhead_%s.rs' % key)).read()
            put(re.sub(r'(?m)^.*use crate::%s::\*;$' % mod, '', head))
            put('verus! {\n')
            for it in items:
                if it[0] == 'raw':
                    l0 = line
                    put(it[1])
                    ranges.append((l0, line - 1, 'raw:' + mod))
                elif it[0] == 'struct':
                    s = source.structs.get(it[1])
                    if s is None:
                        info['lost'][it[1]] = 'struct is gone'
                        continue
                    l0 = line
                    put(emit_struct(s, types))
                    ranges.append((l0, line - 1, 'struct:' + it[1]))
                elif it[0] == 'codec':
                    s = source.structs.get(it[1])
                    if s is None:
                        info['lost'][it[1]] = 'struct is gone'
                        continue
                    label = 'codec:' + it[1]
                    admit = (verify is not None and label not in verify)
                    l0 = line
                    text, why = emit_codec(s, types, self.field_id, admit, 'given up' if label in lost else None)
                    if why:
                        info['lost'][label] = why
                    elif not admit:
                        info['codecs'].append(label)
                    put(text)
                    ranges.append((l0, line - 1, label))
                elif it[0] == 'const':
                    s = source.consts.get(it[1])
                    if s is None:
                        info['lost'][it[1]] = 'constant is gone'
                        continue
                    l0 = line
                    put('pub ' + re.sub(r'^(pub\s*)?static', 'const', re.sub(r'^pub(\([^)]*\))?\s+', '', s.decl)))
                    ranges.append((l0, line - 1, 'const:' + it[1]))
                else:
                    sp = it[1]
                    fn = source.fns.get(sp.path)
                    if sp.path in drop:
                        continue
                    if fn is None:
                        fn = moved(source, sp.path, self.specnames[key])
                    if fn is None:
                        last = sp.path.rsplit('::', 1)[-1]
                        if any(f.body and re.search(r'\b%s\s*(::\s*<[^>]*>\s*)?\(' % last, D.strip_comments(f.body)) for f in source.fns.values()):
                            info['lost'][sp.path] = 'function is gone'
                        else:
                            info['gone'].append(sp.path)
                        continue
                    ext = bool(sp.opts.get('external')) or sp.path in lost or (verify is not None and sp.path not in verify)
                    l0 = line
                    try:
                        notes = {}
                        text, shape = emit_fn(source, sp, fn, self.specnames[key], calls, types, ext, notes, vacuity, self.baseline.get(sp.path), (hints or {}).get(sp.path, ()))
                        if not ext:
                            info['shapes'][sp.path] = shape
                            info.setdefault('text', {})[sp.path] = re.sub(r'\s+', ' ', D.strip_comments((fn.params or "") + (fn.ret or "") + (fn.body or "")))
                            info['emitted'].append(sp.path)
                            info.setdefault('locals', {})[sp.path] = notes.get('locals', [])
                            info.setdefault('params', {})[sp.path] = [p for p, _ in fn_params(fn.params)]
                            if notes.get('inlined'):
                                info['inlined'].update(notes['inlined'])
                        else:
                            info['external'].append(sp.path)
                    except (Lost, rsx.ParseError, IndexError, KeyError) as x:
                        info['lost'][sp.path] = '%s: %s' % (type(x).__name__, x)
                        try:
                            text, shape = emit_fn(source, sp, fn, self.specnames[key], calls, types, True, {}, False, self.baseline.get(sp.path))
                        except Exception as y:
                            info['lost'][sp.path] += ' / %s' % y
                            continue
                    put(text)
                    ranges.append((l0, line - 1, 'fn:' + sp.path))
            put('} // verus!\n}\n')
        for m in self.post_mods if post else ():
            put_raw(m)
        put('fn main() {}\n')
        return ''.join(out), ranges, info
