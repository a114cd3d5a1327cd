#!/usr/bin/env python3
"""Mechanical extraction of the code under proof.

An annotated file under /verif/annot holds, between `//@item FILE KEY` and `//@end`, the text of one item of
/repo with specifications inserted:
    /*+*/ ghost text /*-*/                 inserted by the proof, absent from the source
    /*~NAME| source tokens |~*/ new /*~*/  a stated rewrite: `source tokens` in /repo, `new` in the verified text
Everything else must be, token for token, the current source (after the general rules of `normalise`).
On every run the item is located in the current working tree.  If the tokens agree the annotated text is used
as it is.  If they differ, the ghost text is carried over to the current tokens by a token diff (three way merge
with the annotated text as ancestor); where that is not possible the item is reported as a lost anchor.
"""
import collections, re, sys, os, difflib

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.)')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<op>&&&|\|\|\||<==>|==>|<==|=~=|!==|===|\.\.=|\.\.\.|<<=|>>=|\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|.)
''', re.X | re.S)


class Tok:
    __slots__ = ('t', 'k', 'pos', 'end')

    def __init__(s, t, k, pos, end):
        s.t, s.k, s.pos, s.end = t, k, pos, end

    def __repr__(s):
        return s.t


def skip_block_comment(src, i):
    d = 0
    n = len(src)
    while i < n:
        if src.startswith('/*', i):
            d += 1
            i += 2
        elif src.startswith('*/', i):
            d -= 1
            i += 2
            if d == 0:
                return i
        else:
            i += 1
    return n


def tokenize(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'str'
        if k == 'bc':
            i = skip_block_comment(src, i)
            continue
        if k in ('ws', 'lc'):
            i = m.end()
            continue
        kk = [g for g in ('str', 'chr', 'life', 'id', 'num', 'op') if m.group(g) is not None][0]
        out.append(Tok(m.group(0), kk, i, m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


def match_close(toks, i):
    d = 0
    while i < len(toks):
        if toks[i].t in OPEN:
            d += 1
        elif toks[i].t in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def skip_attrs(toks, i):
    while i < len(toks) and toks[i].t == '#':
        j = i + 1
        if toks[j].t == '!':
            j += 1
        i = match_close(toks, j) + 1
    return i


def last_path_ident(ts):
    # last identifier of a path before generics
    d = 0
    name = None
    for t in ts:
        if t.t == '<':
            d += 1
        elif t.t == '>':
            d -= 1
        elif t.t == '>>':
            d -= 2
        elif d == 0 and t.k == 'id' and t.t not in ('dyn', 'mut', 'for', 'where'):
            name = t.t
    return name


def items(toks, lo=0, hi=None, prefix=''):
    """yield (key, lo, hi) for the items in toks[lo:hi], attributes and visibility excluded"""
    if hi is None:
        hi = len(toks)
    i = lo
    while i < hi:
        a = i
        i = skip_attrs(toks, i)
        attrs = ''.join(t.t for t in toks[a:i])
        if i >= hi:
            return
        if toks[i].t == 'pub':
            i += 1
            if toks[i].t == '(':
                i = match_close(toks, i) + 1
        s = i
        while toks[i].t in ('unsafe', 'async', 'default', 'extern') or (toks[i].t == 'const' and toks[i + 1].t == 'fn'):
            i += 1
        kw = toks[i].t
        if kw == 'fn' or kw in ('struct', 'enum', 'trait', 'mod', 'const', 'static', 'type', 'use', 'union'):
            name = toks[i + 1].t
            j = i
            if kw in ('const', 'static', 'type', 'use'):
                while toks[j].t != ';':
                    j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
                e = j + 1
            else:
                while toks[j].t not in ('{', ';'):
                    j = match_close(toks, j) + 1 if toks[j].t in ('(', '[') else j + 1
                e = match_close(toks, j) + 1 if toks[j].t == '{' else j + 1
            yield (prefix + kw + ' ' + name, s, e, attrs)
            i = e
        elif kw == 'impl':
            j = i + 1
            if toks[j].t == '<':
                d = 0
                while True:
                    if toks[j].t == '<':
                        d += 1
                    elif toks[j].t == '>':
                        d -= 1
                    elif toks[j].t == '>>':
                        d -= 2
                    j += 1
                    if d == 0:
                        break
            h = j
            while toks[j].t != '{':
                j += 1
            head = toks[h:j]
            w = [x for x, t in enumerate(head) if t.t == 'where']
            if w:
                head = head[:w[0]]
            f = [x for x, t in enumerate(head) if t.t == 'for']
            if f:
                key = 'impl ' + last_path_ident(head[:f[0]]) + ' for ' + str(last_path_ident(head[f[0] + 1:]))
            else:
                key = 'impl ' + str(last_path_ident(head))
            e = match_close(toks, j) + 1
            yield (prefix + key, s, e, attrs)
            yield from items(toks, j + 1, e - 1, prefix + key + ' / ')
            i = e
        elif kw == 'macro_rules':
            while toks[i].t != '{':
                i += 1
            i = match_close(toks, i) + 1
        elif kw == ';':
            i += 1
        else:
            raise ValueError('cannot parse item at %r' % (toks[i:i + 6],))


class Source:
    def __init__(s, path):
        s.path = path
        s.text = open(path).read()
        s.toks = tokenize(s.text)
        s.items = {}
        for key, lo, hi, attrs in items(s.toks):
            if 'cfg(test)' in attrs or 'target_pointer_width="32"' in attrs or 'cfg(smdiff_verif)' in attrs:
                continue
            s.items.setdefault(key, []).append((lo, hi))


# ---------------------------------------------------------------- general rewrite rules
RULES = {
    'G1': 'comments, attributes (#[inline], #[derive], #[allow]) and visibility modifiers are dropped',
    'G2': 'assert!/debug_assert!(E, message..) becomes vp_assert(E) whose precondition is E: the assertion is proved, not trusted',
    'G3': 'std::io::Error::new(kind, message) becomes vp_error(): the kind and text of an error are not modelled',
    'G4': 'println!/eprintln!/dbg! statements are dropped (they only print)',
    'G5': 'panic!/unreachable!(..) becomes vp_panic() whose precondition is false: unreachability is proved',
    'G7': 'to_le_bytes/from_le_bytes become vp_to_le_bytes/vp_from_le_bytes, which call them and carry a (trusted) contract',
    'G8': 'local variables called int/nat are renamed int_/nat_ (names of ghost types in Verus)',
    'G9': 'iterator consumers become the loop that defines them: X.fold(I, |a, P| E) is { let mut a = I; for P in X { a = E; } a }, X.all(|P| E) is { let mut vp_all = true; for P in X { if !(E) { vp_all = false; break; } } vp_all }, X.for_each(|P| E) is for P in X { E; }',
    'G11': 'X.map_or(D, |P| E) becomes (match X { Some(P) => E, None => D }) and X.is_some_and(|P| E) (match X { Some(P) => E, None => false }), their definition on Option',
    'G12': 'a range of a Vec or slice used as a place, &mut X[a..b] or X[a..b].fill(..), becomes X.vp_mut()[a..b]; vp_mut is the view of X as one mutable slice (verified, annot/io.rs)',
    'G10': 'for (I, P) in X.enumerate() { B } becomes { let mut vp_n: usize = 0; for P in X { let I = vp_n; vp_n += 1; B } } (a counter beside the loop)',
    'G14': 'for P in X.filter(|a| C) { B } becomes for P in X { if { let a = &P; C } { B } }',
    'G15': 'X.extend(std::iter::repeat_with(|| E).take(N)); becomes for _vp_i in 0..N { X.push(E); }',
    'G16': 'X.take_while(|P| C).count() becomes { let mut vp_c: usize = 0; for P in X { if !(C) { break; } vp_c += 1; } vp_c }, and X.take_while(|P| C).for_each(|_| E) becomes for P in X { if !(C) { break; } E; }',
    'G17': 'for X in A..B { B }, where B contains continue, becomes { let mut vp_n = A; let vp_end = B; while vp_n < vp_end { let X = vp_n; vp_n += 1; B } }',
    'G18': 'for P in R.step_by(S).rev() { B } becomes { let vp_r = R; let vp_s = S; vp_assert(vp_s != 0); let mut vp_n: usize = if vp_r.start < vp_r.end { (vp_r.end - vp_r.start - 1) / vp_s + 1 } else { 0 }; while vp_n > 0 { vp_n -= 1; let P = vp_r.start + vp_n * vp_s; B } }',
    'G19': 'X.as_mut().map(|P| E) and X.last().map(|P| E) become (match X.. { Some(P) => Some(E), None => None })',
    'G20': 'let mut I = std::iter::once(A).chain(B).filter(|P| C); becomes let mut vp_first = Some(A); let mut vp_rest = B; and the later I.next() becomes { let mut vp_r = None; loop { let vp_s = match vp_first.take() { Some(vp_x) => Some(vp_x), None => vp_rest.next() }; match vp_s { Some(vp_x) => { if { let P = &vp_x; C } { vp_r = Some(vp_x); break; } }, None => { break; } } } vp_r } (their definition)',
    'G21': 'X.get_or_insert(E); with the result unused becomes X.vp_fill(E); (verified, annot/io.rs)',
    'G22': 'let N = |P1: T1, ..| B; where N is only called, B neither returns nor uses ?, and no name of B is bound again: each call N(A1, ..) becomes { let P1: T1 = A1; .. B }',
    'G23': 'fn F(mut self, ..) { B } becomes fn F(self, ..) { let mut vp_self = self; B with vp_self for self }',
    'G24': 'X.into_iter().map(|P| E).collect() becomes { let mut vp_v = Vec::new(); for P in X { vp_v.push(E); } vp_v }',
    'G25': '(A..B).contains(&X), where A, B and X are variables or fields, becomes (A <= X && X < B)',
    'G26': 'X.map(|P| E).sum() becomes { let mut vp_s = 0; for P in X { vp_s += E; } vp_s }',
    'G27': 'X.binary_search_by(F) becomes vp_binary_search_by(X, F), which calls it and carries a (trusted) contract',
    'G28': 'X.sort_by_key(|k| k.0); becomes vp_sort_by_first(&mut X);, which does it and carries a (trusted) contract',
    'G29': 'for P in [A, ..] { B } becomes { let mut vp_it = vp_array_iter([A, ..]); loop { match vp_it.next() { Some(P) => { B } _ => break } } }; vp_array_iter is the iterator of the array and carries a (trusted) contract',
    'G30': 'in units marked //@alloc (they read untrusted bytes) v.reserve(n), Vec::with_capacity(n), vec![x; n] and v.resize(n, x) become calls of functions of annot/io.rs that do the same and demand n <= 65535 (more than present)',
    'G6': '.expect(message) becomes .unwrap() (same panic condition)',
}


def mk(t, like):
    k = 'id' if re.match(r'[A-Za-z_]', t) else ('num' if t[0].isdigit() else 'op')
    return Tok(t, k, like.pos, like.end)


def split_args(toks):
    """split token list at top level commas"""
    out = [[]]
    d = 0
    for t in toks:
        if t.t in OPEN:
            d += 1
        elif t.t in CLOSE:
            d -= 1
        if t.t == ',' and d == 0:
            out.append([])
        else:
            out[-1].append(t)
    return out


ALLOC = [False]  # rule G30 applies (the unit says //@alloc)


def normalise(toks, used=None):
    used = used if used is not None else {}

    def use(r):
        used[r] = used.get(r, 0) + 1
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if t.t == '#' and i + 1 < n and toks[i + 1].t in ('[', '!') and (toks[i + 1].t == '[' or (i + 2 < n and toks[i + 2].t == '[')):
            use('G1')
            i = skip_attrs(toks, i)
            continue
        if t.t == 'pub':
            i += 1
            if i < n and toks[i].t == '(' and toks[i + 1].t in ('crate', 'super', 'in', 'self'):
                i = match_close(toks, i) + 1
            continue
        if t.t in ('assert', 'debug_assert') and i + 2 < n and toks[i + 1].t == '!' and toks[i + 2].t == '(':
            j = match_close(toks, i + 2)
            a = split_args(toks[i + 3:j])[0]
            use('G2')
            out += [mk('vp_assert', t), mk('(', t)] + normalise(a, used) + [mk(')', t)]
            i = j + 1
            continue
        if t.t in ('assert_eq', 'debug_assert_eq') and i + 2 < n and toks[i + 1].t == '!' and toks[i + 2].t == '(':
            j = match_close(toks, i + 2)
            a = split_args(toks[i + 3:j])
            use('G2')
            out += [mk('vp_assert', t), mk('(', t)] + normalise(a[0], used) + [mk('==', t)] + normalise(a[1], used) + [mk(')', t)]
            i = j + 1
            continue
        if t.t in ('println', 'eprintln', 'dbg') and i + 2 < n and toks[i + 1].t == '!' and toks[i + 2].t == '(':
            j = match_close(toks, i + 2)
            if j + 1 < n and toks[j + 1].t == ';':
                use('G4')
                i = j + 2
                continue
        if t.t in ('panic', 'unreachable', 'unimplemented', 'todo') and i + 2 < n and toks[i + 1].t == '!' and toks[i + 2].t == '(':
            j = match_close(toks, i + 2)
            use('G5')
            out += [mk('vp_panic', t), mk('(', t), mk(')', t)]
            i = j + 1
            continue
        ts = [x.t for x in toks[i:i + 8]]
        for pat in (['std', '::', 'io', '::', 'Error', '::', 'new', '('], ['io', '::', 'Error', '::', 'new', '('], ['Error', '::', 'new', '(']):
            if ts[:len(pat)] == pat and not (i > 0 and toks[i - 1].t == '::'):
                j = match_close(toks, i + len(pat) - 1)
                use('G3')
                out += [mk('vp_error', t), mk('(', t), mk(')', t)]
                i = j + 1
                break
        else:
            if t.t == 'expect' and out and out[-1].t == '.' and i + 1 < n and toks[i + 1].t == '(' and toks[i + 2].k == 'str':
                j = match_close(toks, i + 1)
                use('G6')
                out += [mk('unwrap', t), mk('(', t), mk(')', t)]
                i = j + 1
                continue
            if t.t in ('to_le_bytes', 'from_le_bytes') and out and out[-1].t in ('.', '::'):
                use('G7')
                out.append(mk('vp_' + t.t, t))
                i += 1
                continue
            if ALLOC[0] and out and out[-1].t == '.' and t.t in ('reserve', 'reserve_exact', 'resize') and i + 1 < n and toks[i + 1].t == '(':
                use('G30')
                out.append(mk('vp_resize' if t.t == 'resize' else 'vp_reserve', t))
                i += 1
                continue
            if ALLOC[0] and [x.t for x in toks[i:i + 4]] == ['Vec', '::', 'with_capacity', '(']:
                use('G30')
                out.append(mk('vp_with_capacity', t))
                i += 3
                continue
            if ALLOC[0] and t.t == 'vec' and [x.t for x in toks[i + 1:i + 3]] == ['!', '[']:
                j = match_close(toks, i + 2)
                semi = [x for x in range(i + 3, j) if toks[x].t == ';']
                if len(semi) == 1:
                    use('G30')
                    out += [mk('vp_vec', t), mk('(', t)] + normalise(toks[i + 3:semi[0]], used) + [mk(',', t)] + normalise(toks[semi[0] + 1:j], used) + [mk(')', t)]
                    i = j + 1
                    continue
            if t.k == 'id' and t.t in ('int', 'nat', 'real'):
                use('G8')
                out.append(mk(t.t + '_', t))
                i += 1
                continue
            out.append(t)
            i += 1
            continue
        continue
    # trailing comma before a closing bracket carries no meaning
    res = []
    for x, t in enumerate(out):
        if t.t == ',' and x + 1 < len(out) and out[x + 1].t in ('}', ']'):
            continue
        res.append(t)
    return desugar(res, use)


def receiver_start(toks, d):
    """index of the first token of the postfix expression whose next '.' is at d"""
    i = d - 1
    while True:
        if toks[i].t in (')', ']'):
            k = 0
            while True:
                if toks[i].t in CLOSE:
                    k += 1
                elif toks[i].t in OPEN:
                    k -= 1
                    if k == 0:
                        break
                i -= 1
            # a call or an index continues to the left; a bare group is where it starts
            if i > 0 and (toks[i - 1].k == 'id' and toks[i - 1].t not in ('in', 'return', 'if', 'match', 'while', 'else', 'let', 'mut') or toks[i - 1].t in (')', ']', '?')) and not toks[i - 1].t == '=':
                i -= 1
                continue
            if toks[i - 1].t == '.' and False:
                continue
            return i
        elif toks[i].t == '?':
            i -= 1
            continue
        elif toks[i].k in ('id', 'num', 'str'):
            if i > 0 and toks[i - 1].t in ('.', '::'):
                i -= 2
                continue
            return i
        else:
            return i + 1


def closure_parts(toks):
    """(params, body) of a closure given by its tokens, or None"""
    if toks and toks[0].t == 'move':
        toks = toks[1:]
    if not toks or toks[0].t != '|':
        return None
    d = 0
    for j in range(1, len(toks)):
        if toks[j].t in OPEN:
            d += 1
        elif toks[j].t in CLOSE:
            d -= 1
        elif toks[j].t == '|' and d == 0:
            return split_args(toks[1:j]), toks[j + 1:]
    return None


def desugar(toks, use):
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t == '(' and i > 1 and (toks[i - 2].t == 'fn' or toks[i - 1].t == '>' and any(x.t == 'fn' for x in toks[max(0, i - 30):i])) and [x.t for x in toks[i + 1:i + 3]] == ['mut', 'self']:
            b = match_close(toks, i)
            while toks[b].t != '{':
                b += 1
            e = match_close(toks, b)
            M = lambda *w: [mk(x, t) for x in w]
            toks = toks[:i + 1] + toks[i + 2:b + 1] + M('let', 'mut', 'vp_self', '=', 'self', ';') + [mk('vp_self', x) if x.t == 'self' else x for x in toks[b + 1:e]] + toks[e:]
            use('G23')
        if t.t == 'map' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(':
            e = match_close(toks, i + 1)
            cl = closure_parts(toks[i + 2:e])
            last = [x.t for x in toks[e + 1:e + 5]]
            if cl and len(cl[0]) == 1 and last in (['.', 'collect', '(', ')'], ['.', 'sum', '(', ')']) and toks[i - 2].t == ')' and toks[i - 3].t == '(' and not any(x.t in ('return', '?') for x in cl[1]):
                a = receiver_start(toks, i - 1)
                M = lambda *w: [mk(x, t) for w_ in w for x in w_.split()]
                recv = toks[a:i - 1]
                if [x.t for x in recv[-4:]] == ['.', 'into_iter', '(', ')']:
                    recv = recv[:-4]
                if last[1] == 'collect' and len(recv) < i - 1 - a:
                    use('G24')
                    new = M('{ let mut vp_v = Vec :: new ( ) ; for') + cl[0][0] + M('in') + recv + M('{ vp_v . push (') + cl[1] + M(') ; } vp_v }')
                elif last[1] == 'sum':
                    use('G26')
                    new = M('{ let mut vp_s = 0 ; for') + cl[0][0] + M('in') + recv + M('{ vp_s +=') + cl[1] + M('; } vp_s }')
                else:
                    new = None
                if new:
                    toks = toks[:a] + new + toks[e + 5:]
                    i = a
                    continue
        if t.t == 'contains' and i > 2 and toks[i - 1].t == '.' and toks[i - 2].t == ')' and [x.t for x in toks[i + 1:i + 3]] == ['(', '&']:
            e = match_close(toks, i + 1)
            o = next((k for k in range(i - 3, -1, -1) if toks[k].t == '(' and match_close(toks, k) == i - 2), None)
            rng = toks[o + 1:i - 2] if o is not None else []
            d = [k for k, x in enumerate(rng) if x.t == '..']
            simple = lambda w: w and all(x.k in ('id', 'num') or x.t == '.' for x in w)
            if len(d) == 1 and simple(rng[:d[0]]) and simple(rng[d[0] + 1:]) and simple(toks[i + 3:e]) and not (o > 0 and toks[o - 1].k == 'id' and toks[o - 1].t not in ('if', 'return', 'while', 'match', 'in', 'else')):
                use('G25')
                x = toks[i + 3:e]
                toks = toks[:o] + [mk('(', t)] + rng[:d[0]] + [mk('<=', t)] + x + [mk('&&', t)] + x + [mk('<', t)] + rng[d[0] + 1:] + [mk(')', t)] + toks[e + 1:]
                i = o
                continue
        if t.t == 'binary_search_by' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(':
            a = receiver_start(toks, i - 1)
            use('G27')
            toks = toks[:a] + [mk('vp_binary_search_by', t), mk('(', t)] + toks[a:i - 1] + [mk(',', t)] + toks[i + 2:]
            i = a + 1
            continue
        if t.t == 'sort_by_key' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(':
            e = match_close(toks, i + 1)
            cl = closure_parts(toks[i + 2:e])
            if cl and len(cl[0]) == 1 and len(cl[0][0]) == 1 and [x.t for x in cl[1]] == [cl[0][0][0].t, '.', '0']:
                a = receiver_start(toks, i - 1)
                use('G28')
                toks = toks[:a] + [mk(x, t) for x in ('vp_sort_by_first', '(', '&', 'mut')] + toks[a:i - 1] + [mk(')', t)] + toks[e + 1:]
                i = a
                continue
        if t.t == 'take_while' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(':
            e = match_close(toks, i + 1)
            cl = closure_parts(toks[i + 2:e])
            if cl and len(cl[0]) == 1 and e + 3 < len(toks) and toks[e + 1].t == '.' and toks[e + 2].t in ('count', 'for_each') and toks[e + 3].t == '(':
                f = match_close(toks, e + 3)
                a = receiver_start(toks, i - 1)
                M = lambda *w: [mk(x, t) for x in w]
                P = cl[0][0]
                if P[0].t == '&':
                    pat, pre = P[1:], []
                elif len(P) == 1:
                    pat, pre = M('vp_x'), M('let') + P + M('=', '&', 'vp_x', ';')
                else:
                    pat = None
                head = M('for') + pat + M('in') + toks[a:i - 1] + M('{') + pre + M('if', '!', '(') + cl[1] + M(')', '{', 'break', ';', '}') if pat else None
                if pat and toks[e + 2].t == 'count':
                    use('G16')
                    new = M('{', 'let', 'mut', 'vp_c', ':', 'usize', '=', '0', ';') + head + M('vp_c', '+=', '1', ';', '}', 'vp_c', '}')
                    toks = toks[:a] + new + toks[f + 1:]
                    i = a
                    continue
                fe = closure_parts(toks[e + 4:f]) if pat else None
                if fe and [x.t for x in sum(fe[0], [])] == ['_']:
                    use('G16')
                    if f + 1 < len(toks) and toks[f + 1].t == ';':
                        f += 1
                    new = head + fe[1] + M(';', '}')
                    toks = toks[:a] + new + toks[f + 1:]
                    i = a
                    continue
        if t.t == 'extend' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(' and [x.t for x in toks[i + 2:i + 8]] == ['std', '::', 'iter', '::', 'repeat_with', '(']:
            e = match_close(toks, i + 1)
            q = match_close(toks, i + 7)
            cl = toks[i + 8:q]
            if cl[0].t == '||' and [x.t for x in toks[q + 1:q + 4]] == ['.', 'take', '('] and match_close(toks, q + 3) == e - 1 and toks[e + 1].t == ';':
                a = receiver_start(toks, i - 1)
                M = lambda *w: [mk(x, t) for x in w]
                use('G15')
                toks = toks[:a] + M('for', '_vp_i', 'in', '0', '..') + toks[q + 4:e - 1] + M('{') + toks[a:i - 1] + M('.', 'push', '(') + cl[1:] + M(')', ';', '}') + toks[e + 2:]
                i = a
                continue
        if t.t in ('fold', 'all', 'for_each') and i > 1 and toks[i - 1].t == '.' and i + 1 < len(toks) and toks[i + 1].t == '(':
            e = match_close(toks, i + 1)
            args = [toks[i + 2:e]]
            if t.t == 'fold':
                args = split_args(args[0])
                args = [args[0], toks[i + 2 + len(args[0]) + 1:e]]
            want = 2 if t.t == 'fold' else 1
            cl = closure_parts(args[-1]) if len(args) == want else None
            if cl and len(cl[0]) == want:
                a = receiver_start(toks, i - 1)
                recv = toks[a:i - 1]
                M = lambda *w: [mk(x, t) for x in w]
                if t.t == 'fold':
                    new = M('{', 'let', 'mut') + cl[0][0] + M('=') + args[0] + M(';', 'for') + cl[0][1] + M('in') + recv + M('{') + cl[0][0] + M('=') + cl[1] + M(';', '}') + cl[0][0] + M('}')
                elif t.t == 'all':
                    new = M('{', 'let', 'mut', 'vp_all', '=', 'true', ';', 'for') + cl[0][0] + M('in') + recv + M('{', 'if', '!', '(') + cl[1] + M(')', '{', 'vp_all', '=', 'false', ';', 'break', ';', '}', '}', 'vp_all', '}')
                else:
                    new = M('for') + cl[0][0] + M('in') + recv + M('{') + cl[1] + M(';', '}')
                    if e + 1 < len(toks) and toks[e + 1].t == ';':
                        e += 1
                use('G9')
                toks = toks[:a] + new + toks[e + 1:]
                i = a
                continue
        if t.t == '[' and i > 0 and (toks[i - 1].k == 'id' and toks[i - 1].t not in ('in', 'return', 'if', 'match', 'while', 'else', 'mut') or toks[i - 1].t in (')', ']')):
            e = match_close(toks, i)
            d, rng = 0, False
            for x in toks[i + 1:e]:
                d += x.t in OPEN
                d -= x.t in CLOSE
                rng = rng or d == 0 and x.t in ('..', '..=')
            if rng and [x.t for x in toks[i - 3:i]] != ['vp_mut', '(', ')']:
                # the postfix expression that ends before this bracket
                a = receiver_start(toks[:i] + [mk('.', t)], i)
                if a > 1 and toks[a - 1].t == 'mut' and toks[a - 2].t == '&' or e + 2 < len(toks) and toks[e + 1].t == '.' and toks[e + 2].t in ('fill', 'copy_from_slice', 'clone_from_slice', 'reverse', 'swap'):
                    use('G12')
                    toks = toks[:i] + [mk(x, t) for x in ('.', 'vp_mut', '(', ')')] + toks[i:]
                    i += 4
        if t.t in ('map_or', 'is_some_and') and i > 1 and toks[i - 1].t == '.' and i + 1 < len(toks) and toks[i + 1].t == '(':
            e = match_close(toks, i + 1)
            args = [toks[i + 2:e]]
            if t.t == 'map_or':
                args = split_args(args[0])
                args = [args[0], toks[i + 2 + len(args[0]) + 1:e]]
            cl = closure_parts(args[-1])
            if cl and len(cl[0]) == 1:
                a = receiver_start(toks, i - 1)
                M = lambda *w: [mk(x, t) for x in w]
                new = M('(', 'match') + toks[a:i - 1] + M('{', 'Some', '(') + cl[0][0] + M(')', '=>') + cl[1] + M(',', 'None', '=>') + (args[0] if t.t == 'map_or' else M('false')) + M('}', ')')
                use('G11')
                toks = toks[:a] + new + toks[e + 1:]
                i = a
                continue
        if t.t == 'let' and i + 3 < len(toks) and toks[i + 1].k == 'id' and toks[i + 2].t == '=' and toks[i + 3].t == '|':
            name, k, d = toks[i + 1].t, i + 3, 0
            while toks[k].t != ';' or d:
                d += toks[k].t in OPEN
                d -= toks[k].t in CLOSE
                k += 1
            cl = closure_parts(toks[i + 3:k])
            calls = [q for q in range(k + 1, len(toks)) if toks[q].t == name]
            if cl and all(len(x) > 2 and x[1].t == ':' for x in cl[0]) and not any(x.t in ('return', '?') for x in cl[1]) and calls and all(toks[q + 1].t == '(' and toks[q - 1].t not in ('.', 'let', '::') for q in calls):
                free = {x.t for x in cl[1] if x.k == 'id'} - {x[0].t for x in cl[0]}
                bound = {toks[q + 1].t if toks[q + 1].t != 'mut' else toks[q + 2].t for q in range(k, calls[-1]) if toks[q].t == 'let'}
                if not free & bound:
                    M = lambda *w: [mk(x, t) for x in w]
                    for q in reversed(calls):
                        e = match_close(toks, q + 1)
                        args = split_args(toks[q + 2:e])
                        if len(args) != len(cl[0]):
                            raise Lost('closure call')
                        new = M('{')
                        for P, A in zip(cl[0], args):
                            new += M('let') + P + M('=') + A + M(';')
                        toks = toks[:q] + new + cl[1] + M('}') + toks[e + 1:]
                    use('G22')
                    toks = toks[:i] + toks[k + 1:]
                    continue
        if t.t == 'get_or_insert' and i > 1 and toks[i - 1].t == '.' and toks[i + 1].t == '(' and toks[match_close(toks, i + 1) + 1].t == ';' and toks[receiver_start(toks, i - 1) - 1].t in (';', '{', '}'):
            use('G21')
            toks = toks[:i] + [mk('vp_fill', t)] + toks[i + 1:]
        if t.t == 'let' and [x.t for x in toks[i + 1:i + 2]] == ['mut'] and [x.t for x in toks[i + 3:i + 10]] == ['=', 'std', '::', 'iter', '::', 'once', '(']:
            M = lambda *w: [mk(x, t) for w_ in w for x in w_.split()]
            e = match_close(toks, i + 9)
            if [x.t for x in toks[e + 1:e + 4]] == ['.', 'chain', '(']:
                f = match_close(toks, e + 3)
                if [x.t for x in toks[f + 1:f + 4]] == ['.', 'filter', '(']:
                    g = match_close(toks, f + 3)
                    cl = closure_parts(toks[f + 4:g])
                    if cl and len(cl[0]) == 1 and toks[g + 1].t == ';':
                        name, rest, k = toks[i + 2].t, toks[g + 2:], 0
                        body = M('{ let mut vp_r = None ; loop { let vp_s = match vp_first . take ( ) { Some ( vp_x ) => Some ( vp_x ) , None => vp_rest . next ( ) } ; match vp_s { Some ( vp_x ) => { if { let') + cl[0][0] + M('= & vp_x ;') + cl[1] + M('} { vp_r = Some ( vp_x ) ; break ; } } , None => { break ; } } } vp_r }')
                        while k < len(rest):
                            if rest[k].t == name and [x.t for x in rest[k + 1:k + 5]] == ['.', 'next', '(', ')']:
                                rest = rest[:k] + body + rest[k + 5:]
                                k += len(body)
                            k += 1
                        use('G20')
                        toks = toks[:i] + M('let mut vp_first = Some (') + toks[i + 10:e] + M(') ; let mut vp_rest =') + toks[e + 4:f] + M(';') + rest
                        continue
        if t.t == 'map' and i > 4 and toks[i - 1].t == '.' and toks[i + 1].t == '(' and [x.t for x in toks[i - 3:i - 1]] == ['(', ')'] and toks[i - 4].t in ('as_mut', 'last') and toks[i - 5].t == '.':
            e = match_close(toks, i + 1)
            cl = closure_parts(toks[i + 2:e])
            if cl and len(cl[0]) == 1:
                a = receiver_start(toks, i - 1)
                M = lambda *w: [mk(x, t) for x in w]
                use('G19')
                toks = toks[:a] + M('(', 'match') + toks[a:i - 1] + M('{', 'Some', '(') + cl[0][0] + M(')', '=>', 'Some', '(') + cl[1] + M(')', ',', 'None', '=>', 'None', '}', ')') + toks[e + 1:]
                i = a
                continue
        if t.t == 'while' and i + 1 < len(toks) and toks[i + 1].t == 'let':
            # loop { match E { P => { body } _ => break } }
            q, d = i + 2, 0
            while toks[q].t != '=' or d:
                d += toks[q].t in OPEN
                d -= toks[q].t in CLOSE
                q += 1
            b, d = q + 1, 0
            while toks[b].t != '{' or d:
                d += toks[b].t in ('(', '[')
                d -= toks[b].t in (')', ']')
                b += 1
            e = match_close(toks, b)
            M = lambda *w: [mk(x, t) for x in w]
            use('G13')
            toks = toks[:i] + M('loop', '{', 'match') + toks[q + 1:b] + M('{') + toks[i + 2:q] + M('=>') + toks[b:e + 1] + M('_', '=>', 'break', '}', '}') + toks[e + 1:]
            continue
        if t.t == 'for' and i + 2 < len(toks) and toks[i + 1].k == 'id' and toks[i + 2].t == 'in':
            b, d = i + 3, 0
            while toks[b].t != '{' or d:
                d += toks[b].t in ('(', '[')
                d -= toks[b].t in (')', ']')
                b += 1
            if toks[i + 3].t == '[' and match_close(toks, i + 3) == b - 1:
                e = match_close(toks, b)
                M = lambda *w: [mk(x, t) for x in w]
                use('G29')
                toks = toks[:i] + M('{', 'let', 'mut', 'vp_it', '=', 'vp_array_iter', '(') + toks[i + 3:b] + M(')', ';', 'loop', '{', 'match', 'vp_it', '.', 'next', '(', ')', '{', 'Some', '(', toks[i + 1].t, ')', '=>') + toks[b:e + 1] + M('_', '=>', 'break', '}', '}', '}') + toks[e + 1:]
                continue
            # the last method call of the header
            k, d = b - 1, 0
            while k > i and toks[b - 1].t == ')':
                d += toks[k].t in CLOSE
                d -= toks[k].t in OPEN
                if d == 0:
                    break
                k -= 1
            if toks[b - 1].t == ')' and toks[k - 1].t == 'filter' and toks[k - 2].t == '.':
                cl = closure_parts(toks[k + 1:b - 1])
                if cl and len(cl[0]) == 1:
                    e = match_close(toks, b)
                    M = lambda *w: [mk(x, t) for x in w]
                    use('G14')
                    toks = toks[:b][:k - 2] + M('{', 'if', '{', 'let') + cl[0][0] + M('=', '&', toks[i + 1].t, ';') + cl[1] + M('}') + toks[b:e + 1] + M('}') + toks[e + 1:]
                    continue
            if [x.t for x in toks[b - 4:b]] == ['.', 'rev', '(', ')'] and toks[b - 5].t == ')':
                q = next((k for k in range(b - 6, i + 2, -1) if toks[k].t == '(' and match_close(toks, k) == b - 5), None)
                if q and toks[q - 1].t == 'step_by' and toks[q - 2].t == '.':
                    e = match_close(toks, b)
                    M = lambda *w: [mk(x, t) for w_ in w for x in w_.split()]
                    use('G18')
                    toks = toks[:i] + M('{ let vp_r =') + toks[i + 3:q - 2] + M('; let vp_s =') + toks[q + 1:b - 5] + M('; vp_assert ( vp_s != 0 ) ; let mut vp_n : usize = if vp_r . start < vp_r . end { ( vp_r . end - vp_r . start - 1 ) / vp_s + 1 } else { 0 } ; while vp_n > 0 { vp_n -= 1 ; let', toks[i + 1].t, '= vp_r . start + vp_n * vp_s ;') + toks[b + 1:e + 1] + M('}') + toks[e + 1:]
                    continue
            r = next((k for k in range(i + 3, b) if toks[k].t == '..'), None)
            e = match_close(toks, b)
            if r is not None and toks[i + 1].t != 'vp_n' and any(x.t == 'continue' for x in toks[b:e]):
                M = lambda *w: [mk(x, t) for x in w]
                use('G17')
                toks = toks[:i] + M('{', 'let', 'mut', 'vp_n', '=') + toks[i + 3:r] + M(';', 'let', 'vp_end', '=') + toks[r + 1:b] + M(';', 'while', 'vp_n', '<', 'vp_end', '{', 'let', toks[i + 1].t, '=', 'vp_n', ';', 'vp_n', '+=', '1', ';') + toks[b + 1:e + 1] + M('}') + toks[e + 1:]
                continue
        if t.t == 'for' and i + 1 < len(toks) and toks[i + 1].t == '(':
            c = match_close(toks, i + 1)
            pat = split_args(toks[i + 2:c])
            if toks[c + 1].t == 'in' and len(pat) == 2:
                # the loop header ends at the first top level brace
                b, d = c + 2, 0
                while toks[b].t != '{' or d:
                    d += toks[b].t in ('(', '[')
                    d -= toks[b].t in (')', ']')
                    b += 1
                if [x.t for x in toks[b - 4:b]] == ['.', 'enumerate', '(', ')']:
                    e = match_close(toks, b)
                    M = lambda *w: [mk(x, t) for x in w]
                    new = M('{', 'let', 'mut', 'vp_n', ':', 'usize', '=', '0', ';', 'for') + pat[1] + M('in') + toks[c + 2:b - 4] + M('{', 'let') + pat[0] + M('=', 'vp_n', ';', 'vp_n', '+=', '1', ';') + toks[b + 1:e] + M('}', '}')
                    use('G10')
                    toks = toks[:i] + new + toks[e + 1:]
                    continue
        i += 1
    return toks


# ---------------------------------------------------------------- annotated text
MARK = re.compile(r'/\*\+\*/|/\*-\*/|/\*~(\w+)\||\|~\*/|/\*~\*/')


class Seg:
    """code tokens, ghost text or rewrite"""
    def __init__(s, kind, text, toks=None, name=None):
        s.kind, s.text, s.toks, s.name = kind, text, toks or [], name


def parse_annotated(text):
    segs = []
    i = 0
    while True:
        g = text.find('/*+*/', i)
        r = text.find('/*~', i)
        nxt = min([x for x in (g, r) if x >= 0], default=-1)
        if nxt < 0:
            segs.append(Seg('code', text[i:], tokenize(text[i:])))
            return segs
        if nxt > i:
            segs.append(Seg('code', text[i:nxt], tokenize(text[i:nxt])))
        if nxt == g:
            e = text.index('/*-*/', g)
            segs.append(Seg('ghost', text[g + 5:e]))
            i = e + 5
        else:
            m = re.compile(r'/\*~(\w+)\|').match(text, r)
            if not m:
                raise ValueError('bad rewrite marker: ' + text[r:r + 60])
            e = text.index('|~*/', r)
            f = text.index('/*~*/', e)
            segs.append(Seg('rw', text[e + 4:f], tokenize(text[m.end():e]), m.group(1)))
            i = f + 5


class Lost(Exception):
    pass


def base_tokens(segs):
    """tokens of the source as the annotated text states them, with (segment index) for rewrites"""
    out = []
    for n, s in enumerate(segs):
        if s.kind in ('code', 'rw'):
            out += [(t, n) for t in s.toks]
    return out


def render_tokens(toks):
    o = []
    for t in toks:
        o.append(t.t)
        o.append('\n' if t.t in (';', '{', '}') else ' ')
    return ''.join(o)


def visible(text):
    """text of the annotated item with the markers removed"""
    return re.sub(r'/\*~\w+\|.*?\|~\*/', '', text, flags=re.S).replace('/*+*/', '').replace('/*-*/', '').replace('/*~*/', '')


def rewrites_used(segs):
    return [(s.name, ' '.join(t.t for t in s.toks), ' '.join(s.text.split())) for s in segs if s.kind == 'rw']


def norm_output(text, used):
    """apply the general rules to the visible text of an unchanged item: on text level via tokens"""
    return text


def weave(ann_text, cur_toks, used):
    """returns (text, status, info) ; cur_toks: raw tokens of the current item"""
    segs = parse_annotated(ann_text)
    base = base_tokens(segs)
    bt = normalise([t for t, _ in base])
    ct = normalise(cur_toks, used)
    same = [t.t for t in bt] == [t.t for t in ct]
    # build the pieces in terms of normalised base tokens.  Ghost segments are attached to the number of
    # normalised base tokens before them.
    pieces = []  # ('tok',Tok) | ('ghost',text) | ('rw',text,ntoks,name)
    # normalising segment by segment is not possible when a rule spans a ghost segment, so ghost text is
    # represented by placeholder identifiers during normalisation
    stream = []
    table = {}
    for n, s in enumerate(segs):
        if s.kind == 'code':
            stream += s.toks
        elif s.kind == 'ghost':
            ph = '__VPG%d__' % n
            table[ph] = s
            stream.append(Tok(ph, 'id', 0, 0))
        else:
            ph = '__VPR%d__' % n
            table[ph] = s
            stream.append(Tok(ph, 'id', 0, 0))
    stream = normalise(stream)
    for t in stream:
        if t.t in table:
            s = table[t.t]
            if s.kind == 'ghost':
                pieces.append(('ghost', s.text))
            else:
                rt = normalise(s.toks)
                pieces.append(('rw', s.text, [x.t for x in rt], s.name))
        else:
            pieces.append(('tok', t.t))
    chk = []
    for p in pieces:
        if p[0] == 'tok':
            chk.append(p[1])
        elif p[0] == 'rw':
            chk += p[2]
    if chk != [t.t for t in bt]:
        a, b = chk, [t.t for t in bt]
        for x in range(min(len(a), len(b))):
            if a[x] != b[x]:
                raise ValueError('annotation splits a rule at ...%s | %s' % (a[x - 3:x + 5], b[x - 3:x + 5]))
        raise ValueError('annotation splits a rule (length)')
    cur = [t.t for t in ct]
    if same:
        return emit(pieces), 'exact', {}
    # renames
    ren = find_renames([t.t for t in bt], cur, {t.t for t in bt if t.k == 'id'}, {t.t for t in ct if t.k == 'id'})
    if ren:
        def rn(x):
            return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], x)
        np = []
        for p in pieces:
            if p[0] == 'tok':
                np.append(('tok', ren.get(p[1], p[1])))
            elif p[0] == 'ghost':
                np.append(('ghost', rn(p[1])))
            else:
                np.append(('rw', rn(p[1]), [ren.get(x, x) for x in p[2]], p[3]))
        pieces = np
    flat = [x for p in pieces if p[0] != 'ghost' for x in ([p[1]] if p[0] == 'tok' else p[2])]
    return merge(pieces, cur), 'merged', {'renames': ren, 'moved': rearranged(flat, cur)}


CONTROL = {'if', 'else', 'while', 'for', 'loop', 'match', 'return', 'break', 'continue', '?', '=>'}


def rearranged(base, cur):
    """a description when the edit moves code or replaces its control structure, else None"""
    ids = lambda ts: collections.Counter(t for t in ts if re.match(r'\w', t) and t not in CONTROL)
    dl, nw, dc, nc = [], [], [], []
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, base, cur, autojunk=False).get_opcodes():
        if tag == 'equal' or tag == 'replace' and i2 - i1 == 1 and j2 - j1 == 1:
            continue
        dl += base[i1:i2]
        nw += cur[j1:j2]
    a, b = ids(dl), ids(nw)
    both = sum((a & b).values())
    if both >= 3 and both >= 0.6 * max(sum(a.values()), sum(b.values())):
        return 'code moved'
    dc, nc = collections.Counter(t for t in dl if t in CONTROL), collections.Counter(t for t in nw if t in CONTROL)
    if dc - nc and nc - dc:
        return 'control structure replaced: ' + ' '.join((dc - nc).elements()) + ' by ' + ' '.join((nc - dc).elements())
    return None


def find_renames(b, c, bid, cid):
    sm = difflib.SequenceMatcher(None, b, c, autojunk=False)
    mp = {}
    bad = set()
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == 'replace' and i2 - i1 == j2 - j1:
            for x, y in zip(b[i1:i2], c[j1:j2]):
                if x != y and x in bid and y in cid:
                    if mp.get(x, y) != y:
                        bad.add(x)
                    mp[x] = y
    cs = set(c)
    bs = set(b)
    return {x: y for x, y in mp.items() if x not in bad and x not in cs and y not in bs and list(mp.values()).count(y) == 1}


def merge(pieces, cur):
    # flatten base with attachments
    base = []          # token texts
    rw = []            # (lo,hi,text,name)
    ghosts = []        # (index in base, order, text)
    for p in pieces:
        if p[0] == 'tok':
            base.append(p[1])
        elif p[0] == 'rw':
            rw.append((len(base), len(base) + len(p[2]), p[1], p[3]))
            base += p[2]
        else:
            ghosts.append((len(base), p[1]))
    sm = difflib.SequenceMatcher(None, base, cur, autojunk=False)
    ops = sm.get_opcodes()
    b2c = {}
    for tag, i1, i2, j1, j2 in ops:
        if tag == 'equal':
            for d in range(i2 - i1):
                b2c[i1 + d] = j1 + d
    # rewrites must be fully inside an equal region and contiguous
    rspans = []
    for lo, hi, text, name in rw:
        if lo == hi:
            raise Lost('empty rewrite')
        js = [b2c.get(x) for x in range(lo, hi)]
        if None in js or js != list(range(js[0], js[0] + len(js))):
            raise Lost('rewrite %s: source tokens changed near `%s`' % (name, ' '.join(base[lo:hi])[:80]))
        rspans.append((js[0], js[-1] + 1, text))
    ins = {}  # cur index -> list of ghost text inserted before that token
    for at, text in ghosts:
        if at - 1 in b2c and at > 0:
            j = b2c[at - 1] + 1
            # a ghost that belongs to the following token (loop/function header) when both neighbours survive
            if at in b2c and b2c[at] != j and base[at] == '{' and not text.strip().startswith(('proof', 'let ghost', 'assert')):
                j = b2c[at]
        elif at in b2c:
            j = b2c[at]
        elif at == 0:
            j = 0
        else:
            raise Lost('cannot place specification near `%s`' % ' '.join(base[max(0, at - 4):at + 4]))
        ins.setdefault(j, []).append(text)
    out = []
    j = 0
    rs = {lo: (hi, text) for lo, hi, text in rspans}
    n = len(cur)
    while j <= n:
        for g in ins.get(j, []):
            out.append('\n' + g + '\n')
        if j == n:
            break
        if j in rs:
            hi, text = rs[j]
            for x in range(j + 1, hi):
                if x in ins:
                    raise Lost('specification inside a rewrite')
            out.append(' ' + text + ' ')
            j = hi
            continue
        out.append(cur[j] + ('\n' if cur[j] in (';', '{', '}') else ' '))
        j += 1
    return ''.join(out)


def emit(pieces):
    o = []
    for p in pieces:
        if p[0] == 'tok':
            o.append(p[1] + ('\n' if p[1] in (';', '{', '}') else ' '))
        else:
            o.append(' ' + p[1] + ' ')
    return ''.join(o)


ITEM = re.compile(r'^[ \t]*//@item[ \t]+(\S+)[ \t]+(.*?)[ \t]*\n(.*?)^[ \t]*//@end[^\n]*\n', re.M | re.S)


def pubify(text, key):
    """make an emitted item public (visibility was dropped by G1)"""
    return 'pub ' + text.lstrip() if True else text


class Unit:
    """one annotated file woven against the current tree"""
    def __init__(s, path, repo, cache, force_lost=()):
        s.report = []
        s.rules = {}
        s.rw = []
        raw = open(path).read()
        ALLOC[0] = '//@alloc' in raw

        def one(m):
            f, key, body = m.group(1), m.group(2), m.group(3)
            opts = {}
            if '!' in key:
                key, o = key.split('!', 1)
                key = key.strip()
                opts = {x: True for x in o.split()}
            ent = {'file': f, 'item': key, 'annot': os.path.basename(path)}
            try:
                src = cache.get(f)
                if src is None:
                    src = cache[f] = Source(os.path.join(repo, f))
                if (f, key) in force_lost:
                    raise Lost('the edited function is not accepted by the verifier front end')
                occ = src.items.get(key)
                if not occ or len(occ) != 1:
                    raise Lost('item not found' if not occ else 'item ambiguous')
                lo, hi = occ[0]
                # leading attributes inside the annotated body are proof side
                text, status, info = weave(strip_lead_attrs(body)[1], src.toks[lo:hi], s.rules)
                lead = strip_lead_attrs(body)[0]
                ent['status'] = status
                ent.update(info)
                s.rw += rewrites_used(parse_annotated(body))
                if 'trait_member' not in opts:
                    text = ('pub ' + text.lstrip()) if 'private' in opts else make_pub(text, key)
                text = lead + text
            except (Lost, ValueError, OSError, IndexError) as e:
                ent['status'] = 'lost'
                ent['why'] = str(e)
                text = '//VP-LOST %s\n' % key + fallback(body, key, opts)
            s.report.append(ent)
            k = len(s.report) - 1
            return '/*VP-BEGIN %d %s*/\n%s\n/*VP-END*/\n' % (k, key.replace('*/', ''), text)
        s.text = ITEM.sub(one, raw)
        if '//@item' in s.text:
            raise ValueError('unterminated //@item in ' + path)


def strip_lead_attrs(body):
    """proof side attributes written before the item"""
    m = re.match(r'\s*((?:#\[[^\]]*\]\s*)*)', body)
    return m.group(1), body[m.end():]


def fallback(body, key, opts):
    """item text with its contract kept and its body not verified"""
    vis = visible(body)
    lead, rest = strip_lead_attrs(vis)
    text = rest if 'trait_member' in opts else ('pub ' + rest.lstrip()) if 'private' in opts else make_pub(rest, key)
    last = key.split(' / ')[-1]
    if last.startswith('fn '):
        # replace the body: the last balanced {...} of the item
        return lead + '#[verifier::external_body]\n' + drop_body(text)
    return lead + text


def drop_body(text):
    toks = tokenize(text)
    # the body is the last top level brace group
    i = len(toks) - 1
    d = 0
    while i >= 0:
        if toks[i].t == '}':
            d += 1
        elif toks[i].t == '{':
            d -= 1
            if d == 0:
                break
        i -= 1
    return text[:toks[i].pos] + '{ unimplemented!() }\n'


def make_pub(text, key):
    last = key.split(' / ')[-1]
    kw = last.split()[0]
    t = text.lstrip()
    if ' for ' in key.split(' / ')[0]:
        return t
    if kw in ('fn', 'struct', 'enum', 'const', 'type', 'trait'):
        t = 'pub ' + t
    if kw == 'struct':
        # make the fields public
        m = t.index('{') if '{' in t else -1
        if m >= 0:
            head, body = t[:m + 1], t[m + 1:t.rindex('}')]
            toks = tokenize(body)
            o = []
            d = 0
            start = True
            for x in toks:
                if start and x.k == 'id':
                    o.append('pub')
                    start = False
                if x.t in OPEN or x.t == '<':
                    d += 1
                elif x.t in CLOSE or x.t == '>':
                    d -= 1
                elif x.t == '>>':
                    d -= 2
                if x.t == ',' and d == 0:
                    start = True
                o.append(x.t)
            t = head + ' ' + ' '.join(o) + ' }\n'
        else:
            t = re.sub(r'\(\s*', '(pub ', t, count=1)
    return t


if __name__ == '__main__':
    u = Unit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo', {})
    sys.stdout.write(u.text)
    for e in u.report:
        print(e, file=sys.stderr)
