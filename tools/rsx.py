"""Mechanical extraction of Rust items from /repo's working tree and weaving of
contracts around them.

The extractor works on the token level: the text of every extracted function is the
text found in the source file, byte for byte, except for
  * attributes (#[...]) on the item or inside it and visibility qualifiers,
    which are dropped (listed),
  * the substitutions a contract file declares with //@replace (listed),
  * specification text that is inserted (requires/ensures/invariants/proof blocks).
Everything it changes is reported in the `log` of the run.
"""
import os, re

class AnchorLost(Exception):
    """An extracted item or an insertion point is not there any more."""

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rawstr>b?r\#*")
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:[iuf](?:8|16|32|64|128|size))?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|<<=|>>=|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return self.s

def lex(text):
    """Return significant tokens (no whitespace, no comments)."""
    out, i, n = [], 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise AnchorLost('cannot tokenise at %r' % text[i:i + 30])
        k, s = m.lastgroup, m.group()
        if k == 'bc':
            d, j = 1, m.end()
            while d and j < n:
                if text.startswith('/*', j): d += 1; j += 2
                elif text.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if k == 'rawstr':
            h = s.count('#')
            e = text.index('"' + '#' * h, m.end()) + 1 + h
            out.append(Tok('str', text[i:e], i, e)); i = e
            continue
        if k not in ('ws', 'lc'):
            out.append(Tok(k, s, i, m.end()))
        i = m.end()
    return out

OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}

def match_close(t, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(t)):
        s = t[j].s
        if t[j].k == 'op':
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return j
    raise AnchorLost('unbalanced brackets')

def skip_generics(t, i):
    """i at '<' ; return index after matching '>'"""
    d = 0
    while i < len(t):
        s = t[i].s
        if s == '<': d += 1
        elif s == '<<': d += 2
        elif s == '>': d -= 1
        elif s == '>>': d -= 2
        elif s == '->': pass
        i += 1
        if d <= 0: return i
    raise AnchorLost('generics')

class Source:
    def __init__(self, repo, rel):
        self.rel = rel
        p = os.path.join(repo, rel)
        if not os.path.exists(p):
            raise AnchorLost('file %s is gone' % rel)
        self.text = open(p, encoding='utf-8').read()
        self.t = lex(self.text)
        self.items = []
        self._scan(0, len(self.t), '')

    def _scan(self, i, end, prefix):
        t = self.t
        while i < end:
            start = i
            test = False
            while i < end and t[i].s == '#':
                j = i + 1
                if t[j].s == '!': j += 1
                e = match_close(t, j)
                words = [x.s for x in t[j:e + 1]]
                if words == ['[', 'cfg', '(', 'test', ')', ']'] : test = True
                if words == ['[', 'test', ']']: test = True
                i = e + 1
            astart = i
            if i < end and t[i].s == 'pub':
                i += 1
                if t[i].s == '(' : i = match_close(t, i) + 1
            vis_end = i
            while i < end and t[i].s in ('const', 'unsafe', 'async', 'extern', 'default') and t[i + 1].s in ('fn', 'unsafe', 'async', 'extern', 'impl', 'trait') or (i < end and t[i].s == 'extern' and t[i+1].k == 'str'):
                i += 1
            if i >= end: break
            s = t[i].s
            if s == 'fn':
                name = t[i + 1].s
                j = i + 2
                while t[j].s not in ('{', ';'):
                    if t[j].s in ('(', '['): j = match_close(t, j)
                    j += 1
                e = match_close(t, j) if t[j].s == '{' else j
                self.items.append(dict(kind='fn', name=prefix + name, test=test, start=start, vis=vis_end,
                                       body=j if t[j].s == '{' else None, end=e, astart=astart, fn=i))
                i = e + 1
            elif s in ('struct', 'enum', 'union'):
                name = t[i + 1].s
                j = i + 2
                if t[j].s == '<': j = skip_generics(t, j)
                wh = False
                while t[j].s not in ('{', ';') and not (t[j].s == '(' and not wh):
                    if t[j].s == 'where': wh = True
                    if t[j].s == '(': j = match_close(t, j)
                    j += 1
                if t[j].s == '(':
                    j = match_close(t, j)
                    while t[j].s != ';': j += 1
                    e = j
                elif t[j].s == '{': e = match_close(t, j)
                else: e = j
                self.items.append(dict(kind='type', name=prefix + name, test=test, start=start, vis=vis_end, end=e, astart=astart, fn=i))
                i = e + 1
            elif s in ('impl', 'trait', 'mod'):
                j = i + 1
                if s == 'impl' and t[j].s == '<': j = skip_generics(t, j)
                h = j
                while t[j].s not in ('{', ';'):
                    j += 1
                if t[j].s == ';':
                    i = j + 1
                    continue
                e = match_close(t, j)
                if s == 'mod':
                    if not test:
                        self._scan(j + 1, e, prefix + t[i + 1].s + '::')
                else:
                    hdr = [x.s for x in t[h:j]]
                    if 'where' in hdr: hdr = hdr[:hdr.index('where')]
                    name = self._hdr(hdr)
                    if not test:
                        self._scan(j + 1, e, prefix + name + '::')
                i = e + 1
            elif s in ('const', 'static', 'type', 'use', 'let'):
                j = i
                while t[j].s != ';':
                    if t[j].s in OPEN: j = match_close(t, j)
                    j += 1
                if s in ('const', 'static', 'type'):
                    k = i + 1
                    if t[k].s == 'mut': k += 1
                    self.items.append(dict(kind=s, name=prefix + t[k].s, test=test, start=start, vis=vis_end, end=j, astart=astart, fn=i))
                i = j + 1
            else:
                # macro call or something else: skip to ; or matching brace
                j = i
                while j < end and t[j].s not in (';', '{'):
                    if t[j].s in ('(', '['): j = match_close(t, j)
                    j += 1
                if j < end and t[j].s == '{': j = match_close(t, j)
                i = j + 1

    @staticmethod
    def _hdr(h):
        """impl header tokens -> 'Type' or '<Trait for Type>' with generics and lifetimes removed"""
        def strip(x):
            out, d = [], 0
            for s in x:
                if s == '<': d += 1; continue
                if s == '>': d -= 1; continue
                if s == '>>': d -= 2; continue
                if d == 0 and not s.startswith("'") and s not in ('mut',):
                    out.append(s)
            return out
        def last(x):
            x = strip(x)
            amp = '&' if x and x[0] == '&' else ''
            x = [s for s in x if re.match(r'[A-Za-z_]', s)]
            return amp + (x[-1] if x else '?')
        if 'for' in h:
            k = h.index('for')
            tr = h[:k]
            # keep trait generics, e.g. From<i64>
            g = ''.join(tr[tr.index('<'):]) if '<' in tr else ''
            return '<%s%s for %s>' % (last(tr), re.sub(r"'\w+,?", '', g).replace('<>', ''), last(h[k + 1:]))
        return last(h)

    def find(self, kind, name):
        r = [x for x in self.items if x['kind'] == kind and x['name'] == name and not x['test']]
        if not r:
            raise AnchorLost('%s %s is not in %s' % (kind, name, self.rel))
        return r[0] if len(r) == 1 else r[-1] if kind != 'fn' else r[0]

def drop_attrs(t, a, b):
    """token index set to drop between a and b: attributes"""
    drop = []
    i = a
    while i < b:
        if t[i].s == '#' and t[i + 1].s == '[':
            e = match_close(t, i + 1)
            if ''.join(x.s for x in t[i:e + 1]) == '#[cfg(test)]':
                # the statement, item or match arm that exists in test builds only goes with it
                k = e + 1
                while k < b:
                    if t[k].s in (';', ',') and t[k].k == 'op': break
                    if t[k].s in ('}', ')', ']') and t[k].k == 'op':   # the last expression of its block
                        k -= 1
                        break
                    if t[k].s in OPEN and t[k].k == 'op':
                        blk = t[k].s == '{' and t[k - 1].s in ('=>', ')')
                        k = match_close(t, k)
                        if blk:
                            if t[k + 1].s == ',': k += 1
                            break
                    k += 1
                e = k
            drop.append((t[i].a, t[e].b))
            i = e + 1
        else:
            i += 1
    return drop

def find_seq(t, a, b, pat, nth=0):
    """find token sequence `pat` (list of strings; '_' wildcard token; '…' any balanced run) in t[a:b]"""
    n = len(pat)
    cnt = 0
    for i in range(a, b - n + 1):
        if all(p == '_' or t[i + k].s == p for k, p in enumerate(pat)):
            if cnt == nth: return i
            cnt += 1
    return None

def loops(t, a, b):
    """list of loops in t[a:b], in source order: dict(kw, kwtok, open, close)"""
    out = []
    i = a
    while i < b:
        s = t[i].s
        if t[i].k == 'id' and s in ('while', 'for', 'loop') and not (s == 'for' and t[i + 1].s == '<'):
            j = i + 1
            while t[j].s != '{':
                if t[j].s in ('(', '['): j = match_close(t, j)
                elif t[j].s == 'match':
                    while t[j].s != '{': j += 1
                    j = match_close(t, j)
                j += 1
            out.append(dict(kw=s, at=i, open=j, close=match_close(t, j)))
        i += 1
    return out

def callees(t, a, b):
    """names of functions/methods called in t[a:b] (set)"""
    out = set()
    for i in range(a, b - 1):
        if t[i].k == 'id' and t[i + 1].s == '(' and t[i].s not in ('if', 'while', 'match', 'for', 'return', 'in', 'Some', 'Ok', 'Err', 'None'):
            out.add(t[i].s)
        elif t[i].k == 'id' and t[i + 1].s == '!':
            out.add(t[i].s + '!')
        elif t[i].k == 'id' and t[i + 1].s == '::' and t[i + 2].s == '<':
            try:
                j = skip_generics(t, i + 2)
                if t[j].s == '(': out.add(t[i].s)
            except AnchorLost:
                pass
    return out

def stmt_start(t, i, lo):
    """walk back from token i to the first token of the statement that contains it"""
    d = 0
    j = i
    while j > lo:
        s = t[j - 1].s
        if s in CLOSE and t[j-1].k == 'op':
            if s == '}' and d == 0:
                return j
            # jump to its opening
            dd, k = 0, j - 1
            while k >= lo:
                if t[k].k == 'op' and t[k].s in CLOSE: dd += 1
                elif t[k].k == 'op' and t[k].s in OPEN:
                    dd -= 1
                    if dd == 0: break
                k -= 1
            j = k
            continue
        if s in (';', '{'):
            return j
        if s == '=>' : return j
        j -= 1
    return j

def stmt_end(t, i, hi):
    """token index after the statement starting at or containing token i (after its ';' or block)"""
    j = i
    while j < hi:
        s = t[j].s
        if t[j].k == 'op' and s in OPEN:
            j = match_close(t, j)
            if s == '{' and (j + 1 >= hi or t[j + 1].s not in ('.', '?', 'else', ';', ')', ',')):
                return j + 1
        elif s == ';':
            return j + 1
        elif t[j].k == 'op' and s in CLOSE:
            return j
        j += 1
    return j
