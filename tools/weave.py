"""Assemble a Verus file from a contract file (contracts/*.vrs) and /repo's current source.

Contract file = Verus source text with directives:

  //?C01,C04 LINE                   LINE only when the root contract file is C01.vrs or C04.vrs (//?! = all others)
  //@include FILE                     splice another contract file (relative to contracts/)
  //@type  SRC NAME                   extract a struct/enum (attributes and visibility dropped, made pub)
  //@   attr TEXT                     put TEXT (e.g. #[derive(...)], verifier attribute) before it
  //@   replace "A" => "B"            substitution inside the item (must match)
  //@   drop FIELD                    drop a named field or variant
  //@   keep F1 F2 ...                keep only these named fields / variants
  //@end
  //@const SRC NAME                   extract a const
  //@fn SRC PATH                      extract a function
  //@   ret NAME                      name the result
  //@   attr TEXT
  //@   rename NAME
  //@   sig "A" => "B"                substitution in the signature
  //@   replace[?] "A" => "B"         substitution in the body, all occurrences; `?` = may be absent
  //@   spec                          following lines: requires/ensures/decreases
  //@   loop N KIND [it NAME]         following lines: invariants for loop N; KIND while|for|loop
  //@   at start | at loop N start | at loop N end | at before "A" [#k] | at after "A" [#k]
                                      following lines are inserted there
  //@   loopattr N TEXT             attribute in front of loop N
  //@   loops N                       the function must have N loops
  //@   trusted                       body is not verified (external_body): contract assumed
  //@end
"""
import os, re, sys, json, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rsx import *

class Weaver:
    def __init__(self, repo, contracts, vacuity=None):
        self.repo, self.contracts = repo, contracts
        self.src = {}
        self.log = []          # what the extraction changed
        self.fns = []          # functions under contract
        self.trusted = []
        self.files = set()
        self.vacuity = vacuity # None or a (fn index) -> insert assert(false) at that body start
        self.nfn = 0
        self.root = None
        self.bstrs = {}        # generated constants for byte-string literals

    def source(self, rel):
        if rel not in self.src:
            self.src[rel] = Source(self.repo, rel)
        self.files.add(rel)
        return self.src[rel]

    def weave(self, path):
        lines = open(os.path.join(self.contracts, path), encoding='utf-8').read().split('\n')
        if not self.root: self.root = path.split('.')[0]
        # `//?C01,C04 text`: text only when weaving one of these files; `//?!C01 text`: except there
        keep = []
        for l in lines:
            m = re.match(r'\s*//\?(!?)([\w,]+) ?(.*)$', l)
            if not m: keep.append(l)
            elif (self.root in m.group(2).split(',')) != bool(m.group(1)): keep.append(m.group(3))
        lines = keep
        out, i = [], 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
            if not m:
                out.append(l); i += 1; continue
            d, arg = m.group(1), m.group(2).strip()
            if d == 'include':
                out.append(self.weave(arg)); i += 1
            elif d == 'literals':
                out.append(''.join(self.bstrs.values())); i += 1
            elif d == 'const':
                rel, name = arg.split()
                s = self.source(rel)
                kind = 'const'
                it = s.find(kind, name)
                out.append('pub ' + s.text[s.t[it['vis']].a:s.t[it['end']].b]); i += 1
            elif d in ('type', 'fn', 'impl'):
                j, block = i + 1, []
                while not re.match(r'\s*//@end', lines[j]):
                    block.append(lines[j]); j += 1
                rel, name = arg.split(None, 1)
                out.append(self.do_type(rel, name, block) if d == 'type' else self.do_fn(rel, name, block))
                i = j + 1
            else:
                raise ValueError('%s: bad directive %s' % (path, l))
        return '\n'.join(out)

    # ------------------------------------------------------------------
    def directives(self, block):
        cur, out = None, []
        for l in block:
            m = re.match(r'\s*//@\s*(.*)$', l)
            if m:
                cur = [m.group(1).strip(), []]
                out.append(cur)
            elif cur is not None:
                cur[1].append(l)
            elif l.strip():
                raise ValueError('stray text in directive block: ' + l)
        return out

    @staticmethod
    def pair(s):
        m = re.match(r'\s*"((?:[^"\\]|\\.)*)"\s*=>\s*"((?:[^"\\]|\\.)*)"\s*$', s)
        if not m: raise ValueError('bad substitution ' + s)
        un = lambda x: re.sub(r'\\(.)', r'\1', x)
        return un(m.group(1)), un(m.group(2))

    def do_type(self, rel, name, block):
        s = self.source(rel)
        it = s.find('type', name)
        t = s.t
        edits = []
        attrs, prefix = [], 'pub '
        dr = drop_attrs(t, it['vis'], it['end'])
        for a, b in dr: edits.append((a, b, ''))
        b0, e0 = it['vis'], it['end']
        # visibility of fields
        i = b0
        depth_open = None
        wh = False
        for k in range(b0, e0):
            if t[k].s == 'where': wh = True
            if (t[k].s == '{' or t[k].s == '(' and not wh) and t[k].k == 'op':
                depth_open = k; break
        def members():
            out, k = [], depth_open + 1
            end = match_close(t, depth_open)
            while k < end:
                st = k
                test = False
                while t[k].s == '#':
                    a = k
                    k = match_close(t, k + 1) + 1
                    if ''.join(x.s for x in t[a:k]) == '#[cfg(test)]': test = True
                ns = k
                if t[k].s == 'pub':
                    k += 1
                    if t[k].s == '(': k = match_close(t, k) + 1
                nm = t[k].s
                while k < end and t[k].s != ',':
                    if t[k].s in OPEN and t[k].k == 'op': k = match_close(t, k)
                    elif t[k].s == '<': k = skip_generics(t, k) - 1
                    k += 1
                out.append(('#test' if test else nm, st, ns, min(k + 1, end)))
                k += 1
            return out
        isstruct = t[it['fn']].s == 'struct'
        mem = members() if depth_open is not None else []
        dropped = {'#test'} & {m[0] for m in mem}
        reps = []
        for d, body in self.directives(block):
            w = d.split(None, 1)
            if w[0] == 'attr': attrs.append(w[1])
            elif w[0] == 'replace': reps.append(self.pair(w[1]))
            elif w[0] == 'drop': dropped |= set(w[1].split())
            elif w[0] == 'keep':
                dropped |= {m[0] for m in mem} - set(w[1].split())
                for x in w[1].split():
                    if x not in {m[0] for m in mem}: raise AnchorLost('%s: member %s is gone from %s' % (rel, x, name))
            elif w[0] == 'rename': reps.append((name, w[1]))
            else: raise ValueError('type directive ' + d)
        for nm, st, ns, en in mem:
            if nm in dropped:
                edits = [e for e in edits if not (e[0] >= t[st].a and e[1] <= t[en - 1].b)]
                edits.append((t[st].a, t[en - 1].b, ''))
            elif isstruct:
                k = ns
                if t[k].s == 'pub':
                    e = k
                    if t[k + 1].s == '(': e = match_close(t, k + 1)
                    edits.append((t[k].a, t[e].b, 'pub'))
                else:
                    edits.append((t[k].a, t[k].a, 'pub '))
        if dropped: self.log.append('%s: members dropped from %s: %s' % (rel, name, ' '.join(sorted(dropped))))
        for a, b in reps:
            self.subst(t, b0, e0 + 1, a, b, edits, rel + ' ' + name)
        txt = self.apply(s.text, t[b0].a, t[e0].b, edits)
        return '\n'.join(attrs) + ('\n' if attrs else '') + prefix + txt

    def subst(self, t, a, b, pat, rep, edits, where, optional=False, quiet=False):
        p = [x.s for x in lex(pat)]
        n = 0
        i = a
        while True:
            k = find_seq(t, i, b, p)
            if k is None: break
            edits.append((t[k].a, t[k + len(p) - 1].b, rep))
            n += 1
            i = k + len(p)
        if n == 0 and not optional:
            raise AnchorLost('%s: text to substitute not found: %s' % (where, pat))
        if n and not quiet: self.log.append('%s: %d x `%s` replaced by `%s`' % (where, n, pat, rep))

    @staticmethod
    def apply(text, a, b, edits):
        # stable: insertions at one point keep their order
        out, pos = [], a
        for x, y, r in sorted(edits, key=lambda e: (e[0], e[1])):
            if x < pos:
                if y <= pos: continue   # inside an already replaced region
                raise ValueError('overlapping edits at %d: %r' % (x, r[:60]))
            out.append(text[pos:x]); out.append(r); pos = y
        out.append(text[pos:b])
        return ''.join(out)

    def do_fn(self, rel, name, block):
        s = self.source(rel)
        it = s.find('fn', name)
        t = s.t
        sig0, body0, end = it['fn'], it['body'], it['end']
        # include fn qualifiers
        q = it['vis']
        edits, attrs, spec, ret = [], [], '', None
        ds = self.directives(block)
        lp = loops(t, body0, end)
        trusted = any(d.split()[0] == 'trusted' for d, _ in ds)
        where = '%s %s' % (rel, name)
        for a, b in drop_attrs(t, body0, end): edits.append((a, b, ''))
        for k in range(body0, end):
            # debug assertions do not exist in release builds
            if t[k].k == 'id' and t[k].s.startswith('debug_assert') and t[k + 1].s == '!':
                e = match_close(t, k + 2)
                if t[e + 1].s == ';': e += 1
                if not any(x <= t[k].a < y for x, y, _ in edits): edits.append((t[k].a, t[e].b, ''))
        sigedits = []
        newname = None
        loopspec, starts = {}, []
        for d, body in ds:
            w = d.split(None, 1)
            k, arg = w[0], (w[1] if len(w) > 1 else '')
            txt = '\n'.join(body)
            if k == 'ret': ret = arg
            elif k == 'attr': attrs.append(arg)
            elif k == 'rename': newname = arg
            elif k == 'trusted': pass
            elif k == 'sig':
                self.subst(t, sig0, body0, *self.pair(arg), sigedits, where + ' (signature)')
            elif k in ('replace', 'replace?'):
                if trusted: continue
                self.subst(t, body0, end + 1, *self.pair(arg), edits, where, optional=k.endswith('?'))
            elif k == 'cut':
                # everything from the first match of A to the next match of B (both included)
                if trusted: continue
                m = re.match(r'"((?:[^"\\]|\\.)*)"\s+to\s+"((?:[^"\\]|\\.)*)"\s*=>\s*"((?:[^"\\]|\\.)*)"$', arg)
                A, B, R = (re.sub(r'\\(.)', r'\1', m.group(i)) for i in (1, 2, 3))
                pa, pb = [x.s for x in lex(A)], [x.s for x in lex(B)]
                x = find_seq(t, body0, end, pa)
                y = find_seq(t, x + len(pa), end, pb) if x is not None else None
                if y is None: raise AnchorLost('%s: text to substitute not found: %s ... %s' % (where, A, B))
                edits.append((t[x].a, t[y + len(pb) - 1].b, R))
                self.log.append('%s: `%s` replaced by `%s`' % (where, s.text[t[x].a:t[y + len(pb) - 1].b], R))
            elif k == 'bytes':
                # byte-string literals become calls of generated constants whose contract gives their content
                # (and, with an argument `f`, the value f(content) for the built-in counting functions)
                for x in range(body0, end):
                    if t[x].s.startswith('b"'):
                        raw = eval(t[x].s)
                        nm = 'bstr_' + raw.hex()
                        edits.append((t[x].a, t[x].b, nm + '()'))
                        if nm not in self.bstrs:
                            ens = 'r@ == seq![%s]' % ', '.join('%du8' % y for y in raw)
                            if arg == 'breaks': ens += ', breaks(r@) == %d' % sum(y in (10, 13) for y in raw)
                            self.bstrs[nm] = '#[verifier::external_body] pub fn %s() -> (r: &\'static [u8]) ensures %s { %s }\n' % (nm, ens, t[x].s)
            elif k == 'spec': spec += '\n' + txt
            elif k == 'loops':
                if not trusted and len(lp) != int(arg):
                    raise AnchorLost('%s: has %d loops, contract written for %s' % (where, len(lp), arg))
            elif k == 'loop':
                m = re.match(r'(\d+)\s+(while|for|loop)(?:\s+it\s+(\w+))?$', arg)
                n = int(m.group(1))
                if n >= len(lp) or lp[n]['kw'] != m.group(2):
                    raise AnchorLost('%s: loop %d is not a `%s` loop any more' % (where, n, m.group(2)))
                L = lp[n]
                edits.append((t[L['open']].a, t[L['open']].a, '\n' + txt + '\n'))
                if m.group(3):
                    j = L['at']
                    while t[j].s != 'in': 
                        if t[j].s in OPEN: j = match_close(t, j)
                        j += 1
                    edits.append((t[j].b, t[j].b, ' %s:' % m.group(3)))
            elif k == 'loopattr':
                n, txt2 = arg.split(None, 1)
                if int(n) >= len(lp): raise AnchorLost('%s: loop %s is gone' % (where, n))
                at = lp[int(n)]['at']
                if at >= 2 and t[at - 1].s == ':' and t[at - 2].s.startswith("'"): at -= 2
                edits.append((t[at].a, t[at].a, txt2 + ' '))
            elif k == 'at':
                if arg == 'start':
                    edits.append((t[body0].b, t[body0].b, '\n' + txt + '\n'))
                elif arg == 'end':
                    edits.append((t[end].a, t[end].a, '\n' + txt + '\n'))
                elif re.match(r'loop \d+ (start|end)$', arg):
                    _, n, w2 = arg.split()
                    L = lp[int(n)] if int(n) < len(lp) else None
                    if L is None: raise AnchorLost('%s: loop %s is gone' % (where, n))
                    p = t[L['open']].b if w2 == 'start' else t[L['close']].a
                    edits.append((p, p, '\n' + txt + '\n'))
                elif re.match(r'(before|after) loop \d+$', arg):
                    w2, _, n = arg.split()
                    L = lp[int(n)] if int(n) < len(lp) else None
                    if L is None: raise AnchorLost('%s: loop %s is gone' % (where, n))
                    p = t[L['at']].a if w2 == 'before' else t[L['close']].b
                    edits.append((p, p, '\n' + txt + '\n'))
                else:
                    m = re.match(r'(before|after|inside)\s+"((?:[^"\\]|\\.)*)"(?:\s+#(\d+))?(\s+optional)?$', arg)
                    if not m: raise ValueError('bad at: ' + arg)
                    pat = [x.s for x in lex(re.sub(r'\\(.)', r'\1', m.group(2)))]
                    x = find_seq(t, body0, end, pat, int(m.group(3) or 0))
                    if x is None:
                        if m.group(4): continue
                        raise AnchorLost('%s: insertion point `%s` not found' % (where, m.group(2)))
                    if m.group(1) == 'before':
                        p = t[stmt_start(t, x, body0 + 1)].a
                    elif m.group(1) == 'inside':   # directly after the token sequence
                        p = t[x + len(pat) - 1].b
                    else:
                        p = t[stmt_end(t, x, end) - 1].b
                    edits.append((p, p, '\n' + txt + '\n'))
            else:
                raise ValueError('fn directive ' + d)
        # signature
        name_tok = t[sig0 + 1]
        if newname: sigedits.append((name_tok.a, name_tok.b, newname))
        hdr_end = body0 - 1
        # where clause and result
        j = sig0 + 2
        if t[j].s == '<': j = skip_generics(t, j)
        j = match_close(t, j) + 1            # after params
        wh = None
        for k in range(j, body0):
            if t[k].s == 'where': wh = k; break
        if ret:
            if j < body0 and t[j].s == '->':
                a, b = t[j + 1].a, t[(wh or body0) - 1].b
                sigedits.append((a, a, '(%s: ' % ret))
                sigedits.append((b, b, ')'))
            else:
                raise AnchorLost('%s: no result type' % where)
        sig = self.apply(s.text, t[q].a, t[body0 - 1].b, sigedits)
        vis = 'pub ' if not name.startswith('<') else ''
        fnidx = self.nfn; self.nfn += 1
        if trusted:
            body = '{ unimplemented!() }'
            attrs.append('#[verifier::external_body]')
            self.trusted.append('%s (body not verified: contract assumed)' % where)
        else:
            if self.vacuity is not None:
                p = t[body0].b
                edits.insert(0, (p, p, '\nproof { assert(false); }\n'))
            body = self.apply(s.text, t[body0].a, t[end].b, edits)
            self.fns.append(where)
        if 'decreases' not in spec and False: pass
        return '// ---- extracted from %s: %s\n' % (rel, name) + '\n'.join(attrs) + ('\n' if attrs else '') + vis + sig + '\n' + spec + '\n' + body

if __name__ == '__main__':
    w = Weaver(sys.argv[1], sys.argv[2])
    print(w.weave(sys.argv[3]))
    for l in w.log: print('//', l, file=sys.stderr)
