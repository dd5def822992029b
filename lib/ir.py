"""Loading of the normalised IR dump: functions, CFG, dominators, loops, types."""
import json, re, bisect


class Func:
    def __init__(self, j, mod):
        self.mod = mod
        self.name = j['name']
        self.dname = j.get('dname', j['name'])
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.internal = j['internal']
        self.args = j['args']
        self.ret = j['ret']
        self.blocks = j['blocks']
        self.n = len(self.blocks)
        self.ins = {}
        self.blk_of = {}
        for b, bl in enumerate(self.blocks):
            for i in bl:
                self.ins[i['id']] = i
                self.blk_of[i['id']] = b
        self.succ = []
        for bl in self.blocks:
            t = bl[-1] if bl else None
            s = list(t.get('succ', [])) if t else []
            if t and t['op'] == 'switch':
                s = [s[0]] + [c[1] for c in t['cases']] if s else []
            self.succ.append(s)
        self._prune()
        self._cfg()

    def __repr__(self):
        return f'<{self.dname}>'

    def _prune(self):
        # blocks from which neither a return nor an endless loop is reachable:
        # the noreturn error paths (log + exit)
        n = self.n
        good = set()
        for b, bl in enumerate(self.blocks):
            if bl and bl[-1]['op'] in ('ret', 'resume'):
                good.add(b)
        preds = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                preds[s].append(b)
        st = list(good)
        while st:
            b = st.pop()
            for p in preds[b]:
                if p not in good:
                    good.add(p)
                    st.append(p)
        if 0 not in good:
            # never returns (eg an endless service loop): keep everything that
            # is not an unreachable-terminated straight line
            good = set()
            work = True
            dead = set(b for b in range(n) if self.blocks[b] and self.blocks[b][-1]['op'] == 'unreachable')
            while work:
                work = False
                for b in range(n):
                    if b not in dead and self.succ[b] and all(s in dead for s in self.succ[b]):
                        dead.add(b)
                        work = True
            good = set(range(n)) - dead
        self.dead = set(range(n)) - good
        self.gsucc = [[s for s in self.succ[b] if s in good] if b in good else [] for b in range(n)]

    def _cfg(self):
        n = self.n
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in dict.fromkeys(self.gsucc[b]):
                self.pred[s].append(b)
        seen = set()
        post = []
        if n:
            st = [(0, iter(dict.fromkeys(self.gsucc[0])))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(dict.fromkeys(self.gsucc[s]))))
                        break
                else:
                    post.append(b)
                    st.pop()
        self.rpo = post[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        self.idom = self._dom(self.rpo, self.pred, 0 if n else None)
        # post-dominators over the pruned graph with a virtual exit -1
        exits = [b for b in self.rpo if not self.gsucc[b]]
        succ = {b: list(dict.fromkeys(self.gsucc[b])) for b in self.rpo}
        rp = {b: [] for b in self.rpo}
        for b in self.rpo:
            rp[b] = succ[b] if succ[b] else [-1]
        seen = {-1}
        post = []
        st = [(-1, iter(exits))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.pred[s])))
                    break
            else:
                post.append(b)
                st.pop()
        order = post[::-1]
        self.ipdom = self._dom(order, rp, -1)
        # loops
        self.loops = {}
        for b in self.rpo:
            for s in self.gsucc[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])
        self.parent = {}
        self.loop_of = {}
        hs = sorted(self.loops, key=lambda h: len(self.loops[h]))
        for i, h in enumerate(hs):
            self.parent[h] = None
            for g in hs[i + 1:]:
                if h in self.loops[g]:
                    self.parent[h] = g
                    break
        for b in self.rpo:
            self.loop_of[b] = None
            for h in hs:
                if b in self.loops[h]:
                    self.loop_of[b] = h
                    break

    def _dom(self, rpo, pred, root):
        idom = {root: root}
        idx = {b: i for i, b in enumerate(rpo)}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in pred[b] if b != -1 else []:
                    if p in idom and p in idx:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom or self.idom[b] == b:
                return False
            b = self.idom[b]

    def postdominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.ipdom or self.ipdom[b] == b:
                return False
            b = self.ipdom[b]

    def loc(self, ins):
        l = ins.get('l')
        if not l:
            return f'{self.file}:{self.line}'
        return f'{l[0][0]}:{l[0][1]}'

    def calls(self):
        for b in self.rpo:
            for i in self.blocks[b]:
                if i['op'] in ('call', 'invoke'):
                    yield b, i


def callee_name(i):
    c = i.get('callee')
    if c and c[0] == 'fn':
        return c[1]
    return None


class Struct:
    def __init__(self, j):
        self.name = j['name']
        self.size = j['size']
        self.members = j.get('members', [])
        self.enums = j.get('enums')
        self.file = j.get('file')
        self.line = j.get('line')

    def field_at(self, off):
        best = None
        for m in self.members:
            if m[1] <= off < m[1] + max(m[3], 1):
                best = m
        return best

    def off(self, name):
        for m in self.members:
            if m[0] == name:
                return m[1]
        raise KeyError(f'{self.name}.{name}')

    def get(self, name):
        for m in self.members:
            if m[0] == name:
                return m
        return None


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.globals = {g['name']: g for g in d['globals']}
        self.decls = set(d['decls'])
        self.structs = {}
        self.typedefs = {}
        self.enums = {}
        self.allstructs = []
        for t in d['dtypes']:
            if 'typedef' in t:
                self.typedefs[t['typedef']] = t['of']
                continue
            s = Struct(t)
            self.allstructs.append(s)
            if s.enums is not None:
                for e in s.enums:
                    self.enums[e[0]] = e[1]
            if s.name and s.name not in self.structs:
                self.structs[s.name] = s
        self.funcs = {}
        self.by_dname = {}
        self._raw = {f['name']: f for f in d['funcs']}
        for f in d['funcs']:
            self.by_dname.setdefault(f.get('dname', f['name']), []).append(f['name'])

    def __iter__(self):
        for n in self._raw:
            yield self.func(n)

    def func(self, n):
        if n in self.funcs:
            return self.funcs[n]
        if n in self._raw:
            r = self._raw[n]
        elif n in self.by_dname and len(self.by_dname[n]) == 1:
            r = self._raw[self.by_dname[n][0]]
            n = r['name']
            if n in self.funcs:
                return self.funcs[n]
        else:
            return None
        f = Func(r, self)
        self.funcs[n] = f
        return f

    def funcs_in(self, suffix):
        return [self.func(n) for n, r in self._raw.items() if r.get('file', '').endswith(suffix)]

    def resolve(self, tn):
        """strip typedefs of a type name"""
        base = tn
        suf = ''
        while base and base[-1] in '*&':
            suf = base[-1] + suf
            base = base[:-1]
        seen = set()
        while base in self.typedefs and base not in seen:
            seen.add(base)
            nb = self.typedefs[base]
            while nb and nb[-1] in '*&':
                suf = nb[-1] + suf
                nb = nb[:-1]
            base = nb
        return base + suf
