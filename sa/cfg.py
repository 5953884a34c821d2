"""Dominators and natural loops of an ir.Function."""


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.entry = fn.entry
        order, seen = [], set()
        # iterative post-order
        stack = [(fn.entry, iter(fn.entry.succs))]
        seen.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.reach = seen
        idom = {fn.entry: fn.entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while self.num[x] > self.num[y]:
                                    x = idom[x]
                                while self.num[y] > self.num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) is not new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self._domsets = {}
        self.loops = []
        self.loop_of = {}          # block -> innermost loop
        self._find_loops()

    def dom(self, a, b):
        """a dominates b"""
        s = self._domsets.get(b)
        if s is None:
            s = set()
            x = b
            while True:
                s.add(x)
                if x is self.entry:
                    break
                x = self.idom[x]
            self._domsets[b] = s
        return a in s

    def chain(self, b):
        while True:
            yield b
            if b is self.entry:
                return
            b = self.idom[b]

    def preds(self, b):
        return [p for p in b.preds if p in self.reach]

    def _find_loops(self):
        heads = {}
        for b in self.rpo:
            for s in b.succs:
                if self.dom(s, b):
                    heads.setdefault(s, []).append(b)
        for h in self.rpo:
            if h in heads:
                body = {h}
                work = list(heads[h])
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(p for p in x.preds if p in self.reach)
                self.loops.append(Loop(h, heads[h], body))
        # nesting
        by_size = sorted(self.loops, key=lambda l: len(l.body))
        for i, l in enumerate(by_size):
            for b in l.body:
                if b not in self.loop_of:
                    self.loop_of[b] = l
            for m in by_size[i + 1:]:
                if l.header in m.body and m is not l:
                    l.parent = m
                    break
        for l in self.loops:
            l.entries = [p for p in self.preds(l.header) if p not in l.body]
            l.exits = [(b, s) for b in l.body for s in b.succs if s not in l.body]
            l.depth = 1
            p = l.parent
            while p:
                l.depth += 1
                p = p.parent

    def inloop(self, l, b):
        return b in l.body


class Loop:
    def __init__(self, header, latches, body):
        self.header, self.latches, self.body = header, latches, body
        self.parent = None

    def __repr__(self):
        return 'loop@' + self.header.name
