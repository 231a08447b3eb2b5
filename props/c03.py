from hist import *


class Cur:
    def __init__(self, seek, m):
        self.seek = seek
        self.last = None            # last position returned (None: nothing returned yet)
        self.live = set(m.d)        # keys live continuously since the cursor was opened
        self.vals = {k: {v} for k, v in m.d.items()}    # values since open
        self.touched = False        # a key was deleted since the last movement
        self.ended = False
        self.fresh = True           # moved since the last read that returned an event
        self.skips = 0              # events stepped over without reading them since the last read
        self.gone = set()           # keys deleted since the last movement

    def beyond(self, k):
        if self.last is None:
            return self.seek is None or k >= self.seek
        return k > self.last


class CursorDb(Db):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.cur = {}

    def note(self, events, m):
        """the batch was applied; m is the content after"""
        for c in self.cur.values():
            before = self.m.d
            for k in set((e[0], key_bytes(e[1])) for e in events):
                if k in before and k not in m.d:
                    c.live.discard(k)
                    c.gone.add(k)
                # every version in the batch, in order
                for e in events:
                    if (e[0], key_bytes(e[1])) == k:
                        if len(e) > 3 and e[3]:
                            c.live.discard(k)
                            c.gone.add(k)
                        else:
                            c.vals.setdefault(k, set()).add(digest(e[2]))

    def write(self, events, may_fail=False):
        def cb(line, res):
            if not res.startswith("ok"):
                if may_fail:
                    self.bump("failed_writes")
                    # events may have been visible for a moment, but never to this thread
                    return
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            m = self.m.copy()
            m.apply(events)
            self.note(events, m)
            self.m = m
            self.bump("writes")
            if self.cur:
                self.bump("writes_under_cursor")
        self.s.add("w " + " ".join(ev_text(e) for e in events), cb)

    def bulk(self, start, step, count, batch, key, kind, seed, ln):
        evs = [list(e) for e in bulk_events(start, step, count, key, kind, seed, ln)]

        def cb(line, res):
            if res != "ok":
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            m = self.m.copy()
            m.apply(evs)
            self.note(evs, m)
            self.m = m
            if self.cur:
                self.bump("writes_under_cursor")
        self.s.add("wb %d %d %d %d %s %s %d %d" % (start, step, count, batch, key, kind, seed, ln), cb)

    def copen(self, slot, seek):
        def cb(line, res):
            if res != "ok":
                raise Fail("cursor open failed: " + res[:200])
            self.cur[slot] = Cur(None if seek is None else (seek[0], key_bytes(seek[1])), self.m)
        self.s.add("c %d open%s" % (slot, "" if seek is None else " %d %s" % (seek[0], seek[1])), cb)

    def check_missed(self, c, upto, what):
        miss = sorted(k for k in c.live if c.beyond(k) and (upto is None or k < upto))
        if len(miss) > c.skips:
            raise Fail("cursor skipped %d:%s (%s), which was ahead and never deleted" % (miss[0][0], miss[0][1].hex() or "-", what))

    def cread(self, slot):
        def cb(line, res):
            c = self.cur.get(slot)
            if c is None:
                return
            if res.startswith("err"):
                raise Fail("cursor read failed: " + res[:200])
            if res == "ok end":
                if not c.ended and not c.gone:
                    self.check_missed(c, None, "the cursor reports the end")
                    if not c.fresh:
                        raise Fail("a cursor on an event that still exists reports the end")
                self.bump("ends")
                return
            if c.ended:
                raise Fail("an exhausted cursor returns %s" % res)
            k, v = parse_event(res[3:])
            if not c.fresh:
                if k != c.last:
                    raise Fail("read without a step moved from %s to %s" % (c.last, res))
            else:
                if not c.beyond(k):
                    raise Fail("cursor went backwards: %s after %s" % (res[3:], c.last if c.last else c.seek))
                self.check_missed(c, k, "it moved to %d:%s" % (k[0], k[1].hex() or "-"))
            if k not in c.vals or v not in c.vals[k]:
                raise Fail("cursor returned %s which was never written (known values %s)" % (res[3:], sorted(c.vals.get(k, []))[:3]))
            c.last = k
            c.skips = 0
            c.fresh = False
            self.bump("reads")
        self.s.add("c %d read" % slot, cb)

    def cnext(self, slot):
        def cb(line, res):
            c = self.cur.get(slot)
            if c is None:
                return
            if res.startswith("err"):
                raise Fail("cursor next failed: " + res[:200])
            if c.fresh and not c.ended:
                c.skips += 1        # stepping over an event that was not read
            if res == "ok 0":
                if not c.ended:
                    self.check_missed(c, None, "the cursor reached the end")
                c.ended = True
            elif c.ended:
                raise Fail("an exhausted cursor moved")
            c.fresh = True
            c.gone = set()
            self.bump("steps")
        self.s.add("c %d next" % slot, cb)

    def cclose(self, slot):
        def cb(line, res):
            self.cur.pop(slot, None)
        self.s.add("c %d close" % slot, cb)

    def op(self, o):
        k = o[0]
        if k == "co":
            self.copen(o[1], o[2])
        elif k == "cr":
            self.cread(o[1])
        elif k == "cn":
            self.cnext(o[1])
        elif k == "walk":          # n steps with reads
            for _ in range(o[2]):
                self.cnext(o[1])
                self.cread(o[1])
        elif k == "cc":
            self.cclose(o[1])
        elif k == "wf":
            self.s.add("fault fail wr 1")
            self.write(o[1], may_fail=True)
            self.s.add("fault off")
        else:
            return super().op(o)
        return True


class Check(Property):
    id = "C03"
    quick = 3200
    thorough = 60000
    rule = ("a case is content in memory and files of a few partitions, then up to 60 steps that interleave cursor steps of up to three "
            "cursors with inserts, replacements, deletes and failed batches of the same thread around the cursor positions, including bulk "
            "writes that split in-memory pages; non-trivial: at least one write under an open cursor followed by a step of it")
    assumptions = ["one thread; a cursor may or may not show events inserted or deleted after it was opened", "no maintenance while a cursor is open (it would wait for the cursor)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [3, 10, 100, 100, 1000, 1 << 40])
        iv = cfg["interval"]
        n = r.choice([6, 12, 40, 200, 600, 1500])
        if n // iv > 12:
            n = iv * 12
        step = r.choice([1, 1, 2, 4])
        ops = []
        key = r.choice(["-", "-", "-", "61"])
        keys = [key] if r.random() < 0.6 else [key, "6162", "00", "ff"]
        span = n * step
        nmode = r.choice(["mem", "file", "both"])

        def fill():
            if r.random() < 0.7:
                ops.append(["wb", r.choice([0, 1]), step * r.choice([1, 1, 2]), max(1, n // r.choice([1, 1, 2])), r.choice([1, 7, 50]), key, "r", r.randint(0, 1 << 20), r.choice([0, 8])])
            else:
                ops.append(["w", [[r.randint(0, span), r.choice(keys), gen_value(r, 0)] for _ in range(r.randint(1, 30))]])
        fill()
        if nmode != "mem":
            ops.append(["ck"])
        if nmode == "both":
            fill()
            ops.append(["w", [[r.randint(0, span), r.choice(keys), gen_value(r, 0)] + ([1] if r.random() < .4 else []) for _ in range(r.randint(1, 30))]])
        near = [r.randint(0, span)]

        def around():
            j = r.random()
            if j < 0.7:
                return min(M64 - 1, max(0, r.choice(near) + r.randint(-6, 8) * r.choice([1, 1, step])))
            return r.randint(0, span + 2)
        slots = []
        for _ in range(r.randint(1, 2)):
            s = len(slots)
            slots.append(s)
            if r.random() < 0.3:
                ops.append(["co", s, None])
                near.append(0)
            else:
                a = around()
                ops.append(["co", s, [a, r.choice(keys + ["-"])]])
                near.append(a)
            ops.append(["cr", s])
        for _ in range(r.randint(4, 40)):
            k = r.random()
            s = r.choice(slots)
            if k < 0.42:
                ops.append(["cn", s])
                if r.random() < 0.93:
                    ops.append(["cr", s])
                near[1 + s] = min(M64 - 1, near[1 + s] + step)
            elif k < 0.47:
                w = r.choice([3, 10, 60, 300])
                ops.append(["walk", s, w])
                near[1 + s] = min(M64 - 1, near[1 + s] + step * w)
            elif k < 0.87:
                b = []
                for _ in range(r.choice([1, 1, 1, 2, 5, 12])):
                    e = [around(), r.choice(keys), gen_value(r, 0)]
                    if r.random() < 0.4:
                        e.append(1)
                    b.append(e)
                ops.append(["wf" if r.random() < 0.08 else "w", b])
                if r.random() < 0.3:
                    ops.append(["cr", s])
            elif k < 0.93:
                c = r.choice([20, 100, 520])
                a = around()
                st = 1
                if iv < 100:
                    c = min(c, iv * 6)
                ops.append(["wb", max(0, a - r.choice([0, c // 2, c])), st, c, r.choice([1, 10]), r.choice(keys + ["6163"]), "r", r.randint(0, 1 << 20), r.choice([0, 8])])
            elif k < 0.97:
                a = around()
                ops.append(["co", s, None if r.random() < .2 else [a, r.choice(keys)]])
                ops.append(["cr", s])
                near[1 + s] = a
            else:
                ops.append(["cr", s])
        for s in slots:
            ops.append(["walk", s, r.choice([5, 40])])
            ops.append(["cc", s])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.2 else "plain"}

    def run(self, case):
        w = CursorDb(case["cfg"])
        w.start()
        for o in case["ops"]:
            w.op(o)
        for s in (0, 1, 2):
            w.cclose(s)
        w.scan("final scan")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("writes_under_cursor", 0) > 0 and st.get("reads", 0) > 1
        return st
