"""Plan files of the library simulator: parse, write, minimise."""
import copy, re, subprocess, time


class Plan:
    def __init__(self):
        self.head = {}
        self.calls = []   # list of (tid, text)
        self.events = []  # list of [tid, call, y, kind, arg, rest]

    @staticmethod
    def parse(text):
        p = Plan()
        for l in text.splitlines():
            if not l.strip() or l.startswith('#'):
                continue
            k, _, rest = l.partition(' ')
            if k == 'call':
                t, _, c = rest.partition(' ')
                p.calls.append((int(t), c))
            elif k == 'event':
                f = rest.split(' ', 5)
                p.events.append([int(f[0]), int(f[1]), int(f[2]), f[3], int(f[4]), f[5] if len(f) > 5 else ''])
            else:
                p.head[k] = rest
        return p

    def text(self, comments=()):
        o = ['# ' + c for c in comments]
        for k in ('mode', 'variant', 'poison', 'ambient', 'start', 'smallstack', 'allocfail', 'repeat', 'marathon', 'mseed', 'fresh', 'threads'):
            o.append('%s %s' % (k, self.head.get(k, '0')))
        for t, c in self.calls:
            o.append('call %d %s' % (t, c))
        for e in self.events:
            o.append(('event %d %d %d %s %d %s' % tuple(e)).rstrip())
        return '\n'.join(o) + '\n'

    def without_calls(self, idx):
        """drop the calls at positions idx (in self.calls)"""
        idx = set(idx)
        q = Plan()
        q.head = dict(self.head)
        newno, cnt, old = {}, {}, {}
        for i, (t, c) in enumerate(self.calls):
            o = old.get(t, 0)
            old[t] = o + 1
            if i in idx:
                continue
            newno[(t, o)] = cnt.get(t, 0)
            cnt[t] = cnt.get(t, 0) + 1
            q.calls.append((t, c))
        for e in self.events:
            if e[3] == 'end':
                q.events.append([e[0], cnt.get(e[0], 0)] + e[2:])
            elif (e[0], e[1]) in newno:
                q.events.append([e[0], newno[(e[0], e[1])]] + e[2:])
        return q

    def compact_threads(self):
        used = sorted(set(t for t, _ in self.calls))
        if not used:
            return self
        m = {t: i for i, t in enumerate(used)}
        q = Plan()
        q.head = dict(self.head)
        q.head['threads'] = str(len(used))
        q.head['start'] = str(m.get(int(self.head['start']), 0))
        q.calls = [(m[t], c) for t, c in self.calls]
        for e in self.events:
            if e[0] not in m or (e[3] in ('switch', 'end') and e[4] not in m):
                continue
            q.events.append([m[e[0]], e[1], e[2], e[3], m[e[4]] if e[3] in ('switch', 'end') else e[4], e[5]])
        return q


def ddmin(items, test, budget):
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        done = False
        for i in range(0, len(items), size):
            if budget[0] <= 0:
                break
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(2, n - 1)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(plan, violates, budget=900, seconds=60):
    """shrink a plan while `violates(plan)` stays true"""
    b = [budget]
    end = time.time() + seconds

    def ok(p):
        if time.time() > end:
            b[0] = 0
        if b[0] <= 0:
            return False
        b[0] -= 1
        return violates(p)
    cur = plan
    # long histories first: keep only a suffix
    if len(cur.calls) > 64 and len(set(t for t, _ in cur.calls)) == 1:
        k = 1
        while k < len(cur.calls):
            q = cur.without_calls(range(len(cur.calls) - k))
            if ok(q):
                cur = q
                break
            k *= 2
    for _ in range(3):
        before = cur.text()
        # events
        if cur.events:
            q = copy.deepcopy(cur)
            q.events = []
            if ok(q):
                cur = q
            else:
                def te(evs):
                    q = copy.deepcopy(cur)
                    q.events = evs
                    return ok(q)
                evs = ddmin(list(cur.events), te, b)
                cur = copy.deepcopy(cur)
                cur.events = evs
        # calls
        allidx = list(range(len(cur.calls)))

        def tc(keep):
            if not keep:
                return False
            q = cur.without_calls(set(allidx) - set(keep))
            return ok(q)
        keep = ddmin(allidx, tc, b)
        if len(keep) < len(allidx):
            cur = cur.without_calls(set(allidx) - set(keep))
        # length of a long history
        while int(cur.head.get('marathon', '0')) > 1:
            q = copy.deepcopy(cur)
            q.head['marathon'] = str(int(cur.head['marathon']) // 2)
            if not ok(q):
                break
            cur = q
        step = int(cur.head.get('marathon', '0')) // 4
        while step and b[0] > 0:
            q = copy.deepcopy(cur)
            q.head['marathon'] = str(int(cur.head['marathon']) - step)
            if int(q.head['marathon']) >= 0 and ok(q):
                cur = q
            else:
                step //= 2
        # threads
        q = cur.compact_threads()
        if q.text() != cur.text() and ok(q):
            cur = q
        # ambient
        for k, v in (('poison', '0'), ('ambient', '0'), ('variant', '0'), ('repeat', '0'), ('smallstack', '0'), ('start', '0'), ('fresh', '0')):
            if cur.head.get(k, v) != v:
                q = copy.deepcopy(cur)
                q.head[k] = v
                if ok(q):
                    cur = q
        # environments and noise
        for field in (1, 2):
            q = copy.deepcopy(cur)
            ch = False
            for i, (t, c) in enumerate(q.calls):
                f = c.split(' ')
                if f[field] != '0':
                    f[field] = '0'
                    ch = True
                    q.calls[i] = (t, ' '.join(f))
            if ch and ok(q):
                cur = q
        # arguments towards simpler ones
        if len(cur.calls) <= 8:
            for i in range(len(cur.calls)):
                t, c = cur.calls[i]
                f = c.split(' ')
                for j in range(3, len(f)):
                    hi, lo = f[j].split(':')
                    for cand in ('0', '1', '2'):
                        if lo == cand:
                            break
                        g = list(f)
                        g[j] = hi + ':' + cand
                        q = copy.deepcopy(cur)
                        q.calls[i] = (t, ' '.join(g))
                        if hi == '0' and ok(q):
                            cur = q
                            f = g
                            break
        if cur.text() == before or b[0] <= 0:
            break
    return cur, budget - b[0]
