from .common import *
from ..lazysim import LIMIT
from .p08 import gen_picks
from .. import gen as _gen


class PROP(Prop):
    id = 'P17'
    quick = 1500
    thorough = 30000
    rule = ('A run is one process in which several iterators of the library '
            '(summation terms, products of index ranges, basis states, '
            'pattern matches) over the results of random client scripts are '
            'consumed piecewise, interleaved by a seeded schedule with each '
            'other, with other scripts, caching scopes, garbage collection, '
            'closing and dropping, clients overwriting the mappings they '
            'got, exceptions injected inside the step of an iterator, and '
            'with threads iterating over the same objects. Each iterator '
            'must yield the items that a single uninterrupted loop yields in '
            'a pristine process. Non-trivial: at least two iterators were '
            'partially consumed at the same time.')
    assumptions = ['an iterator that raised is finished; one iterator is not '
                   'advanced by two threads at once']

    def source(self, rng):
        """a script that makes things to iterate over"""
        prof = {'templates': 0.3}
        if rng.random() < 0.4:
            return _gen.gen_script(rng, None, prof)
        g = _gen.G(rng, prof)
        n = rng.choice([6, 10, 14])
        while len(g.ops) < n:
            z = rng.random()
            if z < 0.45:
                g.new_sum()
            elif z < 0.6:
                g.combine_sum()
            elif z < 0.72:
                g.new_idxrange()
            elif z < 0.85:
                g.new_hs()
            else:
                g.combine_op()
        return g.ops[:n + 12]

    def gen(self, rng, i):
        steps = []
        labels = []
        for k in range(rng.choice([1, 2, 2])):
            s = self.source(rng)
            if k and rng.random() < 0.4:
                s = _gen.mutate(rng, steps[0]['s'], rng.choice([0, 1, 2]))
            labels.append('s%d' % k)
            steps.append({'t': 'script', 's': s, 'label': labels[-1]})
        count = [0]

        def opening(do='open'):
            count[0] += 1
            return {'do': do, 'id': 'i%d' % count[0],
                    'label': rng.choice(labels), 'r': rng.random(),
                    'r2': rng.random()}
        live = []
        z = rng.random()
        faults, threads = z < 0.3, 0.3 <= z < 0.6
        scopes = 0

        def again(steps):
            # iterate over the same thing as before
            old = [s for s in steps if s.get('do') == 'open']
            ev = opening()
            if old and rng.random() < 0.6:
                o = rng.choice(old)
                ev.update(label=o['label'], r=o['r'], r2=o['r2'])
            return ev

        def advance(ids):
            ev = {'do': 'next', 'id': rng.choice(ids),
                  'n': rng.choice([1, 1, 1, 2, 3, 5])}
            if rng.random() < 0.15:
                ev['clobber'] = True
            return ev
        for _ in range(rng.choice([8, 14, 22])):
            z = rng.random()
            if threads and z < 0.15:
                k = rng.choice([2, 2, 3])
                evs = []
                mine = list(live)
                rng.shuffle(mine)
                for t in range(k):
                    own = mine[t::k]
                    b = []
                    for _ in range(rng.choice([1, 2, 3])):
                        if not own or rng.random() < 0.4:
                            ev = again(steps)
                            if evs and rng.random() < 0.6:
                                for o in evs[0]:
                                    if o['do'] == 'open':
                                        ev.update(label=o['label'],
                                                  r=o['r'], r2=o['r2'])
                                        break
                            b.append(ev)
                            own.append(ev['id'])
                            b.append(advance([ev['id']]))
                        else:
                            b.append(advance(own))
                    evs.append(b)
                steps.append({'t': 'lazythreads', 'evs': evs,
                              'first': rng.randrange(k),
                              'picks': gen_picks(rng, k)})
            elif z < 0.3 or not live:
                ev = dict(again(steps), t='lazy')
                steps.append(ev)
                live.append(ev['id'])
            elif z < 0.72:
                ev = dict(advance(live), t='lazy')
                if faults and rng.random() < 0.25:
                    ev['picks'] = [{
                        'r': rng.random(), 'o': rng.random(),
                        'exc': rng.choice(['KeyboardInterrupt', 'MemoryError',
                                           'RecursionError'])}]
                steps.append(ev)
            elif z < 0.78:
                steps.append({'t': 'lazy', 'do': rng.choice([
                    'close', 'drop']), 'id': rng.choice(live)})
            elif z < 0.84:
                ev = opening('all')
                steps.append(dict(ev, t='lazy'))
            elif z < 0.92:
                s = self.source(rng) if rng.random() < 0.5 else \
                    _gen.mutate(rng, steps[0]['s'], rng.choice([0, 1]))
                steps.append({'t': 'script', 's': s})
            elif z < 0.95:
                steps.append({'t': 'gc'})
            elif z < 0.98:
                scopes += 1
                steps.append({
                    't': 'enter', 'id': 'c%d' % scopes, 'cm': rng.choice([
                        'nocache', 'cache']),
                    'classes': ['Expression']})
            elif scopes:
                steps.append({'t': 'exit', 'id': 'c%d' % scopes})
                scopes -= 1
        while scopes:
            steps.append({'t': 'exit', 'id': 'c%d' % scopes})
            scopes -= 1
        for i in live:
            steps.append({'t': 'lazy', 'do': 'next', 'id': i, 'n': 3})
        steps.append({'t': 'lazy', 'do': 'check'})
        for lab in labels:
            steps.append({'t': 'recheck', 'label': lab})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs, new = [], []
        scripts = {}
        where = {}          # id -> [label, src, items so far, end]
        overlap = 0

        def ref(label, src):
            r = ctx.ref_session([
                {'t': 'script', 's': scripts[label][0], 'label': label},
                {'t': 'lazy', 'do': 'all', 'id': 'x', 'label': label,
                 'src': src, 'limit': 48}], texts=texts)
            return r['steps'][1]

        def same(at, label, src, start, got, finished):
            """the items from number `start` on are those of the reference"""
            want = ref(label, src)
            if want['end'] == 'skip':
                return
            items = want['items'][start:]
            n = len(got['items'])
            what = None
            if want['end'] == 'more' and start + n > len(want['items']):
                return
            if finished:
                if n or got['end'] not in ('stop', 'more', 'skip'):
                    what = 'a finished iterator yields %s %s' % (
                        got.get('texts', got['items']), got['end'])
            elif got['items'] != items[:n] and (
                    start + n <= len(want['items'])
                    or want['end'] != 'more'):
                j = [a == b for a, b in zip(
                    got['items'], items)] + [False]
                j = j.index(False)
                what = 'item %d is %s instead of %s' % (
                    start + j, got.get('texts', got['items'])[j] if j < n
                    else '(none)', want.get('texts', want['items'])[
                        start + j] if start + j < len(want['items'])
                    else want['end'])
            elif got['end'] != 'more' and (
                    got['end'] != want['end'] or
                    start + n != len(want['items'])):
                what = '%s after %d items instead of %s after %d' % (
                    got['end'], start + n, want['end'], len(want['items']))
            if what and not vs:
                vs.append(Violation('items', 'step %d: %s of v%s of %s: %s' % (
                    at, src[1], src[0], label, what)))

        def event(k, ev, got):
            if got is None or got.get('end') == 'skip':
                return ev
            fired = got.get('fired') or ()
            for f in fired:
                ctx.fault(f[1])
            do = ev['do']
            if do in ('open', 'all'):
                ev = dict(ev, src=got['src'])
                label = ev['label']
                if do == 'open':
                    if got['end'] != 'more':
                        if ref(label, got['src'])['end'] != got['end'] \
                                and not vs and not fired:
                            vs.append(Violation('items', (
                                'step %d: opening %s raised %s' % (
                                    k, got['src'], got['end']))))
                        return ev
                    where[ev['id']] = [label, got['src'], 0, False]
                else:
                    same(k, label, got['src'], 0, got, False)
                return ev
            if ev['id'] not in where:
                return ev
            w = where[ev['id']]
            if do == 'drop':
                del where[ev['id']]
                return ev
            if do == 'close':
                w[3] = True
                return ev
            if fired and got['end'] not in ('more', 'stop'):
                # the injected exception ended it
                end = dict(got, end='more')
                same(k, w[0], w[1], w[2], end, w[3])
                w[3] = True
            else:
                same(k, w[0], w[1], w[2], got, w[3])
                if got['end'] != 'more':
                    w[3] = True
            w[2] += len(got['items'])
            ctx.probe('items', len(got['items']))
            return ev
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            st = dict(st)
            if st['t'] == 'script':
                r = ctx.ref(st['s'], texts=texts)
                if not vs:
                    check_script(ctx, st, got, r, 'other-work', vs, texts,
                                 st['s'], 'step %d, ' % k)
                if 'label' in st:
                    scripts[st['label']] = (st['s'], got)
            elif st['t'] == 'recheck' and st['label'] in scripts:
                s, was = scripts[st['label']]
                bad = compare(was['out'], got['out'])
                if bad and not vs:
                    vs.append(Violation('changed', first_diff(
                        ctx, s, was['out'], got['out'], bad[0],
                        was.get('texts'), got.get('texts'))))
            elif st['t'] == 'lazy' and st['do'] == 'check':
                if got['bad'] and not vs:
                    vs.append(Violation('changed', got['bad'][0]))
            elif st['t'] == 'lazy':
                st = event(k, st, got)
                if 'picks' in got:
                    st['picks'] = got['picks']
            elif st['t'] == 'lazythreads':
                st['evs'] = [[event(k, ev, g) for ev, g in zip(b, gs)]
                             for b, gs in zip(st['evs'], got['threads'])]
                st.pop('picks', None)
                if 'schedule' in got:
                    st['schedule'] = got['schedule']
                ctx.fault('preemption', len(got['switches']))
                if got['bad'] and not vs:
                    vs.append(Violation('threads', got['bad'][0]))
            if st.get('do') in ('close', 'drop'):
                ctx.fault('abandoned_iterator')
            new.append(st)
            overlap = max(overlap, sum(
                1 for w in where.values() if w[2] and not w[3]))
        ctx.probe('iterators', len(where))
        return vs, {'sig': digest([[w[0], w[1], w[2]] for w in
                                   where.values()] + [steps[0]['s']]),
                    'nontrivial': overlap > 1,
                    'resolved': {'steps': new}}

    def scripts(self, case):
        return []

    def shrink(self, case):
        steps = case['steps']
        yield from super().shrink(case)
        for i, st in enumerate(steps):
            def put(**kw):
                return {'steps': steps[:i] + [dict(st, **kw)] + steps[i + 1:]}
            if st['t'] == 'lazythreads':
                for j, b in enumerate(st['evs']):
                    for m in range(len(b)):
                        yield put(evs=st['evs'][:j] + [b[:m] + b[m + 1:]]
                                  + st['evs'][j + 1:])
                sch = st.get('schedule', [])
                if len(sch) > 3:
                    h = len(sch) // 2
                    yield put(schedule=sch[:h])
                    yield put(schedule=sch[h:])
            if st['t'] == 'lazy':
                if st.get('n', 1) > 1:
                    yield put(n=1)
                for key in ('picks', 'clobber'):
                    if key in st:
                        d = dict(st)
                        del d[key]
                        yield {'steps': steps[:i] + [d] + steps[i + 1:]}
