from .common import *
from .p08 import gen_picks
from .. import gen as _gen

PATHS = ['a.png', 'a.png', 'b.pdf', 'c.eps', 'd.jpg', 'e.ps']
ODD = ['a.svg', 'a', 'a.PNG', 'a.jpeg', 'nodir/a.png', 'nodir/b.pdf', '.png',
       'a.png.txt']


class PROP(Prop):
    id = 'P13'
    quick = 1000
    thorough = 20000
    rule = ('A run renders, shows and draws the circuits that random client '
            'scripts produce, from one or several processes and threads that '
            'share a disk, under a clock that stands still, ticks or jumps, '
            'with leftover files, drawing errors, interrupts, disk errors at '
            'opening, writing and closing, a silently failing Ghostscript '
            'and processes that die while writing. A reported picture must '
            'be the one that a pristine process makes of this circuit, be '
            'where the client asked for it, have one labelled box for each '
            'component, and never change afterwards; without a fault, the '
            'rendering must succeed. Non-trivial: at least two renderings, '
            'or a fault.')
    assumptions = ['PyX is a recording stand-in; a Ghostscript process that '
                   'fails leaves its output file alone or creates none; two '
                   'clients do not ask for the same path at the same time']

    def source(self, rng):
        g = _gen.G(rng, {'printing': 0, 'templates': 0})
        n = rng.choice([4, 7, 11])
        for _ in range(40):
            if len(g.ops) >= n:
                break
            g.new_circ() if rng.random() < 0.5 else g.combine_circ()
        return g.ops

    def fault(self, rng):
        at = rng.choice(['text', 'open', 'data', 'close', 'spawn', 'gs',
                         'gs', 'gs'])
        f = {'at': at}
        if at == 'text':
            f['n'] = rng.choice([0, 1, 2])
            f['exc'] = rng.choice(['ValueError', 'RuntimeError',
                                   'KeyboardInterrupt'])
        elif at != 'gs':
            f['pos'] = rng.random()
            f['errno'] = rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EROFS'])
            if rng.random() < 0.15:
                f['exc'] = 'KeyboardInterrupt'
        return f

    def clock(self, rng):
        return {'tick': rng.choice([0, 0, 1e-6, 0.5]),
                'jumps': [[rng.randrange(6), rng.choice([-3600, -1, 1e6])]
                          for _ in range(rng.choice([0, 0, 1, 2]))]}

    def rendering(self, rng, labels, faults=True, paths=PATHS):
        z = rng.random()
        ev = {'do': 'render', 'label': rng.choice(labels), 'r': rng.random()}
        if z < 0.45:
            if rng.random() < 0.3:
                ev['do'] = 'show'
        elif z < 0.8:
            ev['path'] = rng.choice(paths)
        else:
            ev.update(do='draw', path=rng.choice(paths), kw=rng.choice([
                {}, {'direction': 'rl'}, {'draw_boxes': False},
                {'permutation_arrows': True}, {'hunit': 2}, {'vunit': -2.0},
                {'rhmargin': 0.2}, {'rvmargin': 0.1},
                {'rpermutation_length': 0.7},
                {'direction': 'rl', 'vunit': -0.5, 'rhmargin': 0.25}]))
        if 'path' in ev and rng.random() < 0.12 and faults:
            ev['path'] = rng.choice(ODD)
        if faults:
            ev['clock'] = self.clock(rng)
            y = rng.random()
            if y < 0.25:
                ev['fault'] = self.fault(rng)
            elif y < 0.32:
                ev['picks'] = [{
                    'r': rng.random(), 'o': rng.random(),
                    'exc': rng.choice(['KeyboardInterrupt', 'MemoryError',
                                       'RecursionError'])}]
        return ev

    def gen(self, rng, i):
        steps, labels = [], []
        for k in range(rng.choice([1, 2])):
            s = self.source(rng)
            if k and rng.random() < 0.4:
                s = _gen.mutate(rng, steps[0]['s'], rng.choice([1, 2]))
            labels.append('s%d' % k)
            steps.append({'t': 'script', 's': s, 'label': labels[-1]})
        for _ in range(rng.choice([2, 3, 5])):
            z = rng.random()
            if z < 0.1:
                steps.append({'t': 'pic', 'do': 'stale', 'path': rng.choice(
                    PATHS + ODD[:4])})
            elif z < 0.15:
                steps.append({'t': 'pic', 'do': 'rm', 'r': rng.random()})
            elif z < 0.3:
                evs = [self.rendering(rng, labels)
                       for _ in range(rng.choice([1, 2]))]
                for ev in evs:
                    ev.pop('picks', None)
                if rng.random() < 0.4:
                    evs[-1]['fault'] = {'at': 'die', 'pos': rng.random()}
                steps.append({'t': 'picproc', 'evs': evs})
            elif z < 0.5:
                k = rng.choice([2, 2, 3])
                paths = rng.sample(PATHS[1:], k)
                evs = [[self.rendering(rng, labels, False, [paths[t]])
                        for _ in range(rng.choice([1, 2]))]
                       for t in range(k)]
                steps.append({'t': 'picthreads', 'evs': evs,
                              'first': rng.randrange(k),
                              'clock': self.clock(rng),
                              'picks': gen_picks(rng, k)})
                if rng.random() < 0.3:
                    steps[-1]['fault'] = self.fault(rng)
            else:
                steps.append(dict(self.rendering(rng, labels), t='pic'))
            if rng.random() < 0.5:
                steps.append({'t': 'pic', 'do': 'check'})
        steps.append({'t': 'pic', 'do': 'check'})
        for lab in labels:
            steps.append({'t': 'recheck', 'label': lab})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs, new, scripts = [], [], {}
        n = [0, 0]

        def ref(ev):
            ev = {k: v for k, v in ev.items()
                  if k in ('do', 'label', 'r', 'path', 'kw')}
            return ctx.ref_session([
                {'t': 'script', 's': scripts[ev['label']][0],
                 'label': ev['label']}, dict(ev, t='pic')])['steps'][1]

        def judge(k, ev, got, fired=()):
            if got['end'] == 'skip' or 'label' not in ev or vs:
                return
            n[0] += 1
            fired = list(fired or got['fired'])
            fired += [f[1] for f in got.get('interrupted', ())]
            for f in fired:
                ctx.fault('fault_' + f)
            n[1] += len(fired)
            want = ref(ev)
            if want['end'] == 'skip':
                return
            what = None
            if got['end'] == 'ok':
                ctx.probe('pictures')
                if got['file'].startswith('('):
                    what = 'reported a file that does not exist'
                elif want['end'] != 'ok':
                    what = ('reported a file, although this picture cannot '
                            'be made (%s)' % want['end'])
                elif got['file'] != want['file']:
                    what = 'reported a wrong or partial picture'
                elif got['wrong_path']:
                    what = 'reported another path than the requested one'
                elif got.get('shown') != want.get('shown'):
                    what = 'showed another picture'
                elif got['incomplete']:
                    what = 'incomplete picture: %s' % got['incomplete']
            elif want['end'] == 'ok' and not fired:
                what = 'failed without a reason (%s)' % got['end']
            if what:
                vs.append(Violation('picture', 'step %d: %s: %s' % (
                    k, ev['do'], what)))

        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'script':
                scripts[st['label']] = (st['s'], got)
            elif st['t'] == 'recheck':
                if st['label'] in scripts:
                    s, was = scripts[st['label']]
                    bad = compare(was['out'], got['out'])
                    if bad:
                        vs.append(Violation('object-changed', first_diff(
                            ctx, s, was['out'], got['out'], bad[0],
                            was.get('texts'), got.get('texts'))))
            elif st['t'] == 'pic' and st['do'] == 'check':
                if got['bad'] and not vs:
                    vs.append(Violation('overwritten', 'step %d: %s' % (
                        k, got['bad'][0])))
            elif st['t'] == 'pic':
                if 'picks' in got:
                    st = {a: b for a, b in st.items() if a != 'picks'}
                    st['at'] = [f[:2] for f in got['interrupted']]
                judge(k, st, got)
            elif st['t'] == 'picproc':
                if got['events'] is None:
                    ctx.fault('process_death')
                    n[1] += 1
                for ev, g in zip(st['evs'], got['events'] or ()):
                    judge(k, ev, g)
            elif st['t'] == 'picthreads':
                ctx.fault('preemption', len(got['switches']))
                n[1] += bool(got['switches'])
                for b in got['bad']:
                    vs.append(Violation('threads', b))
                for evs, gs in zip(st['evs'], got['threads']):
                    for ev, g in zip(evs, gs):
                        if g:
                            judge(k, ev, g, got['fired'])
                if 'schedule' in got:
                    st = {a: b for a, b in st.items() if a != 'picks'}
                    st['schedule'] = got['schedule']
            new.append(st)
        return vs, {'sig': digest([res['steps'], steps]),
                    'nontrivial': n[0] > 1 or n[1] > 0,
                    'resolved': {'steps': new}}
