"""Bounded models of the frame operations (FramesMC.tla): groups of operations, depth, properties."""
import json, os, random, shutil
from common import *

V = ['View', 'ShallowCopy', 'IndexView', 'SliceView', 'MaskView', 'ReverseView', 'ColumnView', 'ShuffleView', 'SampleView']
ROWS = ['IndexView', 'ReverseView']
# name: (markers and operations, (depth, rich) quick, (depth, rich) thorough, properties)
FRAMES = {
    # C01: all views of all views
    'views': (['view'] + V, (3, True), (4, True), ['ViewsSelect', 'Follows']),
    'views-deep': (['view', 'View', 'IndexView', 'SliceView', 'MaskView', 'ReverseView', 'ColumnView'], (4, False), (5, False), ['ViewsSelect', 'Follows']),
    # C02
    'splits': (['split', 'SplitView', 'SplitNView', 'SplitTrainTest', 'IndexView', 'ReverseView'], (3, False), (3, True), ['SplitsPartition']),
    # C03
    'sorts': (['sort', 'SortedView', 'TopView', 'ReverseView', 'IndexView'], (3, False), (3, True), ['SortsOrder']),
    # C04
    'writes': (['SetMany', 'GetAcc', 'AccSet', 'Overwrite', 'View', 'ShallowCopy', 'IndexView', 'ColumnView'], (4, False), (5, False), ['WritesReach', 'StructStays']),
    'writes-rename': (['SetMany', 'Overwrite', 'ShallowCopy', 'SliceView', 'Rename'], (4, False), (5, False), ['WritesReach', 'StructStays']),
    # C05
    'copies': (['Copy', 'DetachedView', 'Unshare', 'View', 'ShallowCopy', 'ColumnView', 'SetMany'], (4, False), (5, False), ['CopiesApart', 'WritesReach']),
    'copies-rename': (['Unshare', 'DetachedView', 'Rename', 'ShallowCopy', 'ColumnView', 'IndexView', 'SetMany'], (4, False), (5, False), ['CopiesApart', 'WritesReach']),
    # C06, C07
    'structure': (['struct', 'Alloc', 'Drop', 'Rename', 'Overwrite', 'View', 'ShallowCopy', 'ColumnView'], (4, False), (5, False), ['StructStays', 'Follows']),
    'structure-rows': (['Alloc', 'Drop', 'Rename', 'Overwrite', 'IndexView', 'MaskView'], (4, False), (5, False), ['StructStays', 'Follows']),
    'settings': (['read', 'SetMaxCPU', 'Convert', 'View', 'ShallowCopy', 'ColumnView', 'Copy'], (3, False), (4, False), ['StructStays', 'Follows', 'CopiesApart']),
    # C08, C09
    'concat': (['concat', 'ColumnConcatView', 'ColumnCopyConcat', 'ColumnSmartConcat', 'ColumnView', 'IndexView', 'ReverseView'], (4, False), (5, False), ['ConcatAligned', 'CopiesApart']),
    'selections': (['consel'], (6, False), (6, True), ['ConcatAligned']),
    'rowcat': (['rowcat', 'RowConcat', 'IndexView', 'Drop', 'ColumnView'], (5, False), (5, True), ['RowsAppended', 'CopiesApart']),
    # C10
    'masks': (['SafeMasking', 'Mask', 'MaskSet', 'MaskCheck', 'IndexView', 'ShallowCopy', 'Copy'], (5, False), (6, False), ['MasksKeep']),
    # C11
    'readers': (['read', 'Dense', 'Iterate', 'CopyValues', 'VecDense', 'LabelToInt', 'SharedIndex', 'IndexView', 'SliceView', 'MaskView'], (3, False), (4, False), ['ReadersKeep']),
    # C15, C16
    'texts': (['HashStringsView', 'Encode', 'IndexView', 'ColumnView', 'ShallowCopy'], (4, False), (5, False), ['HashIsolated']),
}

# group: property
PREPROC = {'onehot': 'OneHotExact', 'scale': 'Imputes Scales', 'auto': 'AutoSame', 'json': 'JsonSame', 'lin': 'PredictsRows', 'train': 'Trains'}

PRINT = {'print': 'Prints', 'names': 'NamesApart'}

MISUSE = {'calls': 'Borders Typed', 'fits': 'Borders'}

# concurrent calls: (markers and operations, (depth, rich) quick, thorough)
PAR = {'par': (['pair', 'View', 'IndexView', 'ColumnView', 'ShallowCopy', 'SplitNView', 'Copy', 'SetMany'], (4, False), (4, True))}

CSV = {'infer1': 'Infers Cells', 'infer2': 'Infers Cells', 'infern': 'Together', 'write': 'RoundTrip', 'wfault': '', 'rfault': ''}

TEXTS = ['', 'a', 'Zoé', '日本', 'b', 'x,y', 'aa', ' ', 'ß', '0'] + ['w%d' % k for k in range(31)]


def cfg_frames(name, tier, emit):
    g, quick, thorough, props = FRAMES[name]
    d, rich = thorough if tier else quick
    return ('SPECIFICATION Spec\nCONSTANTS\n Group = {%s}\n Depth = %d\n Rich = %s\n Emit = %s\nVIEW View\n'
            'INVARIANT Inv MaskSizes LabelsOk\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n'
            % (','.join('"%s"' % x for x in g), d, str(rich).upper(), str(emit).upper(), ' '.join(props)))


def histories(path):
    """Histories printed by TLC, those that continue in another one left out."""
    seen, inner = {}, set()
    with open(path, errors='replace') as f:
        for line in f:
            if not line.startswith('"['):
                continue
            s = json.loads(line)           # a TLA+ string is escaped like a JSON one
            h = json.loads(s)
            keys = [json.dumps(o, sort_keys=True) for o in h]
            seen['\n'.join(keys)] = h
            inner.add('\n'.join(keys[:-1]))
    return [h for k, h in seen.items() if k not in inner]


# the texts of CsvMC.tla, in order
CSVTEXTS = ['true', 'F', '0', '1', '-1', '2', '1.5', 'x', '', 'NA', 'NaN', 'x,y', 'a', 'b', '0.5', '-', 'q"q', ' z', 'false']


def behaviours(name, hs):
    strs = [t.encode('utf8').hex() for t in (CSVTEXTS if name in CSV else TEXTS)]
    return [{'id': '%s-%d' % (name, k), 'strs': strs, 'nums': [], 'ints': [], 'approx': False, 'steps': h}
            for k, h in enumerate(hs)]


def tail(text):
    return '\n'.join(l for l in text.split('\n') if not l.startswith('"['))[-4000:]


def explore(run, module, name, cfg, limit, workers, heap='4g'):
    d = run.sub('model-' + name)
    open(os.path.join(d, name + '.cfg'), 'w').write(cfg)
    code, late, text = tlc(d, module + '.tla', name + '.cfg', {}, limit, workers=workers, heap=heap)
    if late or code != 0:
        raise CheckError('model %s: TLC ended with %d (late: %s)\n%s' % (name, code, late, tail(text)))
    gen, dist = counts(text)
    with run.lock:
        run.model_states += dist
        run.model_transitions += gen
        run.notes.setdefault('models', {})[name] = {'distinct_states': dist, 'transitions': gen}
    hs = histories(os.path.join(d, 'tlc.out'))
    shutil.rmtree(d, ignore_errors=True)
    return hs


def replay(run, name, hs, cap, chunk=375, race=False):
    """Replay histories on the code; tasks for gather."""
    n = len(hs)
    if n > cap:
        hs = random.Random('%s-%d' % (name, run.seed)).sample(hs, cap)
    with run.lock:
        run.notes['models'][name].update(histories=n, replayed=len(hs))
    bs = behaviours(name, hs)
    return [(lambda c=bs[k:k + chunk], k=k: replay_shard(run, c, '%s-%d' % (name, k), race)) for k in range(0, len(bs), chunk)]


def frames(run, name, cap, workers=4):
    cfg = cfg_frames(name, run.thorough, True)
    return replay(run, name, explore(run, 'FramesMC', name, cfg, 1200, workers), cap)


def par(run, name, cap, workers=4):
    g, quick, thorough = PAR[name]
    d, rich = thorough if run.thorough else quick
    cfg = ('SPECIFICATION ParSpec\nCONSTANTS\n Group = {%s}\n Depth = %d\n Rich = %s\n Emit = TRUE\nVIEW View\n'
           'INVARIANT Inv MaskSizes LabelsOk\nPROPERTIES AnyOrder SharedStay\nCHECK_DEADLOCK FALSE\n'
           % (','.join('"%s"' % x for x in g), d, str(rich).upper()))
    return replay(run, name, explore(run, 'ParMC', name, cfg, 3600, workers), cap, race=True)


def preproc(run, name, cap, workers=4):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Group = "%s"\n Rich = %s\n Emit = TRUE\nVIEW vars\nINVARIANT Consistent\n'
           'PROPERTIES %s\nCHECK_DEADLOCK FALSE\n' % (name, str(run.thorough).upper(), PREPROC[name]))
    return replay(run, name, explore(run, 'PreprocMC', name, cfg, 1200, workers), cap)


def printing(run, name, cap, workers=4):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Group = "%s"\n Rich = %s\n Emit = TRUE\nVIEW vars\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n'
           % (name, str(run.thorough).upper(), PRINT[name]))
    return replay(run, name, explore(run, 'PrintMC', name, cfg, 1200, workers), cap)


def misuse(run, name, cap, workers=4):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Group = "%s"\n Rich = %s\n Emit = TRUE\nVIEW vars\nINVARIANT %s\nPROPERTIES Harmless\nCHECK_DEADLOCK FALSE\n'
           % (name, str(run.thorough).upper(), MISUSE[name]))
    return replay(run, name, explore(run, 'MisuseMC', name, cfg, 1200, workers), cap)


def csv(run, name, cap, workers=4):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Group = "%s"\n Rich = %s\n Emit = TRUE\nVIEW vars\nINVARIANT Kept\n%s'
           'CHECK_DEADLOCK FALSE\n' % (name, str(run.thorough).upper(), 'PROPERTIES %s\n' % CSV[name] if CSV[name] else ''))
    return replay(run, name, explore(run, 'CsvMC', name, cfg, 1200, workers), cap)


# Queue.tla: (workers, jobs, deferred): checked completely, liveness included ...
POOLS = {False: [(w, j, d) for w in (1, 2, 3) for j in range(4) for d in (False, True)],
         True: [(w, j, d) for w in (1, 2, 3) for j in range(5) for d in (False, True)] + [(4, 4, False)]}
# ... and (workers, jobs): schedules, all of them or simulated ones (number)
SCHEDULES = {False: [(2, 2, 0), (2, 3, 0), (3, 3, 250)],
             True: [(2, 2, 0), (2, 3, 0), (3, 2, 0), (3, 3, 4000), (3, 4, 4000), (4, 6, 3000)]}


def cfg_queue(w, j, deferred, track, props):
    return ('SPECIFICATION Spec\nCONSTANTS\n W = %d\n J = %d\n Deferred = %s\n Track = %s\n Emit = %s\n'
            'INVARIANT Complete NotClosed Once\n%sCHECK_DEADLOCK FALSE\n'
            % (w, j, str(deferred).upper(), str(track).upper(), str(track).upper(), props))


def schedules(run, w, j, deferred, num):
    """The schedules of w workers and j jobs."""
    name = 'q%d%d%s' % (w, j, 'd' if deferred else 'e')
    d = run.sub(name)
    open(os.path.join(d, name + '.cfg'), 'w').write(cfg_queue(w, j, deferred, True, ''))
    args = ['-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(run.seed)] if num else []
    code, late, text = tlc(d, 'Queue.tla', name + '.cfg', {}, 600, args, workers=4 if not num else 1)
    if late or code != 0:
        raise CheckError('schedules %s: TLC ended with %d\n%s' % (name, code, tail(text)))
    res = {l for l in open(os.path.join(d, 'tlc.out'), errors='replace') if l.startswith('"[')}
    shutil.rmtree(d, ignore_errors=True)
    return [json.loads(json.loads(l)) for l in sorted(res)]


def scheduled(w, j, eager, deferred, k):
    """A behaviour: the parallel operations, under the given schedules."""
    rnd = random.Random(k)
    names = ['a', 'b', 'c', 'd', 'e', 'f'][:j]
    S = lambda x: 700000000 + x
    flo = [[0, 0, 1024, 1024], [256, -256, 256, -256], [512, 1536, 1536, 512], [0, 1024, -2000000000, -2000000000]]
    cols = [{'n': 's' + c, 't': 'o', 's': True, 'v': [S(rnd.randrange(10)) for _ in range(3)] + [699999999]} for c in names]
    cols += [{'n': 'i' + c, 't': 'i', 's': False, 'v': [256 * rnd.randrange(-1, 3) for _ in range(3)] + [256]} for c in names]
    cols += [{'n': 'f' + c, 't': 'f', 's': False, 'v': flo[rnd.randrange(4)]} for c in names]
    text = {c: [rnd.choice(TEXTCELLS[rnd.randrange(3)]) for _ in range(3)] for c in names}
    body = lambda cs, n: '\n'.join([','.join(cs)] + [','.join(text[c][r] for c in cs) for r in range(n)]) + '\n'
    read = {'comma': '', 'comment': '', 'lazy': False, 'trim': False, 'extradir': False, 'chunk': 0, 'missingS': ['NA'],
            'opt': {'header': [], 'exclude': [], 'cpu': w, 'boolf': False, 'binf': False, 'intf': False, 'enc': 'utf8'}}
    files = [body(names if k % 2 else names[::-1], 1 + f % 3) for f in range(j)]
    shift = lambda s: [x + w if x else 0 for x in s]
    outs = list(range(1, j + 1))
    rnd.shuffle(outs)
    e2 = eager[:-1] if eager[-1] == 0 else [x for x in eager if x]
    steps = [
        {'op': 'New', 'f': 1, 'n': 4, 'cols': cols, 'cpu': w, 'enc': 'utf8', 'via': 'set'},
        {'op': 'HashStringsView', 'f': 2, 'src': 1, 'cols': ['s' + c for c in names], 'sched': deferred},
        {'op': 'OneHotFit', 'c': 1, 'f': 1, 'mp': k % 3, 'up': k // 3 % 3, 'keep': k % 2 == 0, 'sched': deferred},
        {'op': 'OneHotTransform', 'c': 1, 'src': 1, 'f': 3, 'sched': eager},
        {'op': 'ImputerFit', 'c': 2, 'f': 1, 'pol': k % 3, 'sched': deferred},
        {'op': 'ScalerFit', 'c': 3, 'f': 1, 'opt': {'mm': False, 'ce': True, 'sc': True}, 'sched': deferred},
        {'op': 'ScalerTransform', 'c': 3, 'f': 1, 'inv': False, 'sched': deferred},
        {'op': 'ScalerTransform', 'c': 3, 'f': 1, 'inv': True, 'sched': deferred},
        {'op': 'CsvWrite', 'f': 1, 'api': 'ToCSVs', 'comma': '', 'order': k % 2 == 0, 'crlf': False, 'markerS': '-', 'nout': j,
         'minrows': 1, 'kind': '', 'sched': outs},
        dict(read, op='CsvRead', f=4, api='reader', raws=[body(names, 3).encode().hex()], sched=eager),
        dict(read, op='CsvReadMany', f=5, api='pattern', raws=[x.encode().hex() for x in files],
             sched=e2 + shift(eager) if j > 1 else eager),
        {'op': 'View', 'f': 6, 'src': 1},
    ]
    return {'id': 'sched%d%d-%d' % (w, j, k), 'strs': [t.encode('utf8').hex() for t in TEXTS], 'nums': [], 'ints': [],
            'approx': False, 'steps': json.loads(json.dumps(steps))}


TEXTCELLS = [['0', '1', 'true', 'F'], ['1', '-1', '25', 'NA'], ['0.5', 'x', '', 'NA']]


def queue(run, limit):
    """The pool of workers: all its behaviours, and its schedules on the code."""
    models = run.notes.setdefault('models', {})

    def check(w, j, deferred):
        name = 'pool%d%d%s' % (w, j, 'd' if deferred else 'e')
        d = run.sub(name)
        open(os.path.join(d, name + '.cfg'), 'w').write(cfg_queue(w, j, deferred, False, 'PROPERTIES Terminates\n'))
        code, late, text = tlc(d, 'Queue.tla', name + '.cfg', {}, 900)
        if late or code != 0:
            raise CheckError('%s: TLC ended with %d\n%s' % (name, code, tail(text)))
        gen, dist = counts(text)
        with run.lock:
            run.model_states += dist
            run.model_transitions += gen
            models[name] = {'distinct_states': dist, 'transitions': gen}
        shutil.rmtree(d, ignore_errors=True)

    def play(w, j, num):
        es, ds = schedules(run, w, j, False, num), schedules(run, w, j, True, num)
        rnd = random.Random(run.seed)
        n = min(limit, max(len(es), len(ds)))
        pick = lambda xs: (rnd.sample(xs, n) if len(xs) > n else (xs * (n // len(xs) + 1))[:n])
        rnd.shuffle(ds)
        bs = [scheduled(w, j, e, d, k) for k, (e, d) in enumerate(zip(pick(es), pick(ds)))]
        for k in range(0, len(bs), 300):
            ts = replay_shard(run, bs[k:k + 300], 'sched%d%d' % (w, j))
            with run.lock:
                g = run.notes.setdefault('schedule_points', {'followed': 0, 'skipped': 0})
                for t in ts:
                    for s in t['steps']:
                        if 'gate' in s:
                            g['followed'] += s['gate'][0]
                            g['skipped'] += s['gate'][1]
        with run.lock:
            models['schedules%d%d' % (w, j)] = {'eager': len(es), 'deferred': len(ds), 'replayed': len(bs)}

    return ([lambda a=a: play(*a) for a in SCHEDULES[run.thorough]] +
            [lambda a=a: check(*a) for a in POOLS[run.thorough]])


def model(run, name, cap):
    if name == 'queue':
        return queue(run, 400 if not run.thorough else 6000)
    return (preproc if name in PREPROC else printing if name in PRINT else misuse if name in MISUSE else par if name in PAR else csv if name in CSV else frames)(run, name, cap)
