"""What each check runs."""
import json, os
import vt

PLANS = {}
TECH = {}       # property -> technique, when it is not the usual one
NOTES = {}
def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


def gather(ctx, script, mode, count, par=8, timeout=500, seed=None, label=None):
    """Runs a trace driver split over processes; returns all traces.  A crash
    or hang of the interpreter under test is a violation."""
    seed = ctx.seed if seed is None else seed
    jobs, outs = [], []
    per = (count + par - 1) // par
    for k in range(par):
        first, n = k * per, min(per, count - k * per)
        if n <= 0:
            break
        out = os.path.join(ctx.scratch, '%s-%s-%d.json' % (script, mode, k))
        jobs.append((script, [mode, seed, first, n, out]))
        outs.append(out)
    traces = []
    for (rc, err), out, job in zip(ctx.drive_many(jobs, timeout=timeout, par=par), outs, jobs):
        if rc == 0 and os.path.exists(out):
            traces += json.load(open(out))
            os.unlink(out)
        else:
            cur = open(out + '.cur').read() if os.path.exists(out + '.cur') else '?'
            if 'HARNESS-ERROR' in err or not os.path.exists(out + '.cur'):
                if 'Error' in err and rc == 1 and 'guppy' in err:
                    ctx.violation('%s %s: the library cannot be used: %s' % (script, mode, err[-1500:]), dict(job=job))
                    continue
                raise vt.MachineryError('driver %s failed rc=%s\n%s' % (script, rc, err))
            if rc == 1 and 'Traceback' in err:
                ctx.violation('%s %s: unexpected exception in trace %s: %s' % (script, mode, cur, err[-1500:]),
                              dict(job=job, trace=cur, stderr=err))
            else:
                ctx.violation('%s %s: %s in trace %s: %s' % (script, mode, vt.crash_text(rc, err), cur, err[-1500:]),
                              dict(job=job, trace=cur, stderr=err))
    return traces


def judge(ctx, module, traces, name, what=None, **kw):
    if not traces:
        if ctx.violations:
            return
        raise vt.MachineryError('no traces')
    for tr, l, clause, text in ctx.check_traces(module, traces, name=name, **kw):
        ctx.violation(what(tr, l, clause) if what else
                      '%s: call %d (%s) of trace %s is not allowed by the specification: %s'
                      % (name, l, clause, tr.get('i'), text),
                      dict(module=module, position=l, clause=clause, trace=tr))


@plan('B01')
def b01(ctx):
    ctx.build()
    ctx.model_check('MCBitSets')
    n = 4000 if ctx.thorough else 400
    judge(ctx, 'BitSetsTrace', gather(ctx, 'bitsets.py', 'imm', n), 'immutable bit sets')


@plan('B02')
def b02(ctx):
    ctx.build()
    ctx.model_check('MCBitSets')
    n = 4000 if ctx.thorough else 400
    judge(ctx, 'BitSetsTrace', gather(ctx, 'bitsets.py', 'mut', n), 'mutable bit sets')
    n = 60 if ctx.thorough else 6
    judge(ctx, 'BitSetsTrace', gather(ctx, 'bitsets.py', 'big', n), 'large mutable bit sets')


@plan('B03')
def b03(ctx):
    ctx.build()
    ctx.model_check('MCNodeSets')
    n = 4000 if ctx.thorough else 400
    judge(ctx, 'NodeSetsTrace', gather(ctx, 'nodesets.py', 'small', n), 'node sets')
    n = 80 if ctx.thorough else 8
    judge(ctx, 'NodeSetsTrace', gather(ctx, 'nodesets.py', 'big', n), 'large node sets')


@plan('B04')
def b04(ctx):
    ctx.build()
    ctx.model_check('MCNodeGraphs')
    n = 4000 if ctx.thorough else 400
    judge(ctx, 'NodeGraphsTrace', gather(ctx, 'nodegraphs.py', 'all', n), 'node graphs')


@plan('H01')
def h01(ctx):
    ctx.build()
    ctx.model_check('MCHeap', 'MCHeapDeep.cfg' if ctx.thorough else None, workers=8)
    n = 12000 if ctx.thorough else 1200
    judge(ctx, 'HeapTrace', gather(ctx, 'world.py', 'reach', n), 'reachability')


@plan('H02')
def h02(ctx):
    ctx.build()
    ctx.model_check('MCHeap', 'MCHeapDeep.cfg' if ctx.thorough else None, workers=8)
    n = 8000 if ctx.thorough else 800
    judge(ctx, 'HeapTrace', gather(ctx, 'world.py', 'refer', n), 'referrers and referents')


@plan('H03')
def h03(ctx):
    ctx.build()
    ctx.model_check('MCHeap', 'MCHeapDeep.cfg' if ctx.thorough else None, workers=8)
    n = 8000 if ctx.thorough else 800
    judge(ctx, 'HeapTrace', gather(ctx, 'world.py', 'domin', n), 'dominators')


@plan('H04')
def h04(ctx):
    ctx.build()
    ctx.model_check('MCPaths', workers=8)
    n = 8000 if ctx.thorough else 800
    judge(ctx, 'PathsTrace', gather(ctx, 'world.py', 'paths', n), 'shortest paths')


@plan('H05')
def h05(ctx):
    ctx.build()
    ctx.model_check('MCNames', workers=8)
    n = 6000 if ctx.thorough else 600
    judge(ctx, 'NamesTrace', gather(ctx, 'names.py', 'names', n), 'names of references')
    n = 300 if ctx.thorough else 40
    judge(ctx, 'NamesTrace', gather(ctx, 'names.py', 'roots', n), 'names of what the interpreter refers to')


@plan('H06')
def h06(ctx):
    ctx.build()
    ctx.model_check('MCHorizon', workers=8)
    n = 8000 if ctx.thorough else 800
    judge(ctx, 'HorizonTrace', gather(ctx, 'horizon.py', 'low', n), 'horizons')
    n = 300 if ctx.thorough else 40
    judge(ctx, 'HorizonTrace', gather(ctx, 'horizon.py', 'whole', n), 'whole-heap reference points')


@plan('H07')
def h07(ctx):
    ctx.build()
    ctx.model_check('MCHiding', workers=8)
    n = 6000 if ctx.thorough else 600
    judge(ctx, 'HidingTrace', gather(ctx, 'hidden.py', 'typed', n), 'hidden types and tags')
    n = 400 if ctx.thorough else 48
    judge(ctx, 'HidingTrace', gather(ctx, 'hidden.py', 'whole', n), 'heap listings')


@plan('C01')
def c01(ctx):
    ctx.build()
    ctx.model_check('MCClasses', workers=8)
    n = 4000 if ctx.thorough else 400
    judge(ctx, 'ClassesTrace', gather(ctx, 'classes.py', 'part', n), 'partitions')


@plan('C02')
def c02(ctx):
    ctx.build()
    ctx.model_check('MCClasses', workers=8)
    n = 6000 if ctx.thorough else 600
    judge(ctx, 'ClassesTrace', gather(ctx, 'classes.py', 'select', n), 'selection by kinds')


@plan('C03')
def c03(ctx):
    ctx.build()
    ctx.model_check('MCAlgebra', 'MCAlgebraDeep.cfg' if ctx.thorough else None, workers=8)
    n = 5000 if ctx.thorough else 500
    judge(ctx, 'ClassesTrace', gather(ctx, 'classes.py', 'algebra', n), 'algebra of kinds and sets')
    n = 1500 if ctx.thorough else 150
    judge(ctx, 'ClassesTrace', gather(ctx, 'classes.py', 'select', n), 'kinds of all forms')


def tables(ctx, mode, n, name):
    judge(ctx, 'TablesTrace', gather(ctx, 'tables.py', mode, n), name)


@plan('P01')
def p01(ctx):
    ctx.build()
    ctx.model_check('MCTables', workers=8)
    tables(ctx, 'parts', 6000 if ctx.thorough else 600, 'tables of partitions')


@plan('P02')
def p02(ctx):
    ctx.build()
    ctx.model_check('MCTables', workers=8)
    tables(ctx, 'files', 4000 if ctx.thorough else 400, 'statistics in files')
    judge(ctx, 'TablesTrace', gather(ctx, 'tables.py', 'breaks', 1), 'labels with line breaks',
          what=lambda tr, l, clause: 'the label of a class whose name holds a line break, at call %d (%s): %s'
          % (l, clause, json.dumps(tr['ev'][l - 1] if isinstance(l, int) else tr['ev'], sort_keys=True)))


@plan('P03')
def p03(ctx):
    ctx.build()
    ctx.model_check('MCTables', workers=8)
    tables(ctx, 'stats', 5000 if ctx.thorough else 500, 'statistics')


@plan('P04')
def p04(ctx):
    ctx.build()
    ctx.model_check('MCTables', workers=8)
    tables(ctx, 'pages', 6000 if ctx.thorough else 600, 'pages of listings')


@plan('P06')
def p06(ctx):
    ctx.build()
    ctx.model_check('MCProfile', workers=8)
    n = 6000 if ctx.thorough else 600
    judge(ctx, 'ProfileTrace', gather(ctx, 'profiles.py', 'reads', n), 'readers of sample files')


@plan('P05')
def p05(ctx):
    ctx.build()
    ctx.model_check('MCRefPat', workers=8)
    n = 6000 if ctx.thorough else 600
    judge(ctx, 'RefPatTrace', gather(ctx, 'refpats.py', 'patterns', n), 'reference patterns')


@plan('G02')
def g02(ctx):
    ctx.build()
    ctx.model_check('MCDotted', 'MCDottedDeep.cfg' if ctx.thorough else None, workers=8)
    n = 20000 if ctx.thorough else 2000
    judge(ctx, 'DottedTrace', gather(ctx, 'dotted.py', 'trees', n), 'dotted trees')


@plan('G03')
def g03(ctx):
    ctx.build()
    ctx.model_check('MCWords', 'MCWordsDeep.cfg' if ctx.thorough else None, workers=8)
    n = 8000 if ctx.thorough else 900
    judge(ctx, 'WordsTrace', gather(ctx, 'words.py', 'rules', n), 'words under equations')
    judge(ctx, 'WordsTrace', gather(ctx, 'words.py', 'perms', n), 'combinations')


@plan('G01')
def g01(ctx):
    ctx.build()
    ctx.model_check('MCGlue', 'MCGlueDeep.cfg' if ctx.thorough else None, workers=8)
    n = 15000 if ctx.thorough else 2000
    judge(ctx, 'GlueTrace', gather(ctx, 'glue.py', 'packages', n), 'lazily linked modules')

@plan('R01')
def r01(ctx):
    ctx.build()
    ctx.model_check('MCLives', 'MCLivesDeep.cfg' if ctx.thorough else None, workers=8)
    n = 8000 if ctx.thorough else 800
    judge(ctx, 'LivesTrace', gather(ctx, 'lives.py', 'lives', n), 'references and lifetimes')
