"""What each property's check runs."""
import os
import vlib
from vlib import SEED

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


def known_findings(prop):
    """Lines of known-findings.txt of the form `finding: property=<id> <what fails>`."""
    p = os.path.join(vlib.VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % prop):
                res.append(ln.split(' ', 2)[2])
    return res


def seeds(c, quick=1, thorough=6):
    return [SEED + 1000 * i for i in range(quick if c.quick else thorough)]


def amount(c, quick, thorough):
    return quick if c.quick else thorough


KINDS = ['rk', 'emb', 'gragg', 'extrap', 'w1', 'sw24', 'alpha']


def ode_jobs(c, kinds, profiles, n=100, nt=400):
    env = {'PROP': c.prop}
    jobs = []
    for sd in seeds(c):
        for k in kinds:
            for p in profiles:
                jobs.append(lambda k=k, p=p, sd=sd: c.trace('ode-%s-%s-%d' % (k, p, sd), 'ode', [k, p, sd, amount(c, n, nt)],
                                                            'TraceOdeSolver', env=env))
    return jobs


def gen_ode(c, n=400, nt=4000):
    def job():
        for i, sd in enumerate(seeds(c, 1, 3)):
            f = c.gen('GenOdeSolver', 'GenOdeSolver.cfg', amount(c, n, nt), 200, seed=sd, name='ode%d' % i)
            c.trace('ode-gen-%d' % i, 'ode', ['gen', f], 'TraceOdeSolver', env={'PROP': c.prop})
    return job


def model(c, spec, quick, thorough=None, **kw):
    kw.setdefault('workers', 4)
    kw.setdefault('timeout', 800)
    return lambda: c.model(spec, quick if c.quick else (thorough or quick), **kw)


ODE_MODEL = dict(spec='MCOdeSolver', quick='MCOdeSolverQ.cfg', thorough='MCOdeSolver.cfg')
EXACT = ['exact rational arithmetic trimmed to 170 bits stands for real arithmetic; double rounding is covered by tolerances']


def ode_check(kinds, profiles, n=100, nt=400, model_=None, gen=True, extra=None):
    def f(c):
        vlib.build_driver('ode')
        jobs = ode_jobs(c, kinds, profiles, n, nt)
        if gen:
            jobs.append(gen_ode(c))
        m = model_ or ODE_MODEL
        jobs.insert(0, model(c, m['spec'], m['quick'], m.get('thorough')))
        if extra:
            jobs += extra(c)
        c.parallel(jobs)
    return f


TAB = dict(spec='MCTableaus', quick='MCTableaus.cfg', thorough='MCTableaus9.cfg')
CHECKS['P01'] = ode_check(['rk', 'emb'], ['plain', 'ctl', 'events'], n=150, model_=TAB)


def ssc_jobs(c):
    vlib.build_driver('ssc')
    jobs = [model(c, 'MCStepSizeControl', 'MCStepSizeControlQ.cfg', 'MCStepSizeControl.cfg')]
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('ssc-%d' % sd, 'ssc', [sd, amount(c, 400, 2000)], 'TraceStepSizeControl', env={'PROP': c.prop}))
    return jobs


CHECKS['P02'] = ode_check(['emb', 'extrap', 'sw24'], ['plain', 'raw', 'events'], extra=ssc_jobs, gen=False)
CHECKS['P03'] = ode_check(['emb', 'extrap', 'sw24'], ['plain', 'ctl', 'events', 'raw'])
CHECKS['P04'] = ode_check(['emb', 'extrap', 'sw24'], ['plain', 'ctl', 'events'])
CHECKS['P05'] = ode_check(KINDS, ['plain', 'ctl', 'events', 'raw'], n=60)


def restart(c):
    vlib.build_driver('restart')
    jobs = [model(c, **ODE_MODEL)]
    for sd in seeds(c, 2, 8):
        for k in KINDS:
            jobs.append(lambda k=k, sd=sd: c.trace('restart-%s-%d' % (k, sd), 'restart', [k, sd, amount(c, 80, 400)], 'TraceRestart',
                                                   env={'PROP': c.prop}))
    jobs += ode_jobs(c, KINDS, ['events'], 40, 200)
    c.parallel(jobs)


CHECKS['P06'] = restart


def ec_jobs(c):
    vlib.build_driver('ec')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCEventControl', 'MCEventControlQ.cfg', 'MCEventControl.cfg'),
            model(c, 'MCEventControl', 'MCEventControl1.cfg')]
    for f in (1, 2, 3, 5, 6, 7):
        jobs.append(lambda f=f: c.trace('ec-enum-%d' % f, 'ec', ['enum', f, amount(c, 3, 5), 3], 'TraceOdeSolver', env=env))
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('ec-random-%d' % sd, 'ec', ['random', sd, amount(c, 200, 800)], 'TraceOdeSolver', env=env))

    def gen():
        f = c.gen('GenEventControl', 'GenEventControl.cfg', amount(c, 100, 1000), 40, name='ec', timeout=600)
        c.trace('ec-gen', 'ec', ['gen', f], 'TraceOdeSolver', env=env)
    jobs.append(gen)
    return jobs


CHECKS['P07'] = ode_check(KINDS, ['events', 'raw'], n=50, extra=ec_jobs)
CHECKS['P08'] = ode_check(KINDS, ['events', 'raw'], n=50, extra=ec_jobs)
CHECKS['P09'] = ode_check(['gragg'], ['plain', 'events', 'raw'], n=200)


def seq_jobs(c):
    vlib.build_driver('seq')
    return [lambda: c.trace('seq', 'seq', [SEED, amount(c, 10, 100)], 'TraceStepSequence', env={'PROP': c.prop})]


CHECKS['P10'] = ode_check(['extrap'], ['plain', 'events', 'ctl'], n=150, extra=seq_jobs)
CHECKS['P11'] = ode_check(['w1', 'sw24'], ['plain', 'ctl', 'events'], n=120,
                          extra=lambda c: ode_jobs(c, ['w1', 'sw24'], ['many'], 4, 30))
CHECKS['P12'] = ode_check(['alpha'], ['plain', 'events', 'raw', 'fail'], n=150)


# ---------------------------------------------------------------- histories of requests generated by TLC and at random

def history_check(driver, model_, gen_, trace, n, nt, num, numt, depth=60, extra=None, seeds_=(2, 8)):
    """An exhaustive model, behaviours of it replayed into the code, and random histories, all validated by `trace`."""
    def f(c):
        vlib.build_driver(driver)
        env = {'PROP': c.prop}
        jobs = []
        if model_:
            jobs.append(model(c, model_, model_ + 'Q.cfg', model_ + '.cfg'))
        if gen_:
            def gen():
                for i, sd in enumerate(seeds(c, 1, 3)):
                    p = c.gen(gen_, gen_ + '.cfg', amount(c, num, numt), depth, seed=sd, name='%s%d' % (driver, i), timeout=600)
                    c.trace('%s-gen-%d' % (driver, i), driver, ['gen', p], trace, env=env)
            jobs.append(gen)
        for sd in seeds(c, *seeds_):
            jobs.append(lambda sd=sd: c.trace('%s-%d' % (driver, sd), driver, [sd, amount(c, n, nt)], trace, env=env))
        if extra:
            jobs += extra(c)
        c.parallel(jobs)
    return f


CHECKS['P21'] = history_check('obs', 'MCObservers', 'GenObservers', 'TraceObservers', 200, 2000, 150, 1500)
CHECKS['P18'] = history_check('vec', 'MCVectors', 'GenVectors', 'TraceVectors', 200, 1500, 60, 500)
CHECKS['P17'] = history_check('sparse', 'MCSparse', 'GenSparse', 'TraceSparse', 80, 600, 30, 100)
CHECKS['P16'] = history_check('lu', 'MCLU', 'GenLU', 'TraceLU', 150, 1500, 60, 400)


def search_check(c):
    vlib.build_driver('search')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCSearch', 'MCSearchQ.cfg', 'MCSearch.cfg')]

    def gen():      # every search of the model, replayed
        p = c.gen('MCSearch', 'MCSearchGen.cfg' if c.quick else 'MCSearchGen3.cfg', 0, 0, name='search')
        c.trace('search-gen', 'search', ['gen', p], 'TraceSearch', env=env)
    jobs.append(gen)
    for sd in seeds(c, 3, 12):
        jobs.append(lambda sd=sd: c.trace('search-%d' % sd, 'search', [sd, amount(c, 500, 2500)], 'TraceSearch', env=env))
    c.parallel(jobs)


CHECKS['P15'] = search_check


def newton(c):
    vlib.build_driver('newton')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCNewton', 'MCNewtonQ.cfg', 'MCNewton.cfg')]

    def gen(cfg):   # every run of the model, replayed
        def go():
            p = c.gen('MCNewton', cfg + '.cfg', 0, 0, name=cfg)
            c.trace(cfg, 'newton', ['gen', p], 'TraceNewton', env=env)
        return go
    jobs += [gen('MCNewtonGen' if c.quick else 'MCNewtonGen3'), gen('MCNewtonGenR')]
    for sd in seeds(c, 2, 8):
        for m in ('stub', 'real'):
            jobs.append(lambda sd=sd, m=m: c.trace('newton-%s-%d' % (m, sd), 'newton', [m, sd, amount(c, 250, 1500)], 'TraceNewton', env=env))
    c.parallel(jobs)


CHECKS['P13'] = newton


def descent(c):
    vlib.build_driver('descent')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCDescent', 'MCDescentQ.cfg', 'MCDescent.cfg')]

    def gen():      # every order of directions, resets and reports
        p = c.gen('GenDescent', 'GenDescent.cfg' if c.quick else 'GenDescent8.cfg', 0, 0, name='descent')
        c.trace('descent-gen', 'descent', ['gen', p], 'TraceDescent', env=env)
    jobs.append(gen)
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('descent-%d' % sd, 'descent', [sd, amount(c, 350, 2000)], 'TraceDescent', env=env))
    c.parallel(jobs)


CHECKS['P14'] = descent


def jacobian(c):
    vlib.build_driver('jac')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCJacobian', 'MCJacobianQ.cfg', 'MCJacobian.cfg')]

    def gen():      # every short history of a provider
        p = c.gen('GenJacobian', 'GenJacobian.cfg' if c.quick else 'GenJacobian5.cfg', 0, 0, name='jac')
        c.trace('jac-gen', 'jac', ['gen', p], 'TraceJacobian', env=env)
    jobs.append(gen)
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('jac-%d' % sd, 'jac', [sd, amount(c, 500, 3000)], 'TraceJacobian', env=env))
    c.parallel(jobs)


CHECKS['P19'] = jacobian


def mappings(c):
    vlib.build_driver('map')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCMappings', 'MCMappingsQ.cfg', 'MCMappings.cfg')]
    if not c.quick:
        jobs.append(model(c, 'MCMappings', 'MCMappings3.cfg', 'MCMappings3.cfg'))

    def gen():      # every stack of the model
        p = c.gen('MCMappings', 'MCMappingsGen.cfg' if c.quick else 'MCMappingsGenT.cfg', 0, 0, name='map')
        c.trace('map-gen', 'map', ['gen', p], 'TraceMappings', env=env)
    jobs.append(gen)
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('map-%d' % sd, 'map', [sd, amount(c, 800, 5000)], 'TraceMappings', env=env))
    c.parallel(jobs)


CHECKS['P20'] = mappings


def factories(c):
    for d in ('fac', 'comp'):
        vlib.build_driver(d)
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCFactories', 'MCFactoriesQ.cfg', 'MCFactories.cfg')]

    def gen():      # every history of the model
        p = c.gen('MCFactories', 'MCFactoriesGen.cfg', 0, 0, name='fac')
        c.trace('fac-gen', 'fac', ['gen', p], 'TraceFactories', env=env)
    jobs.append(gen)
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('fac-%d' % sd, 'fac', [sd, amount(c, 400, 2000)], 'TraceFactories', env=env))
    jobs.append(lambda: c.trace('components', 'comp', [], 'TraceFactories', env=env))
    c.parallel(jobs)


CHECKS['P24'] = factories


def config(c):
    vlib.build_driver('config')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCConfig', 'MCConfigQ.cfg', 'MCConfig.cfg')]

    def gen():      # every history of two assignments of the model
        p = c.gen('MCConfig', 'MCConfigGen.cfg', 0, 0, name='config')
        c.trace('config-gen', 'config', ['gen', p], 'TraceConfig', env=env)

    def sim():      # long histories
        p = c.gen('MCConfig', 'MCConfigSim.cfg', amount(c, 12, 50), 9, name='configsim')
        c.trace('config-sim', 'config', ['gen', p], 'TraceConfig', env=env)
    jobs += [gen, sim]
    for sd in seeds(c, 2, 10):
        jobs.append(lambda sd=sd: c.trace('config-%d' % sd, 'config', [sd, amount(c, 250, 1500)], 'TraceConfig', env=env))
    c.parallel(jobs)


CHECKS['P22'] = config


def pars(c):
    vlib.build_driver('pars')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCConfig', 'MCConfigQ.cfg', 'MCConfigQ.cfg')]
    for sd in seeds(c, 3, 12):
        jobs.append(lambda sd=sd: c.trace('pars-%d' % sd, 'pars', [sd, amount(c, 500, 3000)], 'TracePars', env=env))
    c.parallel(jobs)


CHECKS['P23'] = pars


def runs(c):
    vlib.build_driver('run')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCRun', 'MCRunQ.cfg', 'MCRun.cfg'), model(c, 'MCRun', 'MCRun2.cfg', 'MCRun2.cfg')]

    def gen():      # every short run of the model, by a scripted solver
        p = c.gen('MCRun', 'MCRunGen.cfg', 0, 0, name='run')
        c.parallel([lambda k=k: c.trace('run-gen-%d' % k, 'run', ['gen', p, k, 4], 'TraceRun', env=env) for k in range(4)])
    jobs.append(gen)
    for sd in seeds(c, 4, 24):
        jobs.append(lambda sd=sd: c.trace('run-%d' % sd, 'run', [sd, amount(c, 100, 400)], 'TraceRun', env=env))
    c.parallel(jobs)


CHECKS['P25'] = runs
CHECKS['P26'] = runs


def richardson(c):
    vlib.build_driver('rich')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCRichardson', 'MCRichardsonQ.cfg', 'MCRichardson.cfg')]

    def gen():
        p = c.gen('MCRichardson', 'MCRichardsonGen.cfg', 0, 0, name='rich')
        c.trace('rich-gen', 'rich', ['gen', p], 'TraceRichardson', env=env)
    jobs.append(gen)
    for sd in seeds(c, 4, 24):
        jobs.append(lambda sd=sd: c.trace('rich-%d' % sd, 'rich', [sd, amount(c, 300, 1500)], 'TraceRichardson', env=env))
    c.parallel(jobs)


CHECKS['P27'] = richardson


def models(c):
    vlib.build_driver('models')
    env = {'PROP': c.prop}
    jobs = [model(c, 'MCModels', 'MCModelsQ.cfg', 'MCModels.cfg')]

    def gen():      # every short history of the ball
        p = c.gen('MCModels', 'MCModelsGen.cfg', 0, 0, name='models')
        c.trace('models-gen', 'models', ['gen', p], 'TraceModels', env=env)
    jobs.append(gen)
    for sd in seeds(c, 4, 24):
        jobs.append(lambda sd=sd: c.trace('models-%d' % sd, 'models', [sd, amount(c, 150, 600)], 'TraceModels', env=env))
    c.parallel(jobs)


CHECKS['P28'] = models
