"""C38: independent objects do not interfere, also in concurrent threads"""
import os
import sys
import threading
import time
import vlib
import points
points.install()  # before the repository is imported
import scenarios
import c01_block_splitter as c01
import c02_weighted_sequence as c02
import c03_split_in_blocks as c03
import c04_deep_eq as c04
import c05_helpers as c05
import c06_map_reduce as c06
import c07_task_failures as c07
import c08_progress as c08
import c09_pickled as c09
import c10_performance as c10
import c11_parse_config as c11
import c12_linked_inputs as c12
import c13_numeric_validators as c13
import c14_string_validators as c14
import c15_records as c15
import c16_table as c16
import c17_tableset as c17
import c18_archives as c18
import c19_risk_functions as c19
import c20_exposure as c20
import c21_gmf as c21
import c22_find_invalid as c22
import c23_csv_reading as c23
import c24_convert_script as c24
import c25_tree_paths as c25
import c26_sampling as c26
import c27_uncertainties as c27
import c28_tree_errors as c28
import c29_gmpe_tree as c29
import c30_gsim_tree as c30
import c31_source_conversion as c31
import c32_area_sources as c32
import c33_fault_sources as c33
import c34_source_models as c34
import c35_blocks_of_sources as c35
import c36_vulnerability_loader as c36
import c37_fragility_loader as c37
from openquake.commonlib import parallel, readini

RULE = ('from two to six threads, started together, run each some random '
        'cases of the other properties (one kind of case for all the threads '
        'or different ones, possibly the same case more than once), with '
        'delays injected before random statements of the repository, or '
        'with a single thread going on at a time, changed at random before '
        'those statements; sequences of cases of all the properties, also repeated, in '
        'the same process; workloads divided in steps with equal or nearly '
        'equal inputs, the steps of several of them being interleaved in a '
        'thread; what happens in each case is judged by its own oracle, and '
        'a case failing with the others but not alone (in the same process '
        'or in a new one) is a violation; the signature is the set of the '
        'cases')
REQUIRE = ['cases run concurrently', 'injected delays', 'overlapping cases',
           'groups of the same kind', 'mixed groups', 'repeated cases',
           'groups in lockstep', 'switches of thread', 'cases in histories',
           'interleaved steps', 'cases alone', 'statements passed',
           'different switches'] + [
               'scenario ' + name for name in sorted(scenarios.ALL)]
ASSUMPTIONS = ['the stand-ins and the JDK classes under them can be used by '
               'several threads']
# the cases changing global things (current directory, streams, log handlers,
# stand-ins) are not here
os.environ['OQ_NO_DISTRIBUTE'] = '1'  # the tasks are run by their thread


def config(rnd, obs):
    "Job files with different parameters, in different directories"
    expected = dict(('p%d' % i, 'v%d' % rnd.randint(0, 99))
                    for i in range(rnd.choice([1, 3, 10])))
    inputs = dict(('model%d' % i, 'm%d.xml' % rnd.randint(0, 99))
                  for i in range(rnd.choice([0, 1, 3])))
    lines = ['%s = %s' % i for i in expected.items()]
    lines += ['%s_file = %s' % i for i in inputs.items()]
    rnd.shuffle(lines)
    for name, value in inputs.items():
        inputs[name] = os.path.join(obs.scratch, value)
    points = ['%d,%d' % (rnd.randint(0, 99), i) for i in range(3)]
    if rnd.random() < .5:
        expected['sites'] = 'MULTIPOINT(%s)' % ', '.join(
            p.replace(',', ' ') for p in points)
        lines.append('sites_csv = sites.csv')
        with open(os.path.join(obs.scratch, 'sites.csv'), 'w') as f:
            f.write('\n'.join(points))
    expected.update(base_path=obs.scratch, inputs=inputs)
    name = os.path.join(obs.scratch, 'job.ini')
    with open(name, 'w') as f:
        f.write('[general]\n' + '\n'.join(lines))
    for _ in range(3):
        with open(name) as f:
            obs.eq(readini.parse_config(f), expected, 'parameters')


def tasks(rnd, obs):
    "Tasks with their own results, accumulator and progress"
    key = rnd.random()
    n = rnd.choice([1, 3, 20, 100])
    wrong = rnd.randrange(n) if rnd.random() < .2 else None

    def task(i):
        if i == wrong:
            raise ValueError('task %r' % key)
        return key, i
    if rnd.random() < .5:
        def run():
            return parallel.map_reduce(task, ((i,) for i in range(n)),
                                       lambda acc, r: acc + [r], [])
    else:
        messages = []

        def run():
            tm = parallel.TaskManager(
                task, lambda *args: messages.append(args), 'task %r' % key)
            for i in range(n):
                tm.submit(i)
            res = tm.aggregate_results(lambda acc, r: acc + [r], [])
            obs.check(('%s 100%%', 'task %r' % key) in messages or
                      any('100' in m[0] % m[1:] for m in messages),
                      'progress', messages)
            obs.check(all('task %r' % key in m[0] % m[1:] for m in messages),
                      'progress', messages)
            return res
    if wrong is None:
        obs.eq(run(), [(key, i) for i in range(n)], 'results')
    else:
        err = obs.raises(RuntimeError, run, 'failure')
        obs.check('ValueError: task %r' % key in str(err), 'failure', err)


KINDS = dict(
    configurations=[config],
    tasks=[tasks],
    collections=[c01.random_split, c02.histories, c02.compare,
                 c03.random_split, c04.pairs],
    pickles=[c09.round_trip, c09.sequences],
    validators=[c13.floats, c13.ranges, c14.imts, c14.names, c14.namelists,
                c14.choices],
    records=[c15.nodes, c15.random_types, c15.constraints, c15.shipped],
    tables=[c16.histories, c16.validity, c17.histories],
    archives=[c18.contexts],
    risk=[c19.vulnerability, c19.discrete, c19.continuous, c20.exposure,
          c21.gmf],
    csv=[c22.search, c23.written, c23.good, c23.bad_header, c23.duplicates,
         c23.dangling, c23.columns],
    trees=[c25.enumeration, c26.objects, c26.scripted_tree, c27.applied,
           c27.single, c28.damaged, c28.undamaged],
    gsims=[c29.good, c29.damaged, c30.good, c30.bad],
    sources=[c31.convert, c31.errors, c32.split, c33.split, c33.untouched,
             c34.parse, c34.duplicates, c34.collectors, c35.blocks,
             c35.filtered],
    loaders=[c36.load, c36.errors, c37.load])
ALL = [f for kind in sorted(KINDS) for f in KINDS[kind]]
# for one thread only: with effects on the process, undone at the end
GLOBAL = [c05.distinct_, c05.ceil_, c05.str2bool_, c05.writetmp_,
          c06.exactly_once, c06.same_as_reduce, c06.raw_results, c06.managers,
          c07.failures, c07.agg_errors, c07.safe_calls, c08.reports,
          c10.monitors, c10.default_pid, c10.memory_warning, c11.configs,
          c12.models, c12.sites, c18.histories, c18.missing,
          c24.there_and_back, c24.invalid]
CASES = dict(('%s.%s' % (f.__module__, f.__name__), f)
             for f in ALL + GLOBAL)


REACHED = set()  # functions of the repository seen in the threads
SWITCHES = set()  # pairs of statements of different threads


class Delays(object):
    "Slows down a thread before some of the statements"
    def __init__(self, rnd, prob):
        self.rnd = rnd
        self.prob = prob
        self.n = self.passed = 0

    def __call__(self, site):
        self.passed += 1
        if self.n < 200 and self.rnd.random() < self.prob:
            self.n += 1
            REACHED.add(points.SITES[site].rsplit(':', 1)[0])
            time.sleep(self.rnd.choice([0, 0, .001]))


class Token(object):
    """
    Lets a thread go on at a time, changing it at random before the
    statements of the repository; a thread not getting the token in time (the
    holder may wait for something) goes on without it
    """
    def __init__(self, rnd, n):
        self.rnd = rnd
        self.cond = threading.Condition()
        self.waiting = dict((i, False) for i in range(n))
        self.current = 0
        self.site = None
        self.n = self.late = 0
        self.prob = rnd.choice([.01, .05, .2, 1])

    def wait(self, me):
        "To be called with the lock"
        self.waiting[me] = True
        limit = time.time() + .3
        while self.current != me and self.late < 10:
            left = limit - time.time()
            if left <= 0:
                self.late += 1
                break
            self.cond.wait(left)
        self.waiting[me] = False

    def switch(self, me):
        with self.cond:
            others = [i for i, w in self.waiting.items() if w]
            if self.current == me and others:
                self.n += 1
                self.current = self.rnd.choice(others)
                self.cond.notifyAll()
            if self.current != me:
                self.wait(me)

    def begin(self, me):
        with self.cond:
            self.wait(me)

    def end(self, me):
        with self.cond:
            del self.waiting[me]
            others = [i for i, w in self.waiting.items() if w]
            if self.current == me and self.waiting:
                self.current = self.rnd.choice(others or
                                               self.waiting.keys())
            self.cond.notifyAll()


class Steps(Delays):
    "The calls of a thread in a lockstep"
    def __init__(self, rnd, token, me):
        Delays.__init__(self, rnd, token.prob)
        self.token = token
        self.me = me

    def __call__(self, site):
        self.passed += 1
        if self.n < 1000 and self.rnd.random() < self.prob:
            self.n += 1
            token = self.token
            token.site = site
            token.switch(self.me)
            if token.site is not None and token.site != site:
                SWITCHES.add((token.site, site))


class Case(object):
    def __init__(self, func, seed, scratch):
        self.func, self.seed, self.scratch = func, seed, scratch
        self.name = '%s.%s' % (func.__module__, func.__name__)
        self.start = self.stop = None

    def run(self):
        "Returns the observations and the problem, if any"
        obs = vlib.Obs()
        os.mkdir(self.scratch)
        obs.start(self.name, 0, self.scratch)
        problem = None
        self.start = time.time()
        try:
            self.func(vlib.new_random(self.seed), obs)
        except vlib.HarnessError:
            raise
        except vlib.Violation as v:
            problem = str(v)
        except (SystemExit, KeyboardInterrupt, Exception):
            problem = vlib.exc_text()
        self.stop = time.time()
        self.scratch += '_'  # if run again
        return obs, problem

    def judge(self, obs, problem):
        "What failed with other cases: was it due to them?"
        if problem is None:
            return
        _sub, alone = self.run()
        if alone is None:
            obs.fail('interference', self.name, problem)
        # either it has nothing to do with the other cases or something is
        # wrong in this process by now
        obs.ev('cases failing also alone')
        obs.suspect('interference:' + self.name, [self.name, self.seed],
                    self.name, problem)


def solo(spec, obs):
    "A suspect alone, in a new process"
    if spec[0] == 'scenario':
        _s, name, seed, k, steps = spec
        inst = Instance(name, seed, k, obs.scratch)
        while inst.step():
            pass
        if inst.problem:
            obs.fail('alone', inst.problem)
    else:
        name, seed = spec
        problem = Case(CASES[name], seed, os.path.join(
            obs.scratch, 'x')).run()[1]
        if problem:
            obs.fail('alone', problem)


def threads(rnd, obs):
    n_threads = rnd.choice([2, 2, 3, 4, 6])
    per_thread = rnd.choice([1, 2, 3])
    if rnd.random() < .6:
        obs.ev('groups of the same kind')
        pool = KINDS[rnd.choice(sorted(KINDS))]
        if rnd.random() < .5:
            pool = [rnd.choice(pool)]
    else:
        obs.ev('mixed groups')
        pool = ALL
    groups, delays = [], []
    token = Token(vlib.new_random(rnd.random()), n_threads)
    lockstep = rnd.random() < .35
    twins = rnd.random() < .5
    chosen = [(rnd.choice(pool), rnd.randrange(10 ** 9))
              for _ in range(rnd.choice([1, 2]))]
    for t in range(n_threads):
        group = []
        for i in range(per_thread):
            if twins and rnd.random() < .7:
                func, seed = rnd.choice(chosen)
                obs.ev('repeated cases')
            else:
                func, seed = rnd.choice(pool), rnd.randrange(10 ** 9)
            group.append(Case(func, seed, os.path.join(
                obs.scratch, '%d_%d' % (t, i))))
        groups.append(group)
        sub = vlib.new_random(rnd.random())
        delays.append(Steps(sub, token, t) if lockstep else
                      Delays(sub, rnd.choice([0, .002, .02])))
    if lockstep:
        obs.ev('groups in lockstep')
    obs.note([[(c.name, c.seed) for c in g] for g in groups])
    ready = []
    results, errors = [], []
    go = threading.Event()

    def work(group, delay):
        ready.append(1)
        go.wait(20)
        try:
            if lockstep:
                token.begin(delay.me)
            points.local.hook = delay
            for case in group:
                results.append((case, case.run()))
        except:
            errors.append(vlib.exc_text())
        finally:
            points.local.hook = None
            if lockstep:
                token.end(delay.me)
    ths = [threading.Thread(target=work, args=a) for a in zip(groups, delays)]
    for th in ths:
        th.setDaemon(True)
        th.start()
    while len(ready) < n_threads:
        time.sleep(.001)
    go.set()
    for th in ths:
        th.join()
    if errors:
        raise vlib.HarnessError(errors[0])
    obs.eq(len(results), n_threads * per_thread, 'lost-cases')
    for case, (sub, problem) in results:
        obs.ev('cases run concurrently')
        obs.ev('oracle judgements', sub.counts.get('oracle judgements', 0))
        case.judge(obs, problem)
    cases = [c for c, _r in results]
    obs.ev('overlapping cases', sum(
        any(a.start < b.stop and b.start < a.stop for b in cases if b is not a)
        for a in cases))
    obs.ev('statements passed', sum(d.passed for d in delays))
    if lockstep:
        obs.ev('switches of thread', token.n)
        obs.counts['different switches'] = len(SWITCHES)
    else:
        obs.ev('injected delays', sum(d.n for d in delays))
    obs.nontrivial(sorted((c.name, c.seed) for c in cases))
    obs.sample([c.name for c in cases])


def histories(rnd, obs):
    "Cases of all the properties one after the other, some of them repeated"
    pool = ALL + GLOBAL
    if rnd.random() < .5:
        pool = rnd.sample(pool, rnd.choice([1, 2, 4]))
    done = []
    for i in range(rnd.choice([3, 6])):
        if done and rnd.random() < .3:
            func, seed = rnd.choice(done)
        else:
            func, seed = rnd.choice(pool), rnd.randrange(10 ** 9)
        done.append((func, seed))
        case = Case(func, seed, os.path.join(obs.scratch, str(i)))
        obs.note(case.name, seed)
        sub, problem = case.run()
        obs.ev('cases in histories')
        obs.ev('oracle judgements', sub.counts.get('oracle judgements', 0))
        os.chdir(obs.scratch)
        case.judge(obs, problem)
    obs.nontrivial([(f.__name__, s) for f, s in done])
    obs.sample([f.__name__ for f, _s in done])


class Instance(object):
    "A scenario executed in steps"
    def __init__(self, name, seed, k, scratch):
        self.name, self.seed, self.k = name, seed, k
        self.obs = vlib.Obs()
        self.scratch = os.path.join(scratch, '%s%d' % (name, k))
        while os.path.exists(self.scratch):
            self.scratch += '_'
        os.mkdir(self.scratch)
        self.obs.start(name, k, self.scratch)
        self.gen = scenarios.ALL[name](vlib.new_random(seed), k, self.obs)
        self.steps = 0
        self.problem = None

    def step(self):
        "Returns False at the end"
        try:
            self.gen.next()
        except StopIteration:
            return False
        except vlib.HarnessError:
            raise
        except vlib.Violation as v:
            self.problem = str(v)
            return False
        except Exception:
            self.problem = vlib.exc_text()
            return False
        self.steps += 1
        return True


def interleaved(rnd, obs):
    "Steps of several workloads in a single thread"
    names = sorted(scenarios.ALL)
    group = []
    for g in range(rnd.choice([1, 1, 1, 2])):
        name, seed = rnd.choice(names), rnd.randrange(10 ** 9)
        same = rnd.random() < .2  # exactly the same workload
        for k in range(rnd.choice([2, 2, 3])):
            obs.ev('scenario ' + name)
            group.append(Instance(name, seed, 0 if same else k, obs.scratch))
    obs.note([(inst.name, inst.seed, inst.k) for inst in group])
    todo, order = list(group), []
    while todo:
        inst = rnd.choice(todo)
        for _ in range(rnd.choice([1, 1, 3])):
            order.append(group.index(inst))
            if not inst.step():
                todo.remove(inst)
                break
    obs.ev('interleaved steps', len(order))
    for inst in group:
        obs.ev('oracle judgements',
               inst.obs.counts.get('oracle judgements', 0))
        if inst.problem is None:
            continue
        alone = Instance(inst.name, inst.seed, inst.k, obs.scratch)
        while alone.step():
            pass
        if alone.problem is None:
            obs.fail('interference', inst.name, inst.problem)
        obs.ev('cases failing also alone')
        obs.suspect('interference:' + inst.name, [
            'scenario', inst.name, inst.seed, inst.k, inst.steps],
            inst.name, inst.problem)
    obs.nontrivial([(i.name, i.seed, i.k) for i in group], order)
    obs.sample([(i.name, i.k, i.steps) for i in group])


def alone(rnd, obs):
    "The workloads are good: nothing fails in a process without the others"
    name = rnd.choice(sorted(scenarios.ALL))
    inst = Instance(name, rnd.randrange(10 ** 9), rnd.randrange(3),
                    obs.scratch)
    while inst.step():
        pass
    obs.ev('cases alone')
    if inst.problem:
        obs.suspect('interference:' + name, [
            'scenario', name, inst.seed, inst.k, inst.steps], name,
            inst.problem)


FAMILIES = [('threads', threads, 100, 3000),
            ('histories', histories, 60, 1500),
            ('interleaved', interleaved, 250, 5000),
            ('alone', alone, 30, 300)]
