from common import *
import io
import itertools
import toolz
from leap_ec import ops, probe
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.segmented_rep import ops as sops
from leap_ec.multiobjective import ops as mops
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.distrib import synchronous
from leap_ec.executable_rep import cgp
from leap_ec.real_rep.problems import SpheroidProblem
import networkx as nx

M = Module('P16')
M.assumptions = ['Sources are never exhausted inside an operator (a generator that runs dry inside '
                 'an endless operator raises RuntimeError under PEP 479).']


def add1(s, expected_num_mutations=None):
    return s + 1


def _cgp():
    prims = [lambda a, b: a + b]
    return cgp.CGPDecoder(primitives=prims, num_inputs=1, num_outputs=1, num_layers=1, nodes_per_layer=1, max_arity=2)


# name -> (kind, factory(kwargs...)->function, kwargs, genome family)
OPS = {
    'evaluate': ('ii', ops.evaluate, {}, 'real'),
    'clone': ('ii', ops.clone, {}, 'real'),
    'mutate_bitflip': ('ii', mutate_bitflip, dict(probability=0.5), 'bits'),
    'mutate_gaussian': ('ii', mutate_gaussian, dict(std=1.0, expected_num_mutations='isotropic'), 'real'),
    'mutate_randint': ('ii', mutate_randint, dict(bounds=[(0, 9)] * 4, probability=0.5), 'int'),
    'mutate_binomial': ('ii', mutate_binomial, dict(std=1.0, bounds=[(0, 9)] * 4, probability=0.5), 'int'),
    'apply_mutation': ('ii', sops.apply_mutation, dict(mutator=add1), 'segs'),
    'segmented_mutate': ('ii', sops.segmented_mutate, dict(mutator_functions=[add1, add1]), 'segs'),
    'add_segment': ('ii', sops.add_segment, dict(seq_initializer=lambda: np.zeros(2), probability=0.5), 'segs'),
    'remove_segment': ('ii', sops.remove_segment, dict(probability=0.5), 'segs'),
    'copy_segment': ('ii', sops.copy_segment, dict(probability=0.5), 'segs'),
    'print_individual': ('ii', probe.print_individual, dict(prefix='x', stream=io.StringIO()), 'real'),
    'cgp_mutate': ('ii', None, {}, 'cgp'),
    'UniformCrossover': ('ii2', None, {}, 'real'),
    'NAryCrossover': ('ii2', None, {}, 'real'),
    'pool': ('il', ops.pool, dict(size=3), 'real'),
    'eval_pool': ('il', synchronous.eval_pool, dict(client=None, size=3), 'real'),
    'tournament_selection': ('li', ops.tournament_selection, dict(k=2), 'real'),
    'random_selection': ('li', ops.random_selection, {}, 'real'),
    'naive_cyclic_selection': ('li', ops.naive_cyclic_selection, {}, 'real'),
    'cyclic_selection': ('li', ops.cyclic_selection, {}, 'real'),
    'proportional_selection': ('li', ops.proportional_selection, dict(offset=1000.0), 'real'),
    'sus_selection': ('li', ops.sus_selection, dict(offset=1000.0), 'real'),
    'truncation_selection': ('ll', ops.truncation_selection, dict(size=2), 'real'),
    'elitist_survival': ('ll', ops.elitist_survival, dict(parents='POP', k=1), 'real'),
    'insertion_selection': ('ll', ops.insertion_selection, dict(parents='POP'), 'real'),
    'grouped_evaluate': ('ll', ops.grouped_evaluate, dict(max_individuals_per_chunk=2), 'real'),
    'const_evaluate': ('ll', ops.const_evaluate, dict(value=2.5), 'real'),
    'print_probe': ('ll', probe.print_probe, dict(probe=len, stream=io.StringIO()), 'real'),
    'fast_nondominated_sort': ('ll', mops.fast_nondominated_sort, {}, 'mo'),
    'rank_ordinal_sort': ('ll', mops.rank_ordinal_sort, {}, 'mo'),
    'crowding_distance_calc': ('ll', mops.crowding_distance_calc, {}, 'mo'),
    'sort_by_dominance': ('ll', mops.sort_by_dominance, {}, 'mo'),
    'eval_population': ('ll', synchronous.eval_population, dict(client=None), 'real'),
    'migrate': ('ll', None, {}, 'real'),
}
NAMES = sorted(OPS)


class TwoObj(MultiObjectiveProblem):
    def __init__(self):
        super().__init__(maximize=(True, True))

    def evaluate(self, phenome, *a, **k):
        return np.array([float(phenome[0]), -float(phenome[0])])


def population(family, n):
    if family == 'mo':
        p = TwoObj()
        pop = []
        for i in range(n):
            x = Individual(np.array([float(i)]), problem=p)
            x.fitness = np.array([float(i % 3), float(-i)])
            x.rank, x.distance = 1, float(i)
            pop.append(x)
        return pop
    prob = FunctionProblem(lambda p: float(np.sum(np.concatenate([np.ravel(s) for s in p])
                                                  if isinstance(p, list) else p)), True)
    pop = []
    for i in range(n):
        if family == 'bits':
            g = np.array([(i >> k) & 1 for k in range(4)])
        elif family == 'int':
            g = np.array([i % 10, 1, 2, 3])
        elif family == 'segs':
            g = [np.array([float(i)]), np.array([1.0, 2.0])]
        elif family == 'cgp':
            g = np.array([0, 0, 0, i % 2])
        else:
            g = np.array([float(i), 1.0, 2.0])
        x = Individual(g, problem=prob)
        x.fitness = float(i)
        pop.append(x)
    return pop


def configured(name, pop=None, **override):
    kind, f, kw, fam = OPS[name]
    if name == 'UniformCrossover':
        return ops.UniformCrossover(p_xover=1.0)
    if name == 'NAryCrossover':
        return ops.NAryCrossover()
    if name == 'cgp_mutate':
        return cgp.cgp_mutate(_cgp(), probability=0.5)
    if name == 'migrate':
        cx = {'leap': {'generation': 0, 'current_subpopulation': 0}}
        return ops.migrate(nx.complete_graph(2), ops.tournament_selection, ops.random_selection, 5, context=cx)
    kw = {k: (list(pop or []) if v == 'POP' else v) for k, v in {**kw, **override}.items()}
    return f(**kw) if kw else f


class Source:
    """Counting endless source of fresh individuals."""

    def __init__(self, family):
        self.family, self.drawn, self.given = family, 0, []

    def __iter__(self):
        return self

    def __next__(self):
        x = population(self.family, self.drawn + 1)[-1]
        self.drawn += 1
        self.given.append(x)
        return x


@M.sub(case(name=st.sampled_from([n for n in NAMES if OPS[n][0] in ('ii', 'ii2')]),
            takes=st.lists(st.integers(1, 4), min_size=1, max_size=4)), n=400,
       rule='always')
def lazy(c, ctx):
    kind, f, kw, fam = OPS[c['name']]
    src = Source(fam)
    out = configured(c['name'])(src)
    check(src.drawn == 0, '%s drew %d before anything was asked for', c['name'], src.drawn)
    n = 0
    for t in c['takes']:
        for _ in range(t):
            got = next(out)
            n += 1
            need = n if kind == 'ii' else 2 * math.ceil(n / 2)
            check(src.drawn == need, '%s: %d delivered, %d drawn from upstream', c['name'], n, src.drawn)
            if c['name'] == 'clone':
                check(got is not src.given[n - 1] and got.parents == {src.given[n - 1].uuid}, 'clone of the wrong individual')
            else:
                check(got is src.given[n - 1], '%s: item %d is not the individual drawn', c['name'], n)
    ctx.nt()
    ctx.label(c['name'])


chain_ops = [n for n in NAMES if OPS[n][0] in ('ii', 'ii2') and OPS[n][3] == 'real' and n not in ('clone',)]


@M.sub(case(names=st.lists(st.sampled_from(chain_ops + ['clone']), max_size=5), size=upto(0, 9, 33, 70), again=upto(0, 4, 20),
            direct=bools), n=500, rule='at least two streaming operators and a pool of at least two')
def pooled(c, ctx):
    src = Source('real')
    f = toolz.pipe(src, *[configured(n) for n in c['names']])
    check(src.drawn == 0, 'wiring the pipeline drew %d', src.drawn)
    out = ops.pool(f, c['size']) if c['direct'] else ops.pool(size=c['size'])(f)
    check(isinstance(out, list) and len(out) == c['size'], 'pool of %d returned %d', c['size'], len(out))
    npairs = sum(OPS[n][0] == 'ii2' for n in c['names'])
    need = c['size'] if npairs == 0 else 2 * math.ceil(c['size'] / 2)
    check(src.drawn == need, 'pooling %d drew %d from upstream through %r', c['size'], src.drawn, c['names'])
    if 'clone' not in c['names']:
        check(same_list(out, src.given[:c['size']]), 'pooled individuals are not those drawn, in order')
    else:
        check(len({id(x) for x in out}) == len(out), 'duplicated individual')
    if npairs == 0:
        out2 = ops.pool(f, c['again'])
        check(src.drawn == c['size'] + c['again'] and len(out2) == c['again'], 'second pool drew %d', src.drawn)
    ctx.nt(len(c['names']) > 1 and c['size'] > 1)


@M.sub(case(have=st.integers(0, 5), size=st.integers(0, 8), direct=bools), n=80, rule='fewer individuals than asked for')
def never_short(c, ctx):
    """A pool is never quietly smaller than asked for."""
    pop = population('real', c['have'])
    try:
        out = ops.pool(iter(pop), c['size']) if c['direct'] else ops.pool(size=c['size'])(iter(pop))
    except Exception:
        check(c['have'] < c['size'], 'pooling %d of %d failed', c['size'], c['have'])
        ctx.nt()
        return
    check(len(out) == c['size'], 'asked for %d, got %d', c['size'], len(out))


def bad_inputs(kind):
    pop = population('real', 4)
    if kind in ('ii', 'ii2', 'il'):
        return {'list': pop, 'tuple': tuple(pop), 'curry': ops.truncation_selection(pop), 'curry2': ops.pool(iter(pop)),
                'none': None, 'individual': pop[0], 'array': np.arange(3), 'range': range(3)}
    return {'iterator': iter(pop), 'generator': (x for x in pop), 'tuple': tuple(pop), 'array': np.array([1, 2]),
            'curry': ops.pool(iter(pop)), 'curry2': ops.truncation_selection(pop), 'none': None, 'individual': pop[0],
            'range': range(3)}


@M.sub(case(name=st.sampled_from(NAMES), what=st.integers(0, 8)), n=600,
       rule='always (wrong input kind)')
def wrong_kind(c, ctx):
    kind = OPS[c['name']][0]
    bad = bad_inputs(kind)
    key = sorted(bad)[c['what'] % len(bad)]
    op = configured(c['name'], population('real', 3))
    try:
        out = op(bad[key])
    except ValueError:
        out = None
        ctx.nt()
        ctx.label(c['name'])
    check(out is None, '%s accepted a %s and returned %r', c['name'], key, type(out))


class Herd(list):
    pass


@M.sub(case(deco=st.sampled_from(['iteriter_op', 'listlist_op', 'listiter_op', 'iterlist_op']),
            out=st.sampled_from(['list', 'iter', 'gen', 'tuple', 'none', 'curry']), args=st.lists(st.integers(), max_size=3),
            good=bools), n=300, rule='the wrapped operator returns the wrong kind')
def user_operators(c, ctx):
    d = getattr(ops, c['deco'])
    pop = population('real', 3)
    res = {'list': Herd(pop) if len(c['args']) == 1 else list(pop), 'iter': iter(pop), 'gen': (x for x in pop), 'tuple': tuple(pop), 'none': None,
           'curry': ops.pool(iter(pop))}[c['out']]
    calls = []

    def f(x, *args, **kwargs):
        "doc of f"
        calls.append((x, args, kwargs))
        return res
    wrapped = d(f)
    check(wrapped.__name__ == 'f' and wrapped.__doc__ == 'doc of f', 'wrapper hides the operator name')
    islist = c['deco'].startswith('list')
    x = ((Herd if len(c['args']) == 2 else list)(pop) if islist else iter(pop)) if c['good'] else (iter(pop) if islist else list(pop))
    okout = c['out'] == 'list' if c['deco'].endswith('list_op') else c['out'] in ('iter', 'gen')
    try:
        got = wrapped(x, *c['args'], kw=1)
        err = False
    except ValueError:
        err = True
    check(err == (not (c['good'] and okout)), '%s: input ok=%s, output %s: error=%s', c['deco'], c['good'], c['out'], err)
    if not c['good']:
        check(not calls, 'operator ran on a wrong input')
    else:
        check(len(calls) == 1 and calls[0][0] is x and calls[0][1] == tuple(c['args']) and calls[0][2] == {'kw': 1}, 'arguments lost')
        if not err:
            check(got is res, 'result replaced')
    ctx.nt(c['good'] and not okout)


def observe(out, pop):
    if isinstance(out, list):
        seq = out
    else:
        seq = list(itertools.islice(out, 4))
    res = []
    for x in seq:
        idx = [i for i, p in enumerate(pop) if p is x]
        res.append((idx, genome_value(x.genome), repr(x.fitness)))
    return res


@M.sub(case(name=st.sampled_from([n for n in NAMES if OPS[n][1] is not None and n not in ('eval_pool', 'eval_population')]),
            n=st.integers(4, 7), split=st.integers(0, 3), rs=st.integers(0, 10 ** 6)), n=500,
       rule='the operator has at least one keyword argument')
def currying(c, ctx):
    """Same random state: all-at-once call == configured in advance == in two steps."""
    import random
    kind, f, kw, fam = OPS[c['name']]
    outs = []
    for form in ('direct', 'advance', 'steps', 'positional'):
        pop = population(fam, c['n'])
        par = list(pop)
        kws = {k: (list(par) if v == 'POP' else v) for k, v in kw.items()}
        np.random.seed(c['rs'])
        random.seed(c['rs'])
        x = iter(pop) if kind[0] == 'i' else list(pop)
        if form == 'direct':
            out = f(x, **kws)
        elif form == 'advance':
            out = (f(**kws) if kws else f)(x)
        elif form == 'steps':
            g = f
            for k in list(kws)[::-1]:
                g = g(**{k: kws[k]})
                check(isinstance(g, toolz.functoolz.curry), 'operator ran without its input')
            out = g(x)
        else:
            op = f(**kws) if kws else f
            a = op(x)
            out = a
        outs.append(observe(out, pop))
    check(all(o == outs[0] for o in outs), '%s: forms disagree: %r', c['name'], outs)
    ctx.nt(bool(kw))
    ctx.label(c['name'])


@M.sub(case(missing=st.sampled_from(['truncation_selection', 'pool', 'mutate_gaussian', 'add_segment', 'elitist_survival',
                                     'mutate_randint']),
            after=st.sampled_from(NAMES)), n=200, rule='always (a required argument is missing)')
def half_configured(c, ctx):
    kind, f, kw, fam = OPS[c['missing']]
    pop = population(fam, 4)
    half = f(iter(pop) if kind[0] == 'i' else pop)
    check(isinstance(half, toolz.functoolz.curry), 'operator ran with a missing argument')
    op = configured(c['after'], population('real', 3))
    check(raises(ValueError, lambda: op(half)), '%s accepted a half-configured %s', c['after'], c['missing'])
    ctx.nt()
