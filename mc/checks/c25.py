'''C25: colour schemes and colour references.'''
from itertools import product
from mc.core import Family

PROPERTY = 'C25'
RULE = ('states: (scheme, key) pairs and states of the global scheme; '
        'transitions: compared answers; a trace is one scheme and key, or one '
        'history of setting schemes and resolving references')
ASSUMPTIONS = ['references to names that a scheme does not define are not '
               'specified']
COMMON = ['core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan',
          'green', 'lime', 'yellow', 'orange', 'red', 'pink']
NAMES = ['matplotlib', 'UniYork', 'ImperialLondon']
BAD = ['banana', '', 'Matplotlib', 'cs:blue', 'uniyork', ' UniYork ']


def mods():
    import causets.colorschemes as cs
    import causets.causetplotting as cp
    return cs, cp


def gen_schemes():
    cs, cp = mods()
    names = list(cs.ColorSchemes)
    for n in NAMES:
        yield ['scheme', n]
    for n in names:
        yield ['scheme', n]
        for k in sorted(set(list(cs.ColorSchemes[n]) + COMMON)):
            yield ['key', n, k]
        for k in cp.default_colors:
            yield ['default', n, k]


def valid(c):
    from matplotlib.colors import is_color_like, to_rgba
    return isinstance(c, str) and is_color_like(c) and len(to_rgba(c)) == 4


def check_scheme(case, ctx):
    cs, cp = mods()
    ctx.states += 1
    if case[0] == 'scheme':
        n = case[1]
        S = cs.pickColorScheme(n)
        ctx.ck(S == cs.ColorSchemes[n] and len(S) >= len(COMMON),
               'scheme %s', n)
        for k in COMMON:
            ctx.ck(k in S, 'scheme %s does not define %s', n, k)
        ctx.eq(S['gray'], S['grey'], 'gray and grey of %s', n)
        return
    if case[0] == 'key':
        _, n, k = case
        S = cs.ColorSchemes[n]
        ctx.ck(k in S, 'scheme %s does not define %s', n, k)
        ctx.ck(valid(S[k]), '%s of %s is no colour: %r', k, n, S[k])
        ctx.eq(cs.getColor('cs:' + k, n), S[k], 'getColor')
        return
    _, n, k = case
    c = cp.default_colors[k]
    ctx.ck(valid(cs.getColor(c, n)), 'default colour %s (%s) under %s', k, c, n)
    old = dict(cp.default_colors)
    cp.setDefaultColors(n)
    try:
        ctx.ck(valid(cs.getColor(c)), 'default colour %s (%s) under %s', k, c,
               n)
        for dims in ([1, 0], [1, 2, 0]):
            p = cp.plot_parameters(dims=dims, pastcones=True, futurecones=True)
            for g in ('pastcones', 'futurecones', 'links', 'events', 'labels'):
                for key, v in p[g].items():
                    if 'color' in key:
                        ctx.ck(v == 'none' or valid(v),
                               'plot parameter %s of %s is %r under %s', key,
                               g, v, n)
    finally:
        cp.default_colors.update(old)
        cs.setGlobalColorScheme('matplotlib')


OPS = [['set', n] for n in NAMES] + [['default', n] for n in NAMES] + \
    [['bad', b] for b in BAD[:3] + BAD[4:]] + [['badref', b] for b in BAD[:2]] + \
    [['mod', 'links'], ['read', None], ['explicit', None]]


def gen_hist(depth):
    def gen():
        for d in range(1, depth + 1):
            for ops in product(range(len(OPS)), repeat=d):
                yield [OPS[o] for o in ops]
    return gen


def resolve(cs, v, scheme):
    if isinstance(v, str) and v.startswith('cs:'):
        return cs.ColorSchemes[scheme][v[3:]]
    return v


VALUES = ['cs:blue', 'cs:gray', 'cs:grey', 'cs:core', 'red', '#123456', '',
          'cs', 'blue', 'none', 'Cs:blue', ' cs:blue', 'cs:blue', 'red',
          'cs:red', 'cs:red', 'cs:gray']
OTHER = [3, None, 2.5, [0.0, 0.1, 0.2, 1.0], ('cs:x',), True]


def observe(cs, scheme, ctx, tag):
    ctx.ck(cs.getGlobalColorScheme() == cs.ColorSchemes[scheme],
           '%sglobal scheme', tag)
    explicit = [None] + NAMES
    for s in explicit:
        use = scheme if s is None else s
        kw = {} if s is None else {'schemeName': s}
        for v in VALUES:
            ctx.eq(cs.getColor(v, **kw), resolve(cs, v, use),
                   '%sgetColor(%r, %s)', tag, v, s)
        L = list(VALUES)
        R = cs.convertColorsInList(L, **kw)
        ctx.eq(list(R), [resolve(cs, v, use) for v in VALUES],
               '%sconvertColorsInList(%s)', tag, s)
        D = {str(i): v for i, v in enumerate(VALUES + OTHER)}
        R = cs.convertColorsInDict(dict(D), **kw)
        ctx.eq(R, {k: resolve(cs, v, use) for k, v in D.items()},
               '%sconvertColorsInDict(%s)', tag, s)
        ctx.eq(list(cs.convertColorsInList([], **kw)), [], 'empty list')
        ctx.eq(cs.convertColorsInDict({}, **kw), {}, 'empty dictionary')
    ctx.ck(cs.getGlobalColorScheme() == cs.ColorSchemes[scheme],
           '%sglobal scheme after resolving', tag)
    ctx.states += 1


def check_hist(ops, ctx):
    cs, cp = mods()
    copy = {n: dict(S) for n, S in cs.ColorSchemes.items()}
    defaults = dict(cp.default_colors)
    cs.setGlobalColorScheme('matplotlib')
    g = 'matplotlib'
    try:
        for pos, (op, x) in enumerate(ops):
            tag = 'after %s: ' % ops[:pos + 1]
            if op == 'set':
                cs.setGlobalColorScheme(x)
                g = x
            elif op == 'default':
                cp.setDefaultColors(x)
                g = x
            elif op == 'bad':
                ctx.raises(ValueError, lambda: cs.setGlobalColorScheme(x),
                           tag + 'setGlobalColorScheme')
                ctx.raises(ValueError, lambda: cs.pickColorScheme(x),
                           tag + 'pickColorScheme')
                d0 = dict(cp.default_colors)
                ctx.raises(ValueError, lambda: cp.setDefaultColors(
                    x, links='cs:red'), tag + 'setDefaultColors')
                ctx.eq(dict(cp.default_colors), d0, '%sdefault colours after '
                       'a rejected scheme', tag)
            elif op == 'badref':
                ctx.raises(ValueError, lambda: cs.getColor('cs:red', x),
                           tag + 'getColor')
                ctx.raises(ValueError, lambda: cs.convertColorsInDict(
                    {'a': 'cs:red'}, x), tag + 'convertColorsInDict')
                ctx.raises(ValueError, lambda: cs.convertColorsInList(
                    ['cs:red'], x), tag + 'convertColorsInList')
            elif op == 'mod':
                cp.setDefaultColors(g, **{x: 'cs:red'})
                ctx.eq(cp.default_colors[x], 'cs:red', '%sdefault', tag)
                ctx.eq(cp.plot_parameters(links=True)['links']['color'],
                       resolve(cs, 'cs:red', g), '%scolour of links', tag)
            elif op == 'read':
                p = cp.plot_parameters(pastcones=True, futurecones=True)
                for grp, key, name in (
                        ('links', 'color', 'links'),
                        ('links', 'markeredgecolor', 'linksedge'),
                        ('links', 'markerfacecolor', 'linksface'),
                        ('events', 'markeredgecolor', 'eventsedge'),
                        ('events', 'markerfacecolor', 'eventsface'),
                        ('pastcones', 'edgecolor', 'conesedge'),
                        ('futurecones', 'edgecolor', 'conesedge')):
                    ctx.eq(p[grp][key], resolve(cs, cp.default_colors[name],
                                                g),
                           '%sdefault %s of %s', tag, key, grp)
                q = cp.plot_parameters(dims=[1, 2, 0], pastcones=True,
                                       futurecones=True)
                for grp in ('pastcones', 'futurecones'):
                    ctx.eq(q[grp]['color'], resolve(
                        cs, cp.default_colors['conesface'], g),
                        '%sdefault colour of %s in 3D', tag, grp)
            elif op == 'explicit':
                mine = {'color': 'cs:red', 'linewidth': 1.0}
                p = cp.plot_parameters(links=mine, events={
                    'markerfacecolor': 'cs:green'})
                ctx.eq(p['links']['color'], resolve(cs, 'cs:red', g),
                       '%sspecified colour of links', tag)
                ctx.eq(p['events']['markerfacecolor'],
                       resolve(cs, 'cs:green', g),
                       '%sspecified colour of events', tag)
                ctx.eq(mine, {'color': 'cs:red', 'linewidth': 1.0},
                       '%sdictionary of the caller', tag)
        observe(cs, g, ctx, 'after %s: ' % ops)
        ctx.eq({n: dict(S) for n, S in cs.ColorSchemes.items()}, copy,
               'the schemes after %s', ops)
    finally:
        cp.default_colors.clear()
        cp.default_colors.update(defaults)
        cs.setGlobalColorScheme('matplotlib')


def families(tier):
    t = tier == 'thorough'
    return [
        Family('schemes', gen_schemes, check_scheme, 'every key of every '
               'scheme, every default colour under every scheme'),
        Family('histories', gen_hist(4 if t else 3), check_hist,
               'every sequence of up to %d of %d operations' %
               (4 if t else 3, len(OPS))),
    ]
