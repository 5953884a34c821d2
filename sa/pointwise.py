"""P20: element-wise functions are the piecewise formulas that their documentation gives.

Every case of the formula (an order relation between operands and constants) is followed through
the loop body; what is stored must be the documented expression.
"""
from .algebra import Rat, TooBig
from .formula import cases, compare, el, expr, show_case
from .order import NAN, Sim, Undecided, last

STEP = 'x a b fa fb'


def interp(f):
    return [('a < b and x <= a', 'fa'), ('a < b <= x', 'fb'), ('a < x < b', f), ('a > b', 'nan'),
            ('a == b and x < a', 'fa'), ('a == b and x > a', 'fb')]


U = '((x - a)/(b - a))'
S5 = '0.5 - sin(asin(1 - 2*(y - fa)/(fb - fa))/3)'
SPECS = {
    'deadzone': ('x low high', [
        ('x < low <= high', 'x - low'), ('low <= x <= high and low <= high', '0'),
        ('low <= high < x', 'x - high')]),
    'step': ('x a flow fa fhigh', [('x < a', 'flow'), ('x == a', 'fa'), ('x > a', 'fhigh')]),
    'linearstep': (STEP, interp('fa + (fb - fa)*' + U)),
    'smoothstep3': (STEP, interp('fa + (fb - fa)*(3 - 2*%s)*%s**2' % (U, U))),
    'smoothstep5': (STEP, interp('fa + (fb - fa)*(6*%s**2 - 15*%s + 10)*%s**3' % (U, U, U))),
    'invsmoothstep3': ('y a b fa fb', [
        ('fa == fb', 'nan'), ('fa < fb and y == fa', 'a'), ('fa < fb and y == fb', 'b'),
        ('fa > fb and y == fa', 'a'), ('fa > fb and y == fb', 'b'),
        ('y < fa < fb', 'nan'), ('fa < fb < y', 'nan'), ('y > fa > fb', 'nan'),
        ('fa > fb > y', 'nan'), ('fa < y < fb', 'a + (b - a)*(%s)' % S5),
        ('fa > y > fb', 'a + (b - a)*(%s)' % S5)]),
    'trapezoid_pulse': ('x a b c d amp', [
        ('x <= a < b < c < d', '0'), ('a < x < b < c < d', 'amp*(x - a)/(b - a)'),
        ('a < b <= x <= c < d and b < c', 'amp'),
        ('a < b < c < x < d', 'amp*(d - x)/(d - c)'), ('a < b < c < d <= x', '0'),
        ('b < a < x < c < d', 'nan'), ('b < x < a < c < d', 'nan'), ('b < a < c < x < d', 'nan'),
        ('a < x < c < b < d', 'nan'), ('a < c < x < b < d', 'nan'), ('a < c < b < x < d', 'nan'),
        ('a < x < b < d < c', 'nan'), ('a < b < x < d < c', 'nan'), ('a < b < d < x < c', 'nan'),
        ('a == x == b < c < d', None)]),
    'hyperbolic_ramp': ('x a', [
        ('a == 0 and x < 0', '0'), ('a == 0 and x >= 0', 'x'), ('a < 0 and x > 0', 'nan'),
        ('a < 0 and x < 0', 'nan'), ('a > 0 and x > 0', '(x + sqrt(x*x + 4*a*a))/2'),
        ('a > 0 and x < 0', '(x + sqrt(x*x + 4*a*a))/2'), ('a > 0 and x == 0', 'a')]),
    'exponential_ramp': ('x a', [
        ('a == 0 and x < 0', '0'), ('a == 0 and x >= 0', 'x'), ('a < 0 and x > 0', 'nan'),
        ('a < 0 and x < 0', 'nan'), ('a > 0 and x > 0', 'a*log(1 + pow(2, x/a))/log(2)'),
        ('a > 0 and x < 0', 'a*log(1 + pow(2, x/a))/log(2)'), ('a > 0 and x == 0', 'a')]),
    'exponential': ('h nugget sill range', [
        ('range > 0', 'nugget + (sill - nugget)*(1 - exp(-3*h/range))')]),
    'linear': ('h nugget sill range', [
        ('h > range', 'sill'), ('0 < h <= range', 'nugget + (sill - nugget)*h/range')]),
    'spherical': ('h nugget sill range', [
        ('h > range', 'sill'),
        ('0 < h <= range', 'nugget + (sill - nugget)*(3*h/range - (h/range)**3)/2')]),
    'parabolic': ('h nugget sill range', [
        ('h > range', 'sill'),
        ('0 < h <= range', 'nugget + (sill - nugget)*(2*h/range - (h/range)**2)')]),
    'logistic': ('x', [('x < 0', '1/(1 + exp(-x))'), ('x > 0', '1/(1 + exp(-x))'),
                       ('x == 0', '1/2')]),
    'logistic_deriv': ('x', [('x < 0', 'exp(-x)/(1 + exp(-x))**2'),
                             ('x > 0', 'exp(-x)/(1 + exp(-x))**2'), ('x == 0', '1/4')]),
    'log_logistic': ('x', [('x < 0', '-log(1 + exp(-x))'), ('x > 0', '-log(1 + exp(-x))'),
                           ('x == 0', '-log(2)')]),
    'swish': ('x beta', [('x < 0 and beta > 0', 'x/(1 + exp(-beta*x))'),
                         ('x > 0 and beta > 0', 'x/(1 + exp(-beta*x))'),
                         ('x < 0 and beta < 0', 'x/(1 + exp(-beta*x))'),
                         ('x > 0 and beta < 0', 'x/(1 + exp(-beta*x))')]),
    'yeo_johnson': ('x lam', [
        ('x > 0 and lam == 0', 'log(1 + x)'), ('x == 0', '0'),
        ('x > 0 and lam < 0', '(pow(1 + x, lam) - 1)/lam'),
        ('x > 0 and 0 < lam < 2', '(pow(1 + x, lam) - 1)/lam'),
        ('x > 0 and lam == 2', '((1 + x)**2 - 1)/2'),
        ('x > 0 and lam > 2', '(pow(1 + x, lam) - 1)/lam'),
        ('x < 0 and lam == 2', '-log(1 - x)'), ('x < 0 and lam == 0', '-((1 - x)**2 - 1)/2'),
        ('x < 0 and lam < 0', '-(pow(1 - x, 2 - lam) - 1)/(2 - lam)'),
        ('x < 0 and 0 < lam < 2', '-(pow(1 - x, 2 - lam) - 1)/(2 - lam)'),
        ('x < 0 and lam > 2', '-(pow(1 - x, 2 - lam) - 1)/(2 - lam)')]),
    'inv_yeo_johnson': ('x lam', [
        ('x > 0 and lam == 0', 'exp(x) - 1'),
        ('x > 0 and 0 < lam < 2', 'pow(1 + lam*x, 1/lam) - 1'),
        ('x > 0 and lam > 2', 'pow(1 + lam*x, 1/lam) - 1'),
        ('lam < 0 and 0 < x < -1/lam', 'pow(1 + lam*x, 1/lam) - 1'),
        ('lam < 0 and 0 < x and x > -1/lam', 'nan'),
        ('lam < 0 and 0 < x and x == -1/lam', 'inf'),
        ('x < 0 and lam == 2', '1 - exp(-x)'),
        ('x < 0 and 0 < lam < 2', '1 - pow(1 - (2 - lam)*x, 1/(2 - lam))'),
        ('x < 0 and lam < 0', '1 - pow(1 - (2 - lam)*x, 1/(2 - lam))'),
        ('lam > 2 and x < 0 and x > 1/(2 - lam)', '1 - pow(1 - (2 - lam)*x, 1/(2 - lam))'),
        ('lam > 2 and x < 0 and x < 1/(2 - lam)', 'nan'),
        ('lam > 2 and x < 0 and x == 1/(2 - lam)', '-inf')]),
    'pow1pm1': ('x y', [('x == -1 and y == 0', '0'), ('-1 < x < 0 and y > 0', 'pow(1 + x, y) - 1'),
                        ('x > 0 and y > 0', 'pow(1 + x, y) - 1'),
                        ('x > 0 and y < 0', 'pow(1 + x, y) - 1'),
                        ('-1 < x < 0 and y < 0', 'pow(1 + x, y) - 1')]),
    'abs_squared': ('x', [('x < 0', 'x*x'), ('x > 0', 'x*x')]),
    'abssq': ('x', [('x < 0', 'x*x'), ('x > 0', 'x*x')]),
    'nan_to_num': ('x repl', [('x is nan', 'repl'), ('x < 0', 'x'), ('x == 0', 'x'),
                              ('0 < x < inf', 'x'), ('x == inf', 'x'), ('x == -inf', 'x')]),
    'hypot3': ('x y z', [
        ('x == inf and y > 0 and z > 0', 'inf'), ('y == inf and x > 0 and z > 0', 'inf'),
        ('z == inf and x > 0 and y > 0', 'inf'),
        ('x == -inf and y > 0 and z > 0', 'inf'), ('y == -inf and x > 0 and z > 0', 'inf'),
        ('z == -inf and x > 0 and y > 0', 'inf'),
        ('0 < x < y < z < inf', 'sqrt(x*x + y*y + z*z)'),
        ('0 < z < y < x < inf', 'sqrt(x*x + y*y + z*z)'),
        ('0 < x < z < y < inf', 'sqrt(x*x + y*y + z*z)'),
        ('-inf < x < 0 and 0 < y < z < inf', 'sqrt(x*x + y*y + z*z)'),
        ('-inf < y < 0 and 0 < x < z < inf', 'sqrt(x*x + y*y + z*z)'),
        ('-inf < z < 0 and 0 < x < y < inf', 'sqrt(x*x + y*y + z*z)')]),
    'next_greater': ('x', [('', 'nextafter(x, inf)')]),
    'next_less': ('x', [('', 'nextafter(x, -inf)')]),
    'cdf': ('x', [('x < 0', '(1 + erf(x/sqrt(2)))/2'), ('x > 0', '(1 + erf(x/sqrt(2)))/2'),
                  ('x == 0', '1/2'), ('x is nan', 'nan')]),
    'sf': ('x', [('x < 0', '(1 - erf(x/sqrt(2)))/2'), ('x > 0', '(1 - erf(x/sqrt(2)))/2'),
                 ('x == 0', '1/2'), ('x is nan', 'nan')]),
    'logcdf': ('x', [(c, 'log((1 + erf(x/sqrt(2)))/2)') for c in (
        'x < -1', '-1 <= x < 0', '0 < x < 1', 'x >= 1')]),
    'logsf': ('x', [(c, 'log((1 - erf(x/sqrt(2)))/2)') for c in (
        'x <= -1', '-1 < x < 0', '0 < x < 1', 'x > 1')]),
    'erfcx': ('x', [('', 'erfcx(x)')]),
    'cross2': ('u u v v', [('', 'u0*v1 - u1*v0')]),
    'cross3': ('u u u v v v', [('', ('u1*v2 - u2*v1', 'u2*v0 - u0*v2', 'u0*v1 - u1*v0'))]),
    # self-test
    'good_p20': ('x a', [('x < a', '(x - a)*(x + a)'), ('x >= a', '1/(1 + exp(-x))')]),
    'bad_p20': ('x a', [('x < a', '(x - a)*(x + a)'), ('x >= a', '1/(1 + exp(-x))')]),
}
COMPLEX = {'abs_squared': 're*re + im*im', 'abssq': 're*re + im*im'}


def names_of(u, text):
    from .sym import Poly
    if text == 'u u v v':
        return {'u0': el(0, Poly.const(0)), 'u1': el(0, Poly.const(1)),
                'v0': el(1, Poly.const(0)), 'v1': el(1, Poly.const(1))}
    if text == 'u u u v v v':
        return {'%s%d' % (n, k): el(o, Poly.const(k)) for o, n in enumerate('uv')
                for k in range(3)}
    return {n: el(k) for k, n in enumerate(text.split())}


def store_loops(u, opnd):
    """The innermost loops that store an operand."""
    e = u.eng
    out = []
    for a in u.acc:
        if a.kind == 'opnd' and a.opnd == opnd and a.rw == 'w':
            L = e.cfg.loop_of.get(a.blk)
            if L is not None and L not in out:
                out.append(L)
    return out


def p20(u):
    if u.loop is None or u.name not in SPECS:
        return
    text, table = SPECS[u.name]
    names = names_of(u, text)
    if u.loop.types[0] in (14, 15, 16):
        if u.name not in COMPLEX:
            return
        names = {'re': ('el', 0, ()), 'im': ('el', 0, (), 'im')}
        table = [('', COMPLEX[u.name])]
    if u.loop.types[0] == 17:
        return
    loops = store_loops(u, u.lay.nin)
    if not loops:
        u.add('P20', 'not-decided', True, None, 'no loop stores the result')
    for L in loops:
        if any(M.parent is L for M in u.eng.cfg.loops):
            u.add('P20', 'not-decided', True, None, 'nested loops')
            continue
        base = Sim(u, L, {})
        for cond, exp in table:
            if exp is None:
                continue
            for rels in cases(cond, names):
                one_case(u, L, base, names, rels, exp)


def resolve(base, names, rels):
    def f(r):
        return expr(base, r, names) if isinstance(r, str) else r
    return {(f(a), f(b)): r for (a, b), r in rels.items()}


def one_case(u, L, base, names, rels, exp):
    rels = resolve(base, names, rels)
    exps = exp if isinstance(exp, tuple) else (exp,)
    from .sym import Poly
    try:
        sim = Sim(u, L, rels)
        want = [expr(sim, x, names) for x in exps]
        outs = [o for o in sim.run(L.header, 'iterate') if o[0] == 'next']
        if not outs:
            raise Undecided('no path')
        verdict = set()
        shown = None
        for o in outs:
            got = {(a, tuple(p.cval() if p.is_const() else p for p in j)): v
                   for (a, j), v in last(o[2]).items()}
            for k, w in enumerate(want):
                key = (u.lay.nin, () if len(want) == 1 else (k,))
                v = got.get(key)
                r = 'unknown' if v is None else compare(
                    sim, v, w, rels, 3e-6 if u.loop.types[0] in (11, 23) else 1e-8, o.pc,
                    o.precise)
                verdict.add(r)
                if r == 'differ':
                    shown = shown or exps[k]
    except (Undecided, TooBig, ZeroDivisionError, RecursionError) as ex:
        u.add('P20', 'not-decided', True, None, str(ex))
        return
    txt = show_case(rels, names)
    if 'differ' in verdict:
        u.add('P20', 'formula', False, L.header.insts[0], 'the result is not %s for %s' % (
            shown or exps[0], txt))
    elif verdict == {'same'}:
        u.add('P20', 'formula', True, None)
    else:
        u.add('P20', 'not-decided', True, None, txt)
