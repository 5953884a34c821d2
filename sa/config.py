"""The gufunc/ufunc configuration files (src/*/define_*.py), read as syntax trees."""
import ast
import glob
import os


class Unknown(Exception):
    pass


def _ev(n, env):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, (ast.List, ast.Tuple)):
        return [_ev(x, env) for x in n.elts]
    if isinstance(n, ast.Dict):
        return {_ev(k, env): _ev(v, env) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.Name):
        if n.id in env:
            return env[n.id]
        raise Unknown(n.id)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = _ev(n.left, env), _ev(n.right, env)
        if type(a) is type(b) and isinstance(a, (list, str)):
            return a + b
        raise Unknown('+')
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        d = {'__call__': n.func.id}
        for k in n.keywords:
            if k.arg is None:
                raise Unknown('**')
            try:
                d[k.arg] = _ev(k.value, env)
            except Unknown:
                d[k.arg] = None
        return d
    raise Unknown(type(n).__name__)


def advertised(repo):
    """{(module, ufunc): [type signature]} as far as the files are literal."""
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, 'src', '*', 'define_*.py'))):
        with open(p) as f:
            tree = ast.parse(f.read(), p)
        env = {}
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                try:
                    env[st.targets[0].id] = _ev(st.value, env)
                except Unknown:
                    env.pop(st.targets[0].id, None)
        for v in list(env.values()):
            for m in v if isinstance(v, list) else [v]:
                if isinstance(m, dict) and m.get('__call__') == 'UFuncExtMod':
                    for uf in m.get('ufuncs') or ():
                        _ufunc(out, m.get('module'), uf)
                elif isinstance(m, dict) and m.get('__call__') == 'ExtMod':
                    for fl in (m.get('funcs') or {}).values():
                        for fn in fl or ():
                            if isinstance(fn, dict) and fn.get('types'):
                                out[m.get('modulename'), fn.get('ufuncname')] = fn['types']
    return out


def _ufunc(out, module, uf):
    if not isinstance(uf, dict):
        return
    sigs = []
    for s in uf.get('sources') or ():
        if not isinstance(s, dict) or not s.get('typesignatures'):
            return
        sigs += s['typesignatures']
    if sigs:
        out[module, uf.get('name')] = sigs


if __name__ == '__main__':
    for k, v in advertised('/repo').items():
        print(k, v)
