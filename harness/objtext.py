"""everything that hangs on an object, in a fixed form"""
import sympy as sp


def text(x, depth=0, seen=None):
    """everything that hangs on an object, in a fixed form"""
    seen = seen or ()
    if isinstance(x, (str, int, float, bool, type(None), bytes)): return repr(x)
    if isinstance(x, (sp.Basic, sp.MatrixBase)): return sp.srepr(x) if isinstance(x, sp.Basic) else 'M' + text(x.tolist(), depth, seen)
    if isinstance(x, dict): return '{%s}' % ','.join(sorted('%s:%s' % (text(k, depth, seen), text(v, depth, seen)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)): return '<%s>' % ','.join(sorted(text(y, depth, seen) for y in x))
    if isinstance(x, (list, tuple)): return '[%s]' % ','.join(text(y, depth, seen) for y in x)
    if hasattr(x, 'tolist'): return text(x.tolist(), depth, seen)
    if id(x) in seen or depth > 6: return '^'
    if hasattr(x, '__dict__') and not callable(x):
        return '%s(%s)' % (type(x).__name__, ','.join('%s=%s' % (k, text(v, depth + 1, seen + (id(x),))) for k, v in sorted(vars(x).items()) if not k.startswith('_')))
    return type(x).__name__
