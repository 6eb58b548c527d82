"""Online monitors: oracles attached to the public functions of the library, at every place they are bound.

A monitor sees every call made while a workload runs, whether by the workload or by another part of the library, with
copies of the arguments taken before the call. It is called outside the function, on its boundary.
"""
import copy
import functools
import inspect
import sys
from fractions import Fraction

import numpy as np

from .core import STATE

_inside = [0]

# Documented default values. The oracles use them, whatever the signatures say, and the arguments which have these values
# are left out of every second call.
P = 'commpy.channelcoding.'
DEFAULTS = {
    'commpy.modulation.Modem.__init__': {'reorder_as_gray': True},
    'commpy.modulation.kbest': {'output_type': 'hard', 'demode': None},
    'commpy.channels._FlatChannel.set_SNR_dB': {'code_rate': 1, 'Es': 1},
    'commpy.channels._FlatChannel.set_SNR_lin': {'code_rate': 1, 'Es': 1},
    'commpy.channels.SISOFlatChannel.__init__': {'noise_std': None, 'fading_param': (1, 0)},
    'commpy.channels.MIMOFlatChannel.__init__': {'noise_std': None, 'fading_param': None},
    'commpy.channels.MIMOFlatChannel.expo_corr_rayleigh_fading': {'betat': 0, 'betar': 0},
    'commpy.channels.MIMOFlatChannel.expo_corr_rician_fading': {'betat': 0, 'betar': 0},
    'commpy.channels.awgn': {'rate': 1},
    'commpy.links.link_performance': {'send_chunk': None, 'code_rate': 1},
    'commpy.links.LinkModel.__init__': {'Es': 1, 'decoder': None, 'rate': 1},
    'commpy.links.LinkModel.link_performance_full_metrics': {
        'send_chunk': None, 'code_rate': 1, 'number_chunks_per_send': 1, 'stop_on_surpass_error': True},
    'commpy.links.LinkModel.link_performance': {'send_chunk': None, 'code_rate': 1},
    'commpy.wifi80211.Wifi80211.link_performance': {
        'send_chunk': None, 'frame_aggregation': 1, 'receiver': None, 'stop_on_surpass_error': True},
    'commpy.sequences.zcsequence': {'q': 0},
    P + 'convcode.Trellis.__init__': {'feedback': None, 'code_type': 'default', 'polynomial_format': 'MSB'},
    P + 'convcode.Trellis.visualize': {'trellis_length': 2, 'state_order': None, 'edge_colors': None,
                                       'save_path': None},
    P + 'convcode.Trellis.visualize_fsm': {'state_order': None, 'edge_colors': None, 'save_path': None},
    P + 'convcode.conv_encode': {'termination': 'term', 'puncture_matrix': None},
    P + 'convcode.viterbi_decode': {'tb_depth': None, 'decoding_type': 'hard'},
    P + 'turbo.map_decode': {'mode': 'decode'},
    P + 'turbo.turbo_decode': {'L_int': None},
    P + 'ldpc.get_ldpc_code_params': {'compute_matrix': False},
    P + 'ldpc.triang_ldpc_systematic_encode': {'pad': True},
}
ATTACHED = set()
# Functions which are documented to modify an array of their caller.
IN_PLACE = {P + 'ldpc.ldpc_bp_decode'}


def is_default(v, d):
    if v is None or d is None:
        return v is d
    if isinstance(d, tuple):
        return isinstance(v, tuple) and len(v) == len(d) and all(is_default(x, y) for x, y in zip(v, d))
    if isinstance(d, str):
        return isinstance(v, str) and v == d
    if isinstance(d, bool):
        return isinstance(v, bool) and v == d
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) and v == d


def call(target, a, k, b, defaults):
    """ The call itself, every second time without the arguments which have their default value. """
    drop = [n for n, d in defaults.items() if n in b.arguments and is_default(b.arguments[n], d)]
    if drop:
        case = STATE.case
        case.calls = getattr(case, 'calls', case.idx) + 1
        if case.calls % 2 and all(p.kind == p.POSITIONAL_OR_KEYWORD for p in b.signature.parameters.values()):
            STATE.event('default arguments left out')
            return target(**{n: v for n, v in b.arguments.items() if n not in drop})
    return target(*a, **k)


def leave_out_defaults():
    """ The functions without monitors are also called with their default arguments. """
    for dotted, defaults in DEFAULTS.items():
        if dotted not in ATTACHED:
            owner, attr, orig = resolve(dotted)

            def wrap(target, defaults):
                sig = inspect.signature(target)

                @functools.wraps(target)
                def wrapper(*a, **k):
                    if STATE.case is None:
                        return target(*a, **k)
                    return call(target, a, k, sig.bind(*a, **k), defaults)
                return wrapper
            if inspect.isclass(owner):
                setattr(owner, attr, wrap(orig, defaults))
            else:
                rebind(orig, wrap(orig, defaults))



def relayout(x, kind):
    """ An equal array with another layout in memory, or which refuses to be modified. """
    if type(x) is not np.ndarray or x.ndim == 0 or x.size == 0 or kind == 0:
        return x
    if kind == 1:  # every second element of a larger buffer
        buf = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        buf[..., 1::2] = x[..., ::-1]
        buf[..., ::2] = x
        return buf[..., ::2]
    if kind == 2:  # backwards
        return x[..., ::-1].copy()[..., ::-1]
    if kind == 3 and x.ndim > 1:  # columns first
        return np.array(x, order='F')
    y = x.copy()
    y.flags.writeable = False
    return y


def snapshot(x):
    """ Copy of an argument, deep enough for the oracles. """
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, (list, tuple, dict, set)):
        try:
            return copy.deepcopy(x)
        except Exception:  # noqa
            return x
    return x


def resolve(dotted):
    """ 'commpy.modulation.Modem.modulate' -> (owner, name, object) """
    parts = dotted.split('.')
    for i in range(len(parts) - 1, 0, -1):
        mod = '.'.join(parts[:i])
        if mod in sys.modules:
            owner = sys.modules[mod]
            for p in parts[i:-1]:
                owner = getattr(owner, p)
            return owner, parts[-1], inspect.getattr_static(owner, parts[-1])
    raise KeyError(dotted)


def attach(dotted, post=None, pre=None, exc=None, every=1, name=None):
    """ post(case, args, result, token), pre(case, args) -> token, exc(case, args, error, token);
    args is a dict with the bound arguments (copies taken before the call). """
    owner, attr, orig = resolve(dotted)
    name = name or dotted.split('.')[-1]
    target = orig
    try:
        sig = inspect.signature(target)
    except (TypeError, ValueError):
        sig = None
    count = [0]
    ATTACHED.add(dotted)
    defaults = DEFAULTS.get(dotted, {})

    @functools.wraps(target)
    def wrapper(*a, **k):
        if _inside[0] or STATE.case is None:
            return target(*a, **k)
        count[0] += 1
        if count[0] % every:
            return target(*a, **k)
        case = STATE.case
        STATE.event('call ' + name)
        b = sig.bind(*a, **k)  # a TypeError here would also have been raised by the call itself
        given = sig.bind(*a, **k)
        b.apply_defaults()
        for n, d in defaults.items():
            if n not in given.arguments:
                b.arguments[n] = d
        args = {n: (v if n == 'self' else snapshot(v)) for n, v in b.arguments.items()}
        if dotted not in IN_PLACE:
            case.layouts = getattr(case, 'layouts', case.idx) + 1
            if case.layouts % 3 == 0:
                for i, n in enumerate(list(given.arguments)):
                    v = given.arguments[n]
                    y = relayout(v, (case.layouts // 3 + i) % 5)
                    if y is not v:
                        STATE.event('arrays of other layouts')
                        given.arguments[n] = b.arguments[n] = y
                a, k = given.args, given.kwargs
        args['__live__'] = b.arguments
        token = None
        _inside[0] += 1
        try:
            token = pre(case, args) if pre else None
        finally:
            _inside[0] -= 1
        try:
            r = call(target, a, k, given, defaults)
        except Exception as e:
            if exc is not None:
                _inside[0] += 1
                try:
                    exc(case, args, e, token)
                finally:
                    _inside[0] -= 1
            raise
        if post is not None:
            _inside[0] += 1
            try:
                post(case, args, r, token)
                STATE.event('judged ' + name)
            finally:
                _inside[0] -= 1
        return r

    if inspect.isclass(owner):
        setattr(owner, attr, wrapper)
    else:
        rebind(orig, wrapper)
    return wrapper


def rebind(orig, new):
    """ Replace an object by another one in every namespace of the library. """
    n = 0
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname == 'commpy' or mname.startswith('commpy.')):
            continue
        for k, v in list(vars(mod).items()):
            if v is orig:
                setattr(mod, k, new)
                n += 1
    return n


class quiet:
    """ Context manager: calls made inside are not monitored. """

    def __enter__(self):
        _inside[0] += 1

    def __exit__(self, *a):
        _inside[0] -= 1
