"""Brings up the library under test inside a worker process.

* the code comes from the working tree named by VF_REPO (/repo by default);
* numpy.empty and numpy.empty_like are replaced *before* commpy is imported by versions which fill the memory they
  return with a poison pattern (a MemorySanitizer for NumPy buffers: any element which is read before being written
  gives NaN, an absurd index or an absurd value, deterministically);
* matplotlib draws nowhere.
"""
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

_real_empty = np.empty
_real_empty_like = np.empty_like


class Poison:
    """ The pattern written in uninitialised buffers. Modes give different patterns for differential runs. """
    mode = 0
    buffers = 0

    @classmethod
    def fill(cls, a):
        cls.buffers += 1
        kind = a.dtype.kind
        m = cls.mode
        if kind == 'f':
            a.fill((np.nan, 1e30, -3.75, 0.0)[m])
        elif kind == 'c':
            a.fill((complex(np.nan, np.nan), 1e30 - 1e30j, -3.75 + 2.5j, 0j)[m])
        elif kind == 'i':
            a.fill((0x5a5a5a5a5a5a5a5a >> (64 - 8 * a.dtype.itemsize), 1, -1, 0)[m])
        elif kind == 'u':
            a.fill((0x5a5a5a5a5a5a5a5a >> (64 - 8 * a.dtype.itemsize), 1, 3, 0)[m])
        elif kind == 'b':
            a.fill((True, True, False, False)[m])
        return a


def _empty(*args, **kwargs):
    return Poison.fill(_real_empty(*args, **kwargs))


def _empty_like(*args, **kwargs):
    return Poison.fill(_real_empty_like(*args, **kwargs))


np.empty = _empty
np.empty_like = _empty_like

import commpy  # noqa: E402
import commpy.channelcoding  # noqa: E402
import commpy.channelcoding.algcode  # noqa: E402
import commpy.channelcoding.convcode  # noqa: E402
import commpy.channelcoding.gfields  # noqa: E402
import commpy.channelcoding.interleavers  # noqa: E402
import commpy.channelcoding.ldpc  # noqa: E402
import commpy.channelcoding.turbo  # noqa: E402
import commpy.channels  # noqa: E402
import commpy.filters  # noqa: E402
import commpy.impairments  # noqa: E402
import commpy.links  # noqa: E402
import commpy.modulation  # noqa: E402
import commpy.sequences  # noqa: E402
import commpy.utilities  # noqa: E402
import commpy.wifi80211  # noqa: E402

if not os.path.abspath(commpy.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write('commpy was imported from %s\n' % commpy.__file__)
    sys.exit(4)
