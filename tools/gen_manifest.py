#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed as soon as its module exists in vf/props."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

T = {
    'C01': 'runtime monitors on the public functions, judging every call against arbitrary-precision definitions, under random, boundary and history workloads',
    'C02': 'runtime monitors on Modem (constellation, modulate, demodulate) with nearest-point and Gray oracles, under random constellations and reassignment histories',
    'C03': 'runtime monitor on soft demodulation with an extended-range log-likelihood oracle',
    'C04': 'runtime monitors on Trellis and conv_encode with a shift-register circuit simulator as oracle',
    'C05': 'runtime monitor on viterbi_decode with optimality (independent dynamic programming) and round-trip oracles',
    'C06': 'runtime monitor on map_decode with exhaustive-enumeration and log-domain BCJR oracles',
    'C07': 'runtime monitors on turbo_encode/turbo_decode with a circuit simulator and an independent iterative log-domain decoder as oracles',
    'C08': 'runtime monitors on LDPC readers, writers and encoder with a GF(2) parity oracle and file-system observation',
    'C09': 'runtime monitor on ldpc_bp_decode with a dense message-passing oracle and differential block executions',
    'C10': 'runtime monitors on GF operations with an independent GF(2^m) implementation as oracle',
    'C11': 'runtime monitor on cyclic_code_genpoly with an independent factorisation of x^n+1 as oracle',
    'C12': 'runtime monitors on interleavers (permutation, inverse, global random state) under operation histories',
    'C13': 'runtime monitors on propagate checking the conservation law output = gains * message + noise under reconfiguration histories',
    'C14': 'statistical runtime monitors (bounded false-alarm rate) on recorded noises',
    'C15': 'runtime monitors on fading configuration and statistical monitors on recorded gains under reconfiguration histories',
    'C16': 'runtime monitors on bec, bsc and awgn with exact and statistical oracles',
    'C17': 'runtime monitors on MIMO detectors with an exhaustive-search oracle',
    'C18': 'runtime monitors on max_log_approx, kbest and bit_lvl_repr with their definitions as oracles',
    'C19': 'runtime monitors on ofdm_tx/ofdm_rx with a direct DFT oracle and simulated dispersive channels',
    'C20': 'runtime monitors on filter functions with closed-form oracles (limits at singularities) and Nyquist checks',
    'C21': 'runtime monitors on pnsequence/zcsequence with LFSR simulation and formula oracles',
    'C22': 'runtime monitor on add_frequency_offset with a high-precision phase oracle',
    'C23': 'online trace monitor of link simulations (every message, transmission, reception and decoding) recomputing the reported counts',
    'C24': 'online trace monitor of every detector, decoder and decision call of the iterative receiver',
    'C25': 'online trace monitor of WiFi simulations (messages, channel input, decoded bits, counts) against an 802.11 reference encoder',
    'C26': 'runtime monitors on puncturing/depuncturing with definitions as oracles',
    'C27': 'aliasing and mutation monitors on all public calls, poisoned allocations (uninitialised-memory sanitizer), differential executions under different histories',
    'C28': 'global random state monitor on all public calls and differential re-executions in and across processes',
    'C29': 'statistical monitor of the bit errors at the link boundary against theory',
    'C30': 'runtime monitors of the artists of each figure drawn, compared with the tables of the object',
}
NOTE = ('Assurance is that of the executions observed: seeded workloads over 8 processes whose reach (events, distinct cases) is in the '
        'evidence file. Trusted: PyPy, NumPy, SciPy and the oracles in /verif/vf, which are written independently of '
        'the code under test. ')
EXTRA = {
    'C05': 'Optimality is judged up to ties; traceback lengths from five constraint lengths are used for round trips.',
    'C14': 'Statistical: thresholds at 7 standard deviations, deterministic for a given VERIF_SEED.',
    'C15': 'Statistical part: thresholds at 7 standard deviations, deterministic for a given VERIF_SEED.',
    'C16': 'Statistical part: thresholds at 7 standard deviations, deterministic for a given VERIF_SEED.',
    'C29': 'Statistical: thresholds at 7 standard deviations, deterministic for a given VERIF_SEED.',
    'C11': 'Bounded to lengths whose enumeration is feasible (n <= 63 and splitting fields up to GF(2^12)).',
}
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(root, 'vf', 'props', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': './run_check.sh %s --tier quick' % p,
                       'thorough_cmd': './run_check.sh %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'exploration',
                       'level_note': NOTE + EXTRA.get(p, '')})
    else:
        na.append({'property': p, 'reason': 'not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hook is needed in /repo: the monitors wrap the public functions from '
                                          'outside', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
