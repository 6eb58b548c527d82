"""Trace of the simulation of a link: every message, transmission, reception and decoding, in order."""
from inspect import getfullargspec

import numpy as np

from .core import STATE


class Trace:
    """ Listens to a link model from its boundary: the functions it was given and the channel it uses. """

    def __init__(self, model):
        self.model = model
        self.sends = []
        self.before = {k: getattr(model, k) for k in ('modulate', 'receive', 'decoder')}
        self.channel = model.channel
        self.names = getfullargspec(model.decoder).args
        model.modulate = self.modulate
        model.receive = self.receive
        full = len(self.names) > 1
        if full:
            def decoder(y, h, constellation, noise_var, array, bits_per_send):
                return self.decode((y, h, constellation, noise_var, array, bits_per_send))
        else:
            def decoder(array):
                return self.decode((array,))
        model.decoder = decoder
        self.full = full
        self.propagate_ = self.channel.propagate
        self.channel.propagate = self.propagate

    def stop(self):
        for k, v in self.before.items():
            setattr(self.model, k, v)
        del self.channel.propagate

    def modulate(self, msg):
        s = {'msg': np.array(msg), 'receive': []}
        self.sends.append(s)
        STATE.event('message')
        r = self.before['modulate'](msg)
        s['symbols'] = np.array(r)
        return r

    def last(self):
        if not self.sends:
            STATE.case.fail('the link used the channel or the receiver before sending anything')
        return self.sends[-1]

    def propagate(self, x):
        s = self.last()
        if 'input' in s:
            STATE.case.fail('a message was transmitted twice')
        s['input'] = np.array(x)
        s['noise_std'] = self.channel.noise_std
        r = self.propagate_(x)
        s['output'] = np.array(r)
        s['gains'] = np.array(self.channel.channel_gains)
        STATE.event('transmission')
        return r

    def receive(self, y, h, constellation, noise_var):
        s = self.last()
        r = self.before['receive'](y, h, constellation, noise_var)
        s['receive'].append((np.array(y), np.array(h), np.array(constellation), noise_var, np.array(r)))
        STATE.event('reception')
        return r

    def decode(self, args):
        s = self.last()
        if 'decoded' in s:
            STATE.case.fail('a message was decoded twice')
        s['args'] = tuple(np.array(a) for a in args)
        r = self.before['decoder'](*args)
        s['decoded'] = np.array(r)
        STATE.event('decoding')
        return r


def chunk_size(model, rate, asked):
    """ largest multiple, not above the one asked for, which fills whole symbol vectors (at least one) """
    per = model.num_bits_symbol * model.channel.nb_tx
    d = 1
    while (d / rate / per).denominator != 1:
        d += 1
    return max(d, asked // d * d)


def check_send(c, model, s, snr, rate, n):
    """ one transmission went from the message to its decoding without mix-up """
    ch = model.channel
    for k in ('input', 'decoded'):
        c.check(k in s, 'a message was not ' + ('transmitted' if k == 'input' else 'decoded'), msg=s['msg'])
    msg = s['msg']
    c.check(msg.shape == (n,), 'wrong size of message', size=msg.shape, want=n)
    c.check(np.all((msg == 0) | (msg == 1)), 'the message is not made of bits', msg=msg)
    c.equal(s['input'], s['symbols'], 'the channel did not get the modulated symbols')
    std = np.sqrt((ch.isComplex + 1) * ch.nb_tx * float(model.Es) / (float(rate) * 10 ** (float(snr) / 10)))
    c.close(s['noise_std'], std, 'the channel was not set to this SNR with the rate and energy of the link', rtol=1e-9,
            atol=0, snr=snr, rate=rate)
    const = np.asarray(model.constellation)
    got = []
    if s['gains'].ndim == 1 or s['output'].ndim == 1:
        c.check(len(s['receive']) == 1, 'the receiver was not called once', calls=len(s['receive']))
        pieces = [(s['output'], s['gains'])]
    else:
        c.check(len(s['receive']) == len(s['output']), 'the receiver was not called once per vector',
                calls=len(s['receive']), vectors=len(s['output']))
        pieces = list(zip(s['output'], s['gains']))
    for i, ((y, h, k, nv, r), (wy, wh)) in enumerate(zip(s['receive'], pieces)):
        c.equal(y, wy, 'the receiver did not get the output of the channel', vector=i)
        c.equal(h, wh, 'the receiver did not get the gains of the channel', vector=i)
        c.equal(k, const, 'the receiver did not get the constellation')
        c.close(nv, s['noise_std'] ** 2, 'the receiver did not get the noise variance', rtol=1e-12, atol=0)
        got.append(np.asarray(r).reshape(-1))
    got = np.concatenate(got)
    a = s['args']
    if len(a) > 1:
        c.equal(a[0], s['output'], 'the decoder did not get the output of the channel')
        c.equal(a[1], s['gains'], 'the decoder did not get the gains of the channel')
        c.equal(a[2], const, 'the decoder did not get the constellation')
        c.close(a[3], s['noise_std'] ** 2, 'the decoder did not get the noise variance', rtol=1e-12, atol=0)
        c.equal(a[5], ch.nb_tx * model.num_bits_symbol, 'the decoder did not get the number of bits per vector')
        r = a[4]
    else:
        r = a[0]
    c.equal(np.asarray(r).reshape(-1).astype(float), got.astype(float), 'the decoder did not get what was received')


def errors(s, n):
    """ positions of the errors among the n bits of the message """
    d = s['decoded'].reshape(-1)[:n].astype(int)
    return np.nonzero(d != s['msg'].astype(int))[0]


def judge_bers(c, model, sends, snrs, send_max, err_min, n, rate, result):
    """ link_performance """
    want, pos = [], 0
    for i, snr in enumerate(snrs):
        bits = errs = 0
        while bits < send_max and errs < err_min:
            c.check(pos < len(sends), 'the simulation of an SNR stopped too early', snr=snr, bits=bits, errors=errs,
                    send_max=send_max, err_min=err_min)
            check_send(c, model, sends[pos], snr, rate, n)
            errs += len(errors(sends[pos], n))
            bits += n
            pos += 1
            if len(sends) > pos and c.info.get('dup') is None and np.array_equal(sends[pos]['msg'], sends[pos - 1]['msg']) \
                    and n > 60:
                c.fail('the same message was sent twice')
        want.append(errs / bits)
        STATE.event('snr judged')
        if errs < err_min:
            break
    c.check(pos == len(sends), 'more transmissions than requested', sent=len(sends), judged=pos, snrs=snrs,
            send_max=send_max, err_min=err_min)
    want += [0.] * (len(snrs) - len(want))
    c.close(np.asarray(result, float), np.array(want), 'wrong bit error rates', rtol=1e-12, atol=1e-15)


def judge_full(c, model, sends, snrs, tx_max, err_min, n, per, rate, stop, result):
    """ link_performance_full_metrics """
    pos = 0
    c.check(len(result) == 4, 'not four arrays')
    bers, bes, ces, ncs = (np.asarray(r) for r in result)
    shape = (len(snrs), tx_max)
    wb, we, wc, wn = np.zeros(len(snrs)), np.zeros(shape, int), np.zeros(shape, int), np.zeros(shape, int)
    for i, snr in enumerate(snrs):
        k = total = 0
        while k < tx_max and not (stop and total > err_min):
            c.check(pos < len(sends), 'the simulation of an SNR stopped too early', snr=snr, sent=k, errors=total,
                    tx_max=tx_max, err_min=err_min)
            check_send(c, model, sends[pos], snr, rate, n * per)
            e = errors(sends[pos], n * per)
            we[i, k] = len(e)
            wc[i, k] = len(set(int(v) // n for v in e))
            wn[i, k] = per
            total += len(e)
            k += 1
            pos += 1
        wb[i] = total / (k * n * per)
        STATE.event('snr judged')
        if total < err_min:
            break
    c.check(pos == len(sends), 'more transmissions than requested', sent=len(sends), judged=pos)
    c.equal(bes, we, 'wrong numbers of bit errors')
    c.equal(ces, wc, 'wrong numbers of chunk errors')
    c.equal(ncs, wn, 'wrong numbers of chunks')
    c.close(bers, wb, 'wrong bit error rates', rtol=1e-12, atol=1e-15)
