"""P28 Resumed training continues exactly where it stopped."""
import contextlib
import io
import os
import random
import re
import tempfile

import numpy as np
import torch

from vf import crash
from vf.core import Family
from vf.train import (Boom, Cfg, Log, Stop, fit, seeds, snapshot, state,
                      stored, trainer)

RULE = 'distinct training configurations and interruption points'
ALL = ['toy', 'toy', 'numpy', 'pytorch', 'net', 'torch_quantum', 'pennylane']
REQUIRED = ['toy', 'numpy', 'pytorch', 'net', 'torch_quantum', 'pennylane',
            'SPSAOptimizer', 'NelderMeadOptimizer', 'RotosolveOptimizer',
            'AdamW', 'Adam', 'SGD', 'Adagrad', 'two_parts', 'three_parts',
            'exception', 'interrupt', 'death', 'best', 'best_not_last',
            'best_before_resuming', 'stopped_early', 'tie', 'ran_to_the_end',
            'maximise', 'metric_criterion', 'uneven_interval', 'no_val',
            'unseeded', 'shuffled', 'weighted_mean', 'same_seed',
            'metrics_on_train', 'adaptive', 'bounded', 'more_epochs',
            'converging', 'reported', 'reported_best', 'reported_resumed',
            'reported_best_resumed']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)
    # the default lock is shared with processes that are made to die
    import threading
    from tqdm.auto import tqdm
    tqdm.set_lock(threading.RLock())


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()) as out:
        yield out


def same(c, a, b, mech, tol):
    c.eq(sorted(a), sorted(b), mech + '-keys')
    for k in a:
        if k == 'symbols':
            c.eq(a[k], b[k], f'{mech}-symbols')
            continue
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        c.check(x.shape == y.shape and np.allclose(
            x, y, rtol=tol, atol=tol, equal_nan=True),
            f'{mech}:{k.split(":")[0]}', lambda: f'{k}: {x} != {y}')


def tolerance(cfg):
    return 2e-4 if cfg.torch else 1e-7


def straight(c, cfg, folder):
    os.makedirs(folder, exist_ok=True)
    seeds(11)
    log = Log(cfg)
    with quiet() as out:
        t = trainer(cfg, log, cfg.epochs, folder)
        first = snapshot(t.model)
        fit(cfg, log, t)
    if cfg.verbose == 'text':
        printed(c, cfg, t, out.getvalue(), folder)
    if not (np.abs(t.train_costs) < 1e6).all():
        c.skip('diverged')
    return t, log, first


def printed(c, cfg, t, text, folder, start=0):
    """What was reported on the way is what happened."""
    per = per_epoch(cfg)
    gap = cfg.every * cfg.interval * (per if cfg.mode == 'epoch' else 1)
    found = re.findall(r'^(Epoch|Step) (\d+): +(.*)$', text, re.M)
    steps = [s for s in range(gap, len(t.train_costs) + 1, gap)
             if s > start]
    c.eq([(k, int(n)) for k, n, _ in found],
         [('Step', s) if cfg.mode == 'step' else ('Epoch', -(-s // per))
          for s in steps], 'reported-steps')
    for (_, _, line), step in zip(found, steps):
        got = dict(re.findall(r'(\S+): (\S+)', line))
        want = {'train/loss': t.train_costs[step - 1]}
        i = step // (gap // cfg.every) - 1
        if cfg.n_val:
            want['valid/loss'] = t.val_costs[i]
        for m in ['acc', 'mean'][:cfg.evals]:
            if cfg.n_val:
                want[f'valid/{m}'] = t.val_eval_results[m][i]
            if cfg.on_train:
                want[f'train/{m}'] = t.train_eval_results[m][i]
        for k, v in want.items():
            c.eq(got.get(k), f'{v:.4f}', 'reported-value')
        c.ev('reported_resumed' if start else 'reported')
    hit = re.search(r'Best model \(epoch=(\d+), step=(\d+)\)', text)
    if hit:
        kept = stored(folder, 'best_model.lt')
        c.eq([int(x) for x in hit.groups()],
             [int(kept['epoch']), int(kept['step'])], 'reported-best')
        c.ev('reported_best_resumed' if start else 'reported_best')


def disturb(c):
    """Whatever else goes on between the parts."""
    seeds(c.int(0, 10**6))
    random.random()
    np.random.random(3)
    torch.rand(2)


def note(c, cfg):
    c.ev(cfg.kind)
    c.ev(cfg.opt.__name__)
    if cfg.seed is None:
        c.ev('unseeded')
    if cfg.shuffle:
        c.ev('shuffled')
    if not cfg.n_val:
        c.ev('no_val')
    if not cfg.torch and cfg.hyper.get('adaptive'):
        c.ev('adaptive')
    if not cfg.torch and 'xatol' in cfg.hyper:
        c.ev('converging')
    if not cfg.torch and cfg.bounded:
        c.ev('bounded')


def per_epoch(cfg):
    return -(-cfg.n // (cfg.batch or cfg.n))


def judge(c, cfg, t, log, folder):
    """The record of one run against the definitions."""
    steps_epoch = per_epoch(cfg)
    every = cfg.interval * (steps_epoch if cfg.mode == 'epoch' else 1)
    steps = len(t.train_costs)
    if every % steps_epoch:
        c.ev('uneven_interval')
    evals = steps // every
    c.eq(len(t.val_costs), evals if cfg.n_val else 0, 'val-count')
    c.eq(len(t.train_epoch_costs), -(-steps // steps_epoch), 'epoch-count')
    c.eq(len(t.train_epoch_durations), len(t.train_epoch_costs), 'durations')
    c.eq(len(t.train_durations), steps, 'durations')
    if cfg.evals:
        for n in ['acc', 'mean'][:cfg.evals]:
            c.eq(len(t.val_eval_results[n]), evals if cfg.n_val else 0,
                 'val-metrics')
            c.eq(len(t.train_eval_results[n]),
                 evals if cfg.on_train else 0, 'train-metrics')
    # sizes of the batches of each epoch
    size = cfg.batch or cfg.n
    sizes = [min(size, cfg.n - i) for i in range(0, cfg.n, size)]
    for e, cost in enumerate(t.train_epoch_costs):
        part = t.train_costs[e * steps_epoch:(e + 1) * steps_epoch]
        want = np.average(part, weights=sizes[:len(part)])
        c.check(abs(cost - want) < 1e-6, 'epoch-cost',
                lambda: f'{cost} != {want}')
    c.ev('weighted_mean')
    # validation losses
    if cfg.n_val:
        vsize = cfg.vbatch or cfg.n_val
        k = -(-cfg.n_val // vsize)
        vals = [x for x in log.losses if x[0]]
        c.eq(len(vals), k * evals, 'val-batches')
        for i, cost in enumerate(t.val_costs):
            part = vals[i * k:(i + 1) * k]
            want = (sum(n * v for _, n, v in part)
                    / sum(n for _, n, _ in part))
            c.check(abs(cost - want) < 1e-6, 'val-cost',
                    lambda: f'{cost} != {want}')
        for m in ['acc', 'mean'][:cfg.evals]:
            seen = [x for x in log.metrics if x[0] == m and x[1]]
            for i, cost in enumerate(t.val_eval_results[m]):
                part = seen[i * k:(i + 1) * k]
                want = (sum(x[2] * x[3] for x in part)
                        / sum(x[2] for x in part))
                c.check(abs(cost - want) < 1e-6, 'val-metric',
                        lambda: f'{cost} != {want}')
    for m in ['acc', 'mean'][:cfg.evals if cfg.on_train else 0]:
        seen = [x for x in log.metrics if x[0] == m and not x[1]]
        c.eq(len(seen), steps, 'train-metric-calls')
        c.ev('metrics_on_train')
        for i, cost in enumerate(t.train_eval_results[m]):
            part = seen[i * every:(i + 1) * every]
            want = (sum(x[2] * x[3] for x in part)
                    / sum(x[2] for x in part))
            c.check(abs(cost - want) < 1e-6, 'train-metric',
                    lambda: f'{cost} != {want}')
    best(c, cfg, t, log, folder, every, steps_epoch)


def best(c, cfg, t, log, folder, every, steps_epoch):
    kept = stored(folder, 'best_model.lt')
    last = stored(folder, 'model.lt')
    c.check(last is not None, 'no-checkpoint', 'model.lt is missing')
    c.eq(float(last['epoch']), float(len(t.train_epoch_costs)), 'last-epoch')
    c.eq(float(last['step']), float(len(t.train_costs)), 'last-step')
    n = len(last['weights'])
    c.check(np.array_equal(last['weights'], snapshot(t.model)[:n]),
            'last-weights')
    if cfg.crit:
        c.ev('metric_criterion')
    if not cfg.minimize:
        c.ev('maximise')
    hist = t.val_eval_results[cfg.crit] if cfg.crit else t.val_costs
    hist = [h if cfg.minimize else -h for h in hist]
    if not hist:
        c.check(kept is None, 'best-without-validation', 'a best model')
        return
    i = int(np.argmin(hist))
    c.ev('best')
    c.check(kept is not None, 'no-best', 'best_model.lt is missing')
    if i < len(hist) - 1:
        c.ev('best_not_last')
    c.eq(float(kept['step']), float((i + 1) * every), 'best-step')
    c.eq(float(kept['epoch']),
         float(-(-(i + 1) * every // steps_epoch)), 'best-epoch')
    c.eq(len(kept['val_costs']), i + 1, 'best-history')
    if cfg.evals:
        k = -(-cfg.n_val // (cfg.vbatch or cfg.n_val))
        seen = [x for x in log.metrics if x[0] == 'acc' and x[1]]
        w = seen[(i + 1) * k - 1][4][:n]
        c.check(np.array_equal(kept['weights'], w), 'best-weights',
                lambda: f'{kept["weights"]} != {w}')
    # early stopping
    stop = None
    if cfg.stop:
        for j in range(len(hist)):
            top = int(np.argmin(hist[:j + 1]))
            if j - top >= cfg.stop:
                stop = j
                break
            if j and hist[j] == hist[top] and top < j:
                c.ev('tie')
    steps = len(t.train_costs)
    if stop is None:
        c.eq(steps, cfg.epochs * steps_epoch, 'stopped-too-early')
        c.ev('ran_to_the_end')
    else:
        c.eq(steps, (stop + 1) * every, 'stopped-too-late')
        c.ev('stopped_early')


def fam_straight(kinds):
    def fn(c):
        cfg = Cfg(c, kinds)
        note(c, cfg)
        with tempfile.TemporaryDirectory() as tmp:
            t, log, first = straight(c, cfg, tmp)
            judge(c, cfg, t, log, tmp)
            want = state(t)
            with tempfile.TemporaryDirectory() as tmp2:
                disturb(c)
                t2, _, first2 = straight(c, cfg, tmp2)
                c.check(np.array_equal(first, first2), 'initial-weights')
                same(c, want, state(t2), 'same-seed', tolerance(cfg))
                c.ev('same_seed')
    return fn


def finished(cfg, t, epochs):
    return (len(t.train_epoch_costs) < epochs
            or len(t.train_costs) < epochs * per_epoch(cfg))


def compare(c, cfg, t, t0, tmp, tmp0, log=None):
    tol = tolerance(cfg)
    same(c, state(t0), state(t), 'resumed', tol)
    for name in ('model.lt', 'best_model.lt'):
        a, b = stored(tmp0, name), stored(tmp, name)
        c.check((a is None) == (b is None), f'resumed-{name}',
                lambda: f'{a} {b}')
        if a is not None:
            same(c, a, b, f'resumed-{name}', tol)


def resume(c, cfg, epochs, tmp):
    disturb(c)
    log = Log(cfg)
    with quiet() as out:
        t = trainer(cfg, log, epochs, tmp, resume=True)
        if c.p(.3) and cfg.seed is None:
            disturb(c)
        fit(cfg, log, t)
    if cfg.verbose == 'text':
        printed(c, cfg, t, out.getvalue(), tmp, t.start_step)
    return t


def fam_parts(kinds):
    def fn(c):
        cfg = Cfg(c, kinds)
        note(c, cfg)
        with (tempfile.TemporaryDirectory() as tmp0,
              tempfile.TemporaryDirectory() as tmp):
            t0, _, _ = straight(c, cfg, tmp0)
            done = len(t0.train_epoch_costs)
            if done < 2:
                c.skip('stopped at once')
            cuts = sorted(c.rng.sample(range(1, done), min(
                done - 1, c.choice([1, 1, 2]))))
            c.note(cuts=cuts)
            c.sig(tuple(cuts))
            c.ev('two_parts' if len(cuts) == 1 else 'three_parts')
            c.ev('more_epochs')
            hist = (t0.val_eval_results[cfg.crit] if cfg.crit
                    else t0.val_costs)
            total = cfg.epochs
            cfg.epochs = cuts[0]
            straight(c, cfg, tmp)
            cfg.epochs = total
            b = stored(tmp, 'best_model.lt')
            b0 = stored(tmp0, 'best_model.lt')
            if b and b0 and b['step'] == b0['step'] and len(hist) > len(
                    b['val_costs']):
                c.ev('best_before_resuming')
            for e in cuts[1:] + [total]:
                t = resume(c, cfg, e, tmp)
            compare(c, cfg, t, t0, tmp, tmp0)
    return fn


def fam_crash(kinds):
    """Training fails or is interrupted in the middle."""
    def fn(c):
        cfg = Cfg(c, kinds)
        note(c, cfg)
        with (tempfile.TemporaryDirectory() as tmp0,
              tempfile.TemporaryDirectory() as tmp):
            t0, log0, _ = straight(c, cfg, tmp0)
            if len(t0.train_epoch_costs) < 2:
                c.skip('stopped at once')
            at = c.int(1, len(log0.losses) - 1)
            kind = c.choice([Boom, Stop])
            c.note(at=at)
            c.sig(at)

            def act():
                raise kind('at this point')
            log = Log(cfg, at, act)
            seeds(11)
            try:
                with quiet():
                    fit(cfg, log, trainer(cfg, log, cfg.epochs, tmp))
            except (Boom, Stop):
                pass
            else:
                c.skip('not reached')
            if not os.path.exists(os.path.join(tmp, 'model.lt')):
                c.skip('nothing saved')
            c.ev('exception' if kind is Boom else 'interrupt')
            t = resume(c, cfg, cfg.epochs, tmp)
            compare(c, cfg, t, t0, tmp, tmp0)
    return fn


def fam_death(c):
    """The process dies, at any point of the run."""
    cfg = Cfg(c, ['toy'])
    note(c, cfg)
    with (tempfile.TemporaryDirectory() as tmp0,
          tempfile.TemporaryDirectory() as tmp):
        t0, _, _ = straight(c, cfg, tmp0)
        if len(t0.train_epoch_costs) < 2:
            c.skip('stopped at once')

        def run():
            straight(c, cfg, tmp)

        def count():
            with tempfile.TemporaryDirectory() as t:
                straight(c, cfg, t)
        total = crash.count(count)
        at = c.int(total // 4, total - 1)
        c.note(at=at / total)
        c.sig(at)
        how = crash.forked(crash.dying_at(run, at))
        if how == 'ok' or not os.path.exists(os.path.join(tmp, 'model.lt')):
            c.skip('nothing to resume')
        c.check(how == 'died', 'crash', how)
        c.ev('death')
        last = stored(tmp, 'model.lt')
        if last['epoch'] >= len(t0.train_epoch_costs):
            c.skip('died when done')
        t = resume(c, cfg, cfg.epochs, tmp)
        compare(c, cfg, t, t0, tmp, tmp0)


FAMILIES = [
    Family('straight', fam_straight(ALL[:5]), 150),
    Family('straight_torch_q', fam_straight(ALL[5:]), 14),
    Family('parts', fam_parts(ALL[:5]), 200),
    Family('parts_torch_q', fam_parts(ALL[5:]), 16),
    Family('crash', fam_crash(ALL[:5]), 120),
    Family('crash_torch_q', fam_crash(ALL[5:]), 8),
    Family('death', fam_death, 60),
]
