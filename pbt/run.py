"""Run the check of a property: `python -m pbt.run <ID>`."""

import argparse
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import shutil
import sys
import tempfile
import time
import traceback

from pbt.core import Violation, run_case, spec_hash, spec_key

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Wall-clock budget of all sub-checks together. It only bounds a run on a slow machine: what it
# leaves out is inconclusive and is said so in the evidence.
BUDGET = {'quick': 200., 'thorough': 780.}
SHRINK_BUDGET = 25.
MEMORY_LIMIT = 6 * 2**30

# A sub-check is searched from several seeds, by processes of their own
MAX_SHARDS = 8
MIN_CASES = 20
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))


class OutOfTime(BaseException):
    pass


class Stats:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.wall_s = 0.

    def add(self, spec, ctx):
        self.evaluations += 1
        for label in set(ctx.labels):
            self.labels[label] = self.labels.get(label, 0) + 1
        if ctx.is_nontrivial:
            key = spec_hash(spec)
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                n = len(self.nontrivial)
                # Early cases are small, so also keep some later ones
                if n in (3, 20, 100):
                    self.samples.append({'subcheck': self.name, 'spec': spec, 'classes': ctx.labels})


    def merge(self, other):
        self.evaluations += other.evaluations
        self.skipped += other.skipped
        self.nontrivial |= other.nontrivial
        for label, n in other.labels.items():
            self.labels[label] = self.labels.get(label, 0) + n
        self.samples.extend(other.samples)
        self.wall_s = round(self.wall_s + other.wall_s, 2)


class Failure:
    def __init__(self, sub, spec, message, history):
        self.sub = sub
        self.spec = spec
        self.message = message
        self.history = history


def sub_seed(seed, name):
    return int.from_bytes(hashlib.sha256(('%s:%s' % (seed, name)).encode()).digest()[:7], 'big')


def search(sub, seed, num, deadline, root, stats):
    """Search for a spec that breaks the property. Returns a Failure or None."""

    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    failing = {}
    history = []
    state = {'first': None, 'last': None, 'harness': None}

    def body(spec):
        now = time.monotonic()
        key = spec_key(spec)

        if state['harness'] is not None:
            return
        if state['first'] is None:
            if now > deadline:
                raise OutOfTime()
        elif key not in failing and now > state['first'] + SHRINK_BUDGET:
            return

        if key in failing and state['first'] is not None and now > state['first'] + SHRINK_BUDGET:
            state['last'] = spec
            raise Violation(failing[key])

        try:
            ctx = run_case(sub, spec, root)
        except Violation as exc:
            if state['first'] is None:
                state['first'] = time.monotonic()
                state['history'] = list(history)
            failing[key] = str(exc)
            state['last'] = spec
            raise
        except Exception:
            state['harness'] = (spec, traceback.format_exc())
            return
        if state['first'] is None:
            stats.add(spec, ctx)
            history.append(spec)
            del history[:-5]

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=num, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(sub_seed(seed, sub.name))(test)

    try:
        test()
    except OutOfTime:
        stats.skipped += num - stats.evaluations
    except Exception:
        if state['harness'] is None and state['first'] is None:
            raise
    if state['harness'] is not None:
        spec, trace = state['harness']
        raise RuntimeError("harness error in %s for spec %s\n%s" % (sub.name, spec_key(spec), trace))
    if state['first'] is None:
        return None

    # The library ends on its smallest failing example
    spec = state['last']
    return Failure(sub, spec, failing[spec_key(spec)], state['history'])


def work(task, deadline, root, path):
    """Search in a process of its own and leave the result in a file."""

    sub, seed, num = task
    begin = time.monotonic()
    stats = Stats(sub.name)
    os.makedirs(root)
    os.chdir(root)
    failure, trace = None, None
    try:
        if begin > deadline:
            stats.skipped += num
        else:
            failure = search(sub, seed, num, deadline, root, stats)
    except Exception:
        trace = traceback.format_exc()
    stats.wall_s = time.monotonic() - begin
    found = None if failure is None else (failure.spec, failure.message, failure.history)
    with open(path + '.part', 'wb') as fp:
        pickle.dump((stats, found, trace), fp)
    os.rename(path + '.part', path)


def search_all(tasks, deadline, root, all_stats):
    """Run the tasks in parallel until one fails. Returns a Failure or None."""

    context = multiprocessing.get_context('fork')
    waiting = list(enumerate(tasks))
    running = {}
    try:
        while waiting or running:
            while waiting and len(running) < WORKERS:
                i, task = waiting.pop(0)
                path = os.path.join(root, 'result%d' % i)
                process = context.Process(target=work, args=(task, deadline, os.path.join(root, 'w%d' % i), path))
                process.start()
                running[i] = (process, task, path)
            multiprocessing.connection.wait([p.sentinel for p, _, _ in running.values()], timeout=5.)
            for i in [i for i, (p, _, _) in running.items() if not p.is_alive()]:
                process, task, path = running.pop(i)
                process.join()
                if not os.path.exists(path):
                    raise RuntimeError("the search of %s ended with %r" % (task[0].name, process.exitcode))
                with open(path, 'rb') as fp:
                    stats, found, trace = pickle.load(fp)
                os.remove(path)
                shutil.rmtree(os.path.join(root, 'w%d' % i), ignore_errors=True)
                if trace is not None:
                    raise RuntimeError(trace)
                all_stats[stats.name].merge(stats)
                if found is not None:
                    return Failure(task[0], *found)
    finally:
        for process, _, _ in running.values():
            process.kill()
        for process, _, _ in running.values():
            process.join()
    return None


def replay(prop, subs, path, root):
    with open(path) as fp:
        doc = json.load(fp)
    sub = {s.name: s for s in subs}[doc['subcheck']]
    for spec in doc.get('history', []):
        try:
            run_case(sub, spec, root)
        except Violation:
            pass
    try:
        run_case(sub, doc['spec'], root)
    except Violation as exc:
        print("subcheck %s: %s" % (sub.name, exc))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property %s holds for %s" % (prop, path))
    return 0


def save_failure(prop, failure, root):
    """Write the replay file, with the cases before it if it needs them to fail."""

    alone = False
    try:
        run_case(failure.sub, failure.spec, root)
    except Violation as exc:
        alone = True
        failure.message = str(exc)

    doc = {
        'property': prop,
        'subcheck': failure.sub.name,
        'spec': failure.spec,
        'message': failure.message,
        'history': [] if alone else failure.history,
    }
    directory = os.path.join(HERE, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s-%s.json' % (prop, failure.sub.name))
    with open(path, 'w') as fp:
        json.dump(doc, fp, indent=1, sort_keys=True)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()

    start = time.monotonic()
    replay_path = args.replay and os.path.abspath(args.replay)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    root = tempfile.mkdtemp(prefix='pbt-%s-' % args.prop)
    os.chdir(root)

    def report(failure):
        path = save_failure(args.prop, failure, root)
        print("subcheck %s failed for\n  %s\n%s" % (failure.sub.name, spec_key(failure.spec)[:4000], failure.message))
        print("VIOLATION property=%s replay=%s" % (args.prop, path), flush=True)

    try:
        import strata
        import droplets
        for package in (strata, droplets):
            if not os.path.realpath(package.__file__).startswith('/repo/'):
                raise RuntimeError("the code under test is not /repo: %s" % package.__file__)

        module = importlib.import_module('pbt.props.%s' % args.prop.lower())

        if args.replay:
            return replay(args.prop, module.SUBS, replay_path, root)

        subs = [s for s in module.SUBS if not args.only or s.name == args.only]
        budget = BUDGET[args.tier]
        all_stats = {sub.name: Stats(sub.name) for sub in subs}
        tasks = []
        for sub in subs:
            num = max(1, int((sub.quick if args.tier == 'quick' else sub.thorough) * args.scale))
            shards = max(1, min(MAX_SHARDS, num // MIN_CASES))
            for k in range(shards):
                tasks.append((k, (sub, '%d/%d' % (args.seed, k), (num + k) // shards)))
        # The first searches of all sub-checks come before the second ones
        tasks = [task for _, task in sorted(tasks, key=lambda t: t[0])]
        failure = search_all(tasks, start + budget, root, all_stats)
        all_stats = list(all_stats.values())
        if args.verbose:
            for s in all_stats:
                print(s.name, s.evaluations, len(s.nontrivial), s.skipped, s.wall_s, s.labels)
        if failure is not None:
            report(failure)

        coverage = {
            'evaluations': sum(s.evaluations for s in all_stats),
            'distinct_nontrivial': sum(len(s.nontrivial) for s in all_stats),
            'rule': module.RULE,
            'samples': [x for s in all_stats for x in (s.samples[-1:] or [])] or ['no non-trivial case was reached'],
            'subchecks': {
                s.name: {
                    'evaluations': s.evaluations,
                    'distinct_nontrivial': len(s.nontrivial),
                    'not_run_for_time': s.skipped,
                    'classes': dict(sorted(s.labels.items())),
                    'search_s': s.wall_s,
                } for s in all_stats
            },
        }
        evidence = {
            'property': args.prop,
            'tier': args.tier,
            'seed': args.seed,
            'level': 'exploration',
            'coverage': coverage,
            'assumptions': getattr(module, 'ASSUMPTIONS', []),
            'wall_s': round(time.monotonic() - start, 2),
            'violations': 0 if failure is None else 1,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if not args.only:
            with open(os.path.join(HERE, 'evidence', '%s.json' % args.prop), 'w') as fp:
                json.dump(evidence, fp, indent=1)

        if failure is not None:
            return 1
        print("property %s held on %d cases (%d distinct non-trivial), %.1f s" % (
            args.prop, coverage['evaluations'], coverage['distinct_nontrivial'], evidence['wall_s']))
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
