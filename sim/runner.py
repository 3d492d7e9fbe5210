"""Runs the simulations of a check on all cores, minimises what fails, writes
the replay file and the evidence."""

import atexit
import collections
import hashlib
import io
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import checks

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
CPU_LIMIT = 20           # seconds of one run
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class Hang(BaseException):
    pass


# one run ------------------------------------------------------------------
def make_spec(campaign, seed):
    mode, profile = checks.CAMPAIGNS[campaign]
    if mode == 'coarse':
        from . import gen
        spec = gen.generate(seed, profile)
    elif mode == 'pair':
        from . import pair
        spec = pair.gen_pair(seed, profile)
    elif mode == 'twin':
        from . import twin
        spec = twin.gen_twin(seed, profile)
    elif mode == 'fine':
        from . import finerun
        spec = finerun.gen_tree(seed, profile)
    elif mode == 'queue':
        from . import finequeue
        spec = finequeue.gen_queue(seed, profile)
    spec['mode'] = mode
    spec['gtk'] = bool(profile.get('gtk') or profile.get('widget'))
    spec['display'] = bool(profile.get('widget'))
    return spec


def make_run(spec, oracles, stats):
    oracles = set(oracles)
    if spec['profile'] != 'queue':
        oracles.discard('log')
    if spec['mode'] == 'coarse':
        from .coarse import Coarse
        return Coarse(spec, oracles, stats)
    if spec['mode'] == 'pair':
        from .pair import Pair
        return Pair(spec, oracles, stats)
    if spec['mode'] == 'twin':
        from .twin import Twin
        return Twin(spec, oracles, stats)
    if spec['mode'] == 'fine':
        from .finerun import FineTree
        return FineTree(spec, oracles, stats)
    from .finequeue import FineQueue
    return FineQueue(spec, oracles, stats)


class Outcome(object):
    def __init__(self, violation, run):
        self.violation = violation
        self.trace = run.trace.hexdigest() if run is not None else ''
        self.states = run.states if run is not None else set()
        self.record = getattr(run.world, 'record', None) if run else None
        self.where = getattr(run.world, 'where', None) if run else None
        self.main_log = run.main_log if run is not None else []
        self.excs = len(run.world.excs) if run is not None else 0


def execute(spec, oracles, stats, on_hang=None):
    """Run a spec.  Whatever the code under test prints is dropped."""
    from . import seams
    out, err = sys.stdout, sys.stderr
    current = []

    def alarm(signum, frame):
        if spec['mode'] in ('coarse', 'pair', 'twin'):
            raise Hang()
        # the threads cannot be interrupted: report and end the process
        if on_hang is not None:
            on_hang()
        os._exit(3)

    signal.signal(signal.SIGPROF, alarm)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    run = None
    try:
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            run = make_run(spec, oracles, stats)
            current.append(run)
            violation = run.run()
        except Hang:
            violation = seams.Violation(
                'hang', 'no end after %d s of CPU time' % CPU_LIMIT)
            violation.step = getattr(run, 'step', -1)
            if 'hang' not in oracles:
                violation = None
        except seams.Violation as exc:
            # raised while the run is set up
            violation = exc
            violation.step = -1
            if exc.kind not in oracles:
                violation = None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            seams.set_world(None)
    finally:
        sys.stdout, sys.stderr = out, err
    return Outcome(violation, run)


# worker process -----------------------------------------------------------
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def setup_child():
    limits()
    sys.setrecursionlimit(1200)
    from . import seams
    return seams


def worker(job):
    """job: campaigns [(name, first, step, count)], oracles, deadline.
    Writes one JSON line with the results."""
    setup_child()
    from . import coarse
    from . import seams
    oracles = set(job['oracles'])
    marker = os.open(job['marker'], os.O_RDWR | os.O_CREAT)
    stats = {}
    result = {'stats': stats, 'found': [], 'rechecks': 0, 'mismatch': [],
              'states': {}, 'traces': {}, 'samples': [], 'runs': {},
              'ops': {}, 'stopped': False, 'slowest': 0}
    seams.load(gtk=any(checks.CAMPAIGNS[c][1].get('gtk') or
                       checks.CAMPAIGNS[c][1].get('widget')
                       for c, _, _, _ in job['campaigns']))
    # interleave the campaigns, so that a deadline cuts all of them
    todo = []
    for name, first, step, count in job['campaigns']:
        stats[name] = coarse.new_stats()
        result['states'][name] = set()
        result['traces'][name] = set()
        result['runs'][name] = 0
        result['ops'][name] = collections.Counter()
        for i in range(count):
            todo.append(((i + 0.5) / count, name, first + i * step))
    todo.sort()
    for done, (_, name, seed) in enumerate(todo):
        if time.time() > job['deadline']:
            result['stopped'] = True
            break
        os.pwrite(marker, ('%-60s' % ('%s %d' % (name, seed))).encode(), 0)
        spec = make_spec(name, seed)
        cpu = time.process_time()
        outcome = execute(spec, oracles, stats[name])
        result['slowest'] = max(result['slowest'],
                                time.process_time() - cpu)
        result['runs'][name] += 1
        result['states'][name] |= outcome.states
        result['traces'][name].add(outcome.trace)
        count_ops(spec, result['ops'][name])
        if len(result['samples']) < 1:
            result['samples'].append({
                'campaign': name, 'seed': seed, 'spec': spec,
                'events': len(outcome.main_log)})
        if outcome.violation is not None:
            result['found'].append([name, seed, outcome.violation.kind,
                                    outcome.violation.text])
            break
        if done % 40 == 7:
            # one seed is one execution
            again = execute(make_spec(name, seed), oracles,
                            coarse.new_stats())
            result['rechecks'] += 1
            if again.trace != outcome.trace or again.violation is not None:
                result['mismatch'].append([name, seed])
                break
    for key in ('states', 'traces'):
        result[key] = {k: sorted(str(x) for x in v)
                       for k, v in result[key].items()}
    return result


def count_ops(spec, counter):
    if 'ops' in spec:
        for op in spec['ops']:
            counter[op[1]] += 1
    else:
        for program in spec['programs']:
            for op in program:
                counter[op[0]] += 1
        counter['threads'] += len(spec['programs'])


def child_env(hashseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.setdefault('GDK_BACKEND', 'x11')
    env['NO_AT_BRIDGE'] = '1'
    env['GSETTINGS_BACKEND'] = 'memory'
    return env


class Display(object):
    """A virtual X display for the widgets"""
    proc = None
    name = None

    @classmethod
    def get(cls):
        if cls.proc is None:
            read, write = os.pipe()
            cls.proc = subprocess.Popen(
                ['Xvfb', '-displayfd', str(write), '-screen', '0',
                 '640x480x24', '-nolisten', 'tcp', '-noreset', '-ac',
                 '-maxclients', '512'],
                pass_fds=[write], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.close(write)
            atexit.register(cls.stop)
            with os.fdopen(read) as stream:
                number = stream.readline().strip()
            if not number:
                raise RuntimeError('Xvfb does not start')
            cls.name = ':' + number
        return cls.name

    @classmethod
    def stop(cls):
        if cls.proc is not None:
            cls.proc.terminate()
            try:
                cls.proc.wait(10)
            except subprocess.TimeoutExpired:
                cls.proc.kill()
                cls.proc.wait()
            cls.proc = None


def needs_display(request):
    if 'campaigns' in request:
        return any(checks.CAMPAIGNS[c[0]][1].get('widget')
                   for c in request['campaigns'])
    return bool(request['spec'].get('display'))


def spawn(request, hashseed):
    env = child_env(hashseed)
    env.pop('DISPLAY', None)
    env.pop('WAYLAND_DISPLAY', None)
    if needs_display(request):
        env['DISPLAY'] = Display.get()
    proc = subprocess.Popen(
        [PYTHON, '-m', 'sim.runner', 'child'], cwd=HERE,
        env=env, stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    proc.stdin.write(json.dumps(request).encode())
    proc.stdin.close()
    proc.stdin = None
    return proc


def child_main():
    request = json.loads(sys.stdin.read())
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    func = {'worker': worker, 'one': one, 'shrink': shrink}[request['do']]
    result = func(request)
    os.write(out, b'')
    with os.fdopen(out, 'wb') as stream:
        stream.write(json.dumps(result).encode())
    # do not wait for threads of the simulation
    sys.stdout.flush()
    os._exit(0)


# a single spec in a process of its own -------------------------------------
def one(request):
    setup_child()
    from . import coarse
    spec = request['spec']
    outcome = execute(spec, set(request['oracles']), coarse.new_stats())
    out = {'trace': outcome.trace, 'kind': None}
    if outcome.violation is not None:
        out['kind'] = outcome.violation.kind
        out['text'] = outcome.violation.text
        out['step'] = getattr(outcome.violation, 'step', None)
    out['record'] = outcome.record
    out['where'] = outcome.where
    return out


def run_one(spec, oracles, hashseed, timeout=120):
    proc = spawn({'do': 'one', 'spec': spec, 'oracles': sorted(oracles)},
                 hashseed)
    return collect_one(proc, timeout)


def collect_one(proc, timeout):
    try:
        out, err = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return {'kind': 'hang', 'text': 'no end after %d s' % timeout,
                'trace': ''}
    if proc.returncode == 3:
        return {'kind': 'hang', 'trace': '',
                'text': 'no end after %d s of CPU time' % CPU_LIMIT}
    if proc.returncode < 0:
        return {'kind': 'crash', 'trace': '',
                'text': 'the process was ended by signal %d' %
                -proc.returncode}
    if proc.returncode or not out:
        return {'kind': 'harness', 'trace': '',
                'text': err.decode(errors='replace')[-3000:]}
    return json.loads(out.decode())


def shrink(request):
    setup_child()
    from . import coarse
    from . import shrink as shrinker
    spec, kind = request['spec'], request['kind']
    oracles = set(request['oracles'])

    def fails(cand):
        outcome = execute(cand, oracles, coarse.new_stats())
        if outcome.violation is None:
            return None
        return outcome.violation.kind, outcome.record

    first = execute(spec, oracles, coarse.new_stats())
    if first.violation is None or first.violation.kind != kind:
        return {'spec': None}
    if spec['mode'] in ('coarse', 'pair', 'twin'):
        small = shrinker.shrink_coarse(spec, kind, fails,
                                       first.violation.step,
                                       request['seconds'])
    else:
        small = shrinker.shrink_fine(spec, kind, fails, first.record,
                                     request['seconds'])
    return {'spec': small}


# the check ----------------------------------------------------------------
def run_check(prop, tier, seed, scale=1.0):
    """Returns the exit status."""
    started = time.time()
    kinds, campaigns = checks.CHECKS[prop]
    oracles = set(kinds) | checks.COMMON
    factor = checks.THOROUGH if tier == 'thorough' else 1
    wall = 3 * 3600 if tier == 'thorough' else 300
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        return _run_check(prop, tier, seed, scale * factor, wall, scratch,
                          oracles, campaigns, started)
    finally:
        for name in os.listdir(scratch):
            os.unlink(os.path.join(scratch, name))
        os.rmdir(scratch)


def _run_check(prop, tier, seed, factor, wall, scratch, oracles, campaigns,
               started):
    base = int(hashlib.sha256(('%s/%d' % (prop, seed)).encode())
               .hexdigest()[:10], 16) * 1000
    procs = []
    for k in range(NPROC):
        plan = []
        for name, count in campaigns.items():
            share = max(1, int(count * factor) // NPROC)
            plan.append([name, base + k, NPROC, share])
        hashseed = (base + k) % 4294967291
        request = {'do': 'worker', 'campaigns': plan,
                   'oracles': sorted(oracles),
                   'deadline': started + wall,
                   'marker': os.path.join(scratch, 'marker%d' % k)}
        procs.append((k, hashseed, request['marker'],
                      spawn(request, hashseed)))
    results, found, errors = [], [], []
    for k, hashseed, marker, proc in procs:
        try:
            out, err = proc.communicate(timeout=max(
                60, started + wall + 240 - time.time()))
        except subprocess.TimeoutExpired:
            proc.kill()
            out, err = proc.communicate()
            out = b''
            found.append(read_marker(marker) + ['hang', 'no end', hashseed])
            continue
        if out:
            result = json.loads(out.decode())
            results.append(result)
            for item in result['found']:
                found.append(item + [hashseed])
            for item in result['mismatch']:
                errors.append('run %r is not repeatable' % (item, ))
        elif proc.returncode == 3:
            found.append(read_marker(marker) + [
                'hang', 'no end after %d s of CPU time' % CPU_LIMIT,
                hashseed])
        elif proc.returncode < 0:
            found.append(read_marker(marker) + [
                'crash', 'the process was ended by signal %d' %
                -proc.returncode, hashseed])
        else:
            errors.append('%s: %s' % (
                read_marker(marker), err.decode(errors='replace')[-3000:]))
    found.sort(key=lambda f: (f[2] in ('hang', 'crash'), f[1]))
    violation = None
    if found:
        violation = report(prop, oracles, found, tier, seed)
    write_evidence(prop, tier, seed, results, campaigns, factor, started,
                   len(found), errors, oracles)
    if violation:
        return 1
    if errors:
        # an error of the check itself, not an answer
        for text in errors:
            sys.stderr.write('HARNESS ERROR property=%s %s\n' % (prop, text))
        return 2
    print('OK property=%s runs=%d seconds=%.0f' % (
        prop, sum(sum(r['runs'].values()) for r in results),
        time.time() - started))
    return 0


def read_marker(path):
    try:
        with open(path) as stream:
            name, seed = stream.read().split()
        return [name, int(seed)]
    except (OSError, ValueError):
        return ['?', 0]


def report(prop, oracles, found, tier, seed):
    """Minimise the first one and write its replay file"""
    name, run_seed, kind, text, hashseed = found[0]
    try:
        spec = make_spec(name, run_seed)
    except Exception:
        traceback.print_exc()
        return False
    first = run_one(spec, oracles, hashseed)
    best, confirmed = spec, first
    if first['kind'] == kind and kind not in ('hang', 'crash'):
        proc = spawn({'do': 'shrink', 'spec': spec, 'kind': kind,
                      'oracles': sorted(oracles), 'seconds': 45}, hashseed)
        try:
            out, err = proc.communicate(timeout=200)
            small = json.loads(out.decode())['spec'] if out else None
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.communicate()
            small = None
        if small is not None:
            again = run_one(small, oracles, hashseed)
            if again['kind'] == kind:
                best, confirmed = small, again
    elif first['kind'] is None:
        confirmed = {'kind': kind, 'text': text, 'trace': ''}
    # exactly the same execution once more
    exact = run_one(best, oracles, hashseed)
    replay = {'property': prop, 'kind': confirmed['kind'],
              'text': confirmed.get('text', text), 'seed': seed,
              'campaign': name, 'run_seed': run_seed,
              'hashseed': hashseed, 'oracles': sorted(oracles),
              'trace': confirmed['trace'],
              'exact': exact['kind'] == confirmed['kind'] and
              exact['trace'] == confirmed['trace'],
              'switches_at': readable(confirmed.get('where')),
              'spec': best}
    folder = os.path.join(HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s-%d.json' % (prop, name, run_seed))
    with open(path, 'w') as stream:
        json.dump(replay, stream, indent=1)
        stream.write('\n')
    print('%s: %s' % (replay['kind'], replay['text']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return True


def readable(where):
    out = []
    for me, what, line, target in where or ():
        out.append('thread %d at %s%s -> thread %d' % (
            me, what, ' %s:%d' % tuple(line) if line else '', target))
    return out


def replay_file(path):
    with open(path) as stream:
        replay = json.load(stream)
    got = run_one(replay['spec'], replay['oracles'], replay['hashseed'])
    if got['kind'] is None:
        print('the run of %s does not violate property=%s' % (
            path, replay['property']))
        return 0
    if got['kind'] == 'harness':
        sys.stderr.write(got['text'])
        return 2
    print('%s: %s' % (got['kind'], got['text']))
    if got['trace'] != replay['trace']:
        print('(the execution differs from the recorded one)')
    print('VIOLATION property=%s replay=%s' % (replay['property'], path))
    return 1


def write_evidence(prop, tier, seed, results, campaigns, factor, started,
                   violations, errors, oracles):
    wall = time.time() - started
    stats, ops = collections.Counter(), collections.Counter()
    states, traces, runs = set(), set(), collections.Counter()
    samples, per = [], {}
    for result in results:
        for name in campaigns:
            stats.update(result['stats'].get(name, {}))
            ops.update(result['ops'].get(name, {}))
            runs[name] += result['runs'].get(name, 0)
            states.update((name, s) for s in result['states'].get(name, ()))
            traces.update((name, s) for s in result['traces'].get(name, ()))
        samples.extend(result['samples'])
    total = sum(runs.values())
    faults = {
        'requests sent by another thread': stats['remote'],
        'main loop gets to run in the middle (partial dispatching)':
            stats['partial'] + ops.get('dispatch', 0),
        'checks made while requests wait': stats['unsettled'],
        'forced thread switches': stats['preemptions'],
        'waits for a lock held by another thread': stats['contended'],
        'circular relationships asked for by the owner': stats['refused'],
        'failing callbacks and filters': stats['booms'],
        'nodes removed': ops.get('del', 0) + ops.get('pdel', 0),
        'nodes added twice': ops.get('readd', 0),
        'listeners attached late': stats['listen'],
        'listeners detached': stats['unlisten'],
        'filters changed': sum(ops.get(k, 0) for k in (
            'apply', 'unapply', 'reset', 'capply', 'cunapply', 'bankadd',
            'bankdel')),
        'queue merges': stats['merged'],
    }
    modes = {checks.CAMPAIGNS[c][0] for c in campaigns}
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(states),
            'rule': 'A run is one seed: the generator draws the programs of '
                    'the threads, the moments of dispatching and the faults, '
                    'the scheduler draws the thread switches. Counted as '
                    'distinct are the different observed states (tree with '
                    'data, views with filters; for queue histories the order '
                    'of executions), empty trees included once.',
            'distinct_traces': len(traces),
            'runs_per_campaign': dict(runs),
            'campaign_modes': {c: checks.CAMPAIGNS[c][0] for c in campaigns},
            'runs_per_hour': int(total / max(wall, 0.1) * 3600),
            'simulated_time': 'the library has no clock: %d main loop '
                              'dispatches, %d scheduling steps, %d API calls' %
                              (stats['dispatches'], stats['steps'],
                               sum(ops.values())),
            'faults_injected': {k: v for k, v in faults.items() if v},
            'events_checked': stats['events'],
            'gtk_rows_checked': stats['rows'],
            'expanded_rows_checked': stats['expansions'],
            'views_built_anew': stats['rebuilt'],
            'changes_of_the_second_tree_by_listeners_of_the_first':
                stats['bridged'],
            'sorted_levels_checked': stats['sorted_levels'],
            'dropped_nodes': stats['drops'],
            'reads_checked': stats['reads'],
            'order_pairs_checked': stats['ordered'] + stats['ranked'],
            'observations_compared_with_those_of_the_twin':
                stats['compared'],
            'superfluous_requests': sum(
                stats[key] for key in stats if key.startswith('asked again')),
            'inconclusive_runs': stats['inconclusive'],
            'determinism_rechecks': sum(r['rechecks'] for r in results),
            'determinism_mismatches': sum(len(r['mismatch'])
                                          for r in results),
            'slowest_run_cpu_s': round(max(
                [r['slowest'] for r in results] + [0]), 2),
            'cut_by_deadline': any(r['stopped'] for r in results),
            'violations_looked_for': sorted(oracles),
            'real_code': sorted({checks.REAL[m] for m in modes}) + (
                ['liblarch_gtk.treemodel on a real Gtk.TreeStore']
                if any(checks.CAMPAIGNS[c][1].get('gtk') for c in campaigns)
                else []) + (
                ['liblarch_gtk.TreeView on Gtk with an X server (Xvfb), not '
                 'mapped']
                if any(checks.CAMPAIGNS[c][1].get('widget')
                       for c in campaigns) else []),
            'stubs': ['GLib main loop (idle sources, timeouts, clock)',
                      'threading locks and current thread'],
            'samples': samples[:2],
        },
        'assumptions': [
            'API calls of the coarse campaigns are atomic; the fine ones '
            'switch threads between lines of liblarch, not inside of a line.',
            'The stand-in of the main loop behaves as GLib and PyGObject do.',
        ],
        'wall_s': round(wall, 1),
        'violations': violations,
    }
    if errors:
        evidence['coverage']['harness_errors'] = errors
    folder = os.path.join(HERE, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s.json' % prop)
    with open(path + '.tmp', 'w') as stream:
        json.dump(evidence, stream, indent=1)
        stream.write('\n')
    os.replace(path + '.tmp', path)


def main(argv):
    if argv[:1] == ['child']:
        child_main()
    if argv[:1] == ['--replay']:
        return replay_file(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    known = known_findings(prop)
    for line in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    return run_check(prop, tier, seed,
                     float(os.environ.get('VERIF_SCALE', '1')))


def known_findings(prop):
    return []


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
