import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

# The quick tier gets 900 s for everything, the thorough one a few hours.
BUDGET = {'quick': 420, 'thorough': 3 * 3600}


def property_modules():
    names = sorted(
        f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))
        if f.endswith('.py') and not f.startswith('_')
    )
    return names


def load(pid):
    for name in property_modules():
        if name.split('_')[0].upper() == pid.upper():
            return importlib.import_module('props.' + name)
    raise SystemExit('no such property: ' + pid)


def find_facet(prop, name):
    for f in prop.FACETS + getattr(prop, 'PINNED', []):
        if f.name == name:
            return f
    raise SystemExit('no such facet: ' + name)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def worker(pid, shard, shards, seed, tier, budget, out, only=None):
    limit_memory()
    prop = load(pid)
    deadline = time.monotonic() + budget
    results = []
    for facet in prop.FACETS:
        if only and facet.name != only:
            continue
        r = core.run_shard(prop, facet, shard, shards, seed, tier, deadline)
        results.append(r)
        if r['violation']:
            break
    with open(out, 'w') as f:
        json.dump(results, f)


def replay(path):
    limit_memory()
    with open(path) as f:
        data = json.load(f)
    prop = load(data['property'])
    facet = find_facet(prop, data['facet'])
    signal.signal(signal.SIGPROF, core._on_cpu_limit)
    if data.get('mode') == 'campaign':
        # The failure depends on the cases before it in the same process.
        r = core.run_shard(
            prop, facet, data['shard'], data['shards'], data['seed'], data['tier'],
            time.monotonic() + 3600,
        )
        v = r['violation']
        message = v and v['message']
    else:
        try:
            core.run_case(facet, data['case'])
            message = None
        except core.Violation as v:
            message = str(v)
        except core.Hang:
            message = 'no result after {} seconds of processor time'.format(core.CASE_CPU_SECONDS)
    if message is None:
        print('not reproduced: ' + path)
        return 0
    print('reproduced: {}\n{}'.format(core.case_text(data['case'])[:4000], message))
    print('VIOLATION property={} replay={}'.format(data['property'], path))
    return 1


def run_property(pid):
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    prop = load(pid)
    shards = core.SHARDS
    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(prop.ID))
    try:
        return campaign(prop, shards, seed, tier, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def campaign(prop, shards, seed, tier, scratch, started):
    findings = known_findings(prop)
    processes = []
    for s in range(shards):
        out = os.path.join(scratch, 'shard-{}.json'.format(s))
        err = open(os.path.join(scratch, 'shard-{}.err'.format(s)), 'w')
        p = subprocess.Popen(
            [sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), '--worker',
             prop.ID, str(s), str(shards), str(seed), tier, str(BUDGET[tier]), out],
            stdout=err, stderr=err, start_new_session=True,
        )
        processes.append((p, out))
    hard = started + BUDGET[tier] + 200
    results = []
    errors = []
    for s, (p, out) in enumerate(processes):
        try:
            p.wait(timeout=max(1, hard - time.monotonic()))
        except subprocess.TimeoutExpired:
            errors.append('shard {} did not end'.format(s))
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            continue
        if p.returncode != 0 or not os.path.exists(out):
            with open(os.path.join(scratch, 'shard-{}.err'.format(s))) as f:
                errors.append('shard {} ended with {}: {}'.format(s, p.returncode, f.read()[-3000:]))
            continue
        with open(out) as f:
            results.extend(json.load(f))

    evaluations = sum(r['evaluations'] for r in results)
    distinct = set()
    labels = {}
    per_facet = {}
    samples = []
    violations = []
    for r in results:
        distinct.update((r['facet'], h) for h in r['nontrivial'])
        per_facet.setdefault(r['facet'], dict(evaluations=0, nontrivial=0))
        per_facet[r['facet']]['evaluations'] += r['evaluations']
        for l, n in r['labels'].items():
            key = '{}/{}'.format(r['facet'], l)
            labels[key] = labels.get(key, 0) + n
        if r['shard'] < 2:
            samples.extend(dict(facet=r['facet'], case=c) for c in r['samples'][:3])
        if r['violation']:
            violations.append(r['violation'])
    for facet, h in distinct:
        per_facet[facet]['nontrivial'] += 1
    if not samples:
        samples = [dict(facet=f.name, case=f.examples[0]) for f in prop.FACETS if f.examples][:3]

    evidence = dict(
        property=prop.ID,
        tier=tier,
        seed=seed,
        level='exploration',
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(distinct),
            rule=prop.RULE,
            samples=samples,
            facets=per_facet,
            classes=dict(sorted(labels.items())),
            shards=len(results),
            budget_hit=any(r['budget_hit'] for r in results),
        ),
        assumptions=list(getattr(prop, 'ASSUMPTIONS', [])),
        wall_s=round(time.monotonic() - started, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')

    for line in findings:
        print(line)
    if violations:
        report(prop, violations)
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e, file=sys.stderr)
        return 2
    print('{}: held for {} cases ({} distinct non-trivial), {} s'.format(
        prop.ID, evaluations, len(distinct), evidence['wall_s']))
    return 0


def report(prop, violations):
    violations.sort(key=lambda v: (len(core.case_text(v['case'])), v['shard']))
    v = violations[0]
    os.makedirs(os.path.join(core.VERIF, 'replays'), exist_ok=True)
    path = os.path.join(core.VERIF, 'replays', '{}-{}.json'.format(prop.ID, core.case_hash(v['case'])))
    v['mode'] = 'case'
    write_replay(path, v)
    # A failure that depends on earlier cases (state kept between documents) is
    # replayed with them.
    p = subprocess.run(
        [sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), '--replay', path],
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
    )
    if p.returncode != 1:
        v['mode'] = 'campaign'
        write_replay(path, v)
    print('{} of {} shards found a violation; the smallest:'.format(len(violations), core.SHARDS))
    print('facet {}: {}'.format(v['facet'], core.case_text(v['case'])[:3000]))
    print(v['message'][:3000])
    print('VIOLATION property={} replay={}'.format(prop.ID, path))


def write_replay(path, v):
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, ensure_ascii=True)
        f.write('\n')


def known_findings(prop):
    """
    The listed findings of this property that still fail, as lines to print.
    """
    path = os.path.join(core.VERIF, 'known-findings.json')
    lines = []
    if not os.path.exists(path):
        return lines
    with open(path) as f:
        listed = json.load(f)['findings']
    for k in listed:
        if k['property'] != prop.ID:
            continue
        facet = find_facet(prop, k['facet'])
        signal.signal(signal.SIGPROF, core._on_cpu_limit)
        try:
            core.run_case(facet, k['case'])
        except core.Violation:
            lines.append('KNOWN-FINDING: property={} {}'.format(prop.ID, k['what']))
    return lines


def main():
    args = sys.argv[1:]
    if args and args[0] == '--worker':
        pid, shard, shards, seed, tier, budget, out = args[1:8]
        worker(pid, int(shard), int(shards), int(seed), tier, float(budget), out)
        return 0
    if args and args[0] == '--replay':
        return replay(args[1])
    if args and args[0] == '--selftest':
        # Nothing has to be built; what the checks need has to be there.
        import hypothesis
        import gopher_render
        for name in property_modules():
            load(name.split('_')[0])
        print('hypothesis {}, {} properties, {}'.format(
            hypothesis.__version__, len(property_modules()), os.path.dirname(gopher_render.__file__)))
        return 0
    if args and args[0] == '--all':
        worst = 0
        for name in property_modules():
            worst = max(worst, run_property(name.split('_')[0].upper()))
        return worst
    return run_property(args[0])


if __name__ == '__main__':
    sys.exit(main())
