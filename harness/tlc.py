"""Running TLC on trace chunks."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def run_tlc(module, cfg, workdir, timeout, heap='2500m', workers=1, extra=()):
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m',
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + workdir, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(workdir, 'meta'), '-noGenerateSpecTE'] + list(extra) + \
          ['-config', cfg, module]
    env = dict(os.environ)
    env.pop('JAVA_TOOL_OPTIONS', None)
    try:
        pr = subprocess.run(cmd, cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            timeout=timeout, universal_newlines=True)
    except subprocess.TimeoutExpired as e:
        raise TLCError('TLC timed out after %ss' % timeout)
    return pr.returncode, pr.stdout


def validate_chunk(lines, timeout, module='ChumpyTrace', spec='TSpec', heap='2500m'):
    """Validate one ndjson chunk; returns {'bad': [...], 'cnt': {...}, 'states': n}."""
    wd = tempfile.mkdtemp(prefix='vp_tlc_')
    try:
        with open(os.path.join(wd, 'trace.ndjson'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        with open(os.path.join(wd, 't.cfg'), 'w') as f:
            f.write('SPECIFICATION %s\nCONSTANT TraceFile = "trace.ndjson"\nPOSTCONDITION Consumed\n'
                    'CHECK_DEADLOCK FALSE\nVIEW TView\n' % spec)
        rc, out = run_tlc(os.path.join(SPEC, module + '.tla'), os.path.join(wd, 't.cfg'), wd, timeout, heap)
        m = re.search(r'^"?VERDICT (.*?)"?$', out, re.M)
        if rc != 0 or m is None:
            keep = os.environ.get('VP_KEEP')
            if keep:
                shutil.copy(os.path.join(wd, 'trace.ndjson'), keep)
            i = out.find('Error:')
            why = ' '.join(sorted(set(re.findall(r'[^\n]*(?:verflow|ArithmeticException|OutOfMemory|by zero|too large|StackOverflow|NullPointer|not a ?n? ?[a-z]+)[^\n]*', out))))[:400]
            raise TLCError('TLC rc=%s [%s]\n%s\n...\n%s' % (rc, why, out[max(i, 0):max(i, 0) + 1500], out[-600:]))
        txt = m.group(1)
        try:
            v = json.loads(txt)
        except ValueError:
            v = json.loads(txt.replace('\\"', '"').replace('\\\\', '\\'))
        ms = re.search(r'(\d+) states generated, (\d+) distinct', out)
        v['states'] = int(ms.group(2)) if ms else 0
        return v
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def validate_cases(cases, timeout=800, jobs=8, module='ChumpyTrace', spec='TSpec'):
    """cases: list of lists of json lines, each starting with its case line.
    Distributed over several TLC processes; returns the merged verdict."""
    order = sorted(range(len(cases)), key=lambda i: -sum(len(x) for x in cases[i]))
    jobs = max(1, min(jobs, len(cases)))
    bins = [[] for _ in range(jobs)]
    load = [0] * jobs
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += sum(len(x) for x in cases[i]) + 50
    chunks = [[ln for i in sorted(b) for ln in cases[i]] for b in bins if b]
    tot = {'bad': [], 'cnt': {}, 'states': 0}
    with ThreadPoolExecutor(jobs) as ex:
        for v in ex.map(lambda c: validate_chunk(c, timeout, module, spec), chunks):
            tot['bad'] += v['bad']
            tot['states'] += v['states']
            for k, n in v['cnt'].items():
                tot['cnt'][k] = tot['cnt'].get(k, 0) + n
    return tot
