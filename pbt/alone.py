"""Calls of the code under test in processes which have not made or imported anything else of it.

`python -m pbt.alone` reads requests from its input, one line of JSON each, and does each in a
forked child of its own. It has imported the libraries that the code under test uses, but none
of that code. A request is

    {"dir": working directory, "ops": [{"call": "module:function", "args": [], "kwargs": {}}, ...]}

where an op can also be a command, {"cli": [arguments]}, or {"replace": [from, to]}, which does not
call anything but replaces the maps in a directory by those in another, or {"remove": directory}, which
removes an output directory below of the working directory. The children write the
outcomes of all ops, in their order, to `<dir>.json`.
"""

import contextlib
import hashlib
import importlib
import io
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import warnings

TIMEOUT = 60  # s


def plain(value):
    """A value in terms of JSON, in which only equal values are the same."""

    import numpy as np
    import pandas as pd

    if isinstance(value, np.ma.MaskedArray):
        return {'values': plain(value.filled(0.)), 'mask': np.ma.getmaskarray(value).tolist()}
    if isinstance(value, np.ndarray):
        return plain(value.tolist())
    if isinstance(value, pd.Series):
        return {'name': str(value.name), 'index': plain(value.index.values), 'values': plain(value.values)}
    if isinstance(value, (np.floating, np.integer, np.bool_)):
        return plain(value.item())
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)) or hasattr(value, '__next__'):
        return [plain(v) for v in value]
    if value is None or isinstance(value, (bool, int, str)):
        return value
    return type(value).__name__


def content(path, cwd):
    """What is in a file, without the time at which it was made."""

    with open(path, 'rb') as fp:
        raw = fp.read()
    try:
        text = raw.decode('utf-8')
        if '\0' in text:
            raise ValueError()
    except ValueError:
        return 'sha1 ' + hashlib.sha1(raw).hexdigest()
    text = re.sub(r'^.*Creation date:.*$', '', text, flags=re.M)
    return text.replace(os.path.realpath(cwd), '<cwd>').replace(cwd, '<cwd>')


def tree(directory, cwd):
    out = {}
    for root, _, names in os.walk(directory):
        for name in names:
            path = os.path.join(root, name)
            out[os.path.relpath(path, directory)] = content(path, cwd)
    return out


def picture(p):
    """What is to be seen in a figure."""

    return plain({
        'path': p.path, 'options': {k: p.options[k] for k in sorted(p.options)}, 'size': p.size, 'axes': p.num_axes,
        'limits': [p.xlim, p.ylim], 'text': [p.title, p.xlabel, p.ylabel], 'on': p.axes_on, 'scales': p.scales,
        'aspect': p.aspect, 'legend': p.legend, 'bar': p.bar, 'colormaps': p.colormaps,
        'lines': p.lines, 'streams': [len(s.get_segments()) for s in p.streams],
        'meshes': [[m.get_coordinates(), m.get_array(), m.get_clim()] for m in p.meshes],
        'contours': [[c.levels, c.filled, c.get_clim(), c.get_edgecolor(), c.get_facecolor(), [q.vertices for q in c.get_paths()]]
                     for c in p.contours],
        'arrows': [[q.X, q.Y, q.U, q.V, q.get_array(), q.get_clim(), q.scale, q.width, q.pivot] for q in p.quivers],
    })


def perform(op, drawn):
    """Do a single op in the working directory."""

    stdout = io.StringIO()
    value = error = None
    first = len(drawn)
    with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if 'replace' in op:
                    new, old = op['replace']
                    for name in os.listdir(old):
                        if name.startswith('map_'):
                            os.remove(os.path.join(old, name))
                    for name in os.listdir(new):
                        shutil.copy(os.path.join(new, name), old)
                elif 'remove' in op:
                    value = None
                    if os.path.basename(op['remove']) != op['remove'] or not op['remove'].startswith('out'):
                        raise ValueError("%r is not an output directory" % op['remove'])
                    shutil.rmtree(os.path.join(os.getcwd(), op['remove']), ignore_errors=True)
                elif 'cli' in op:
                    command = importlib.import_module('strata.strata').strata
                    value = command(op['cli'], standalone_mode=False)
                else:
                    module, name = op['call'].split(':')
                    func = getattr(importlib.import_module(module), name)
                    kwargs = {k: tuple(v) if isinstance(v, list) else v for k, v in op['kwargs'].items()}
                    value = func(*op['args'], **kwargs)
                value = plain(value)
            except (Exception, SystemExit) as exc:
                error = '%s: %s' % (type(exc).__name__, exc)
                value = None
    return {'value': value, 'error': error, 'stdout': stdout.getvalue(), 'figures': [picture(p) for p in drawn[first:]]}


def perform_all(request):
    from pbt.figures import pictures

    cwd = request['dir']
    os.chdir(cwd)
    outcomes = []
    # Figures which are left open stay that
    with pictures() as drawn:
        for op in request['ops']:
            outcome = perform(op, drawn)
            os.chdir(cwd)
            outcomes.append(outcome)
    import strata
    result = {'outcomes': outcomes, 'files': tree(cwd, cwd), 'code': os.path.realpath(strata.__file__)}
    with open(cwd + '.json', 'w') as fp:
        json.dump(result, fp)


def serve():
    import matplotlib
    matplotlib.use('Agg')
    import click, numpy, pandas, pkg_resources, progressbar  # noqa: E401, F401
    import scipy.optimize, scipy.stats  # noqa: E401, F401
    import matplotlib.pyplot  # noqa: F401
    import mpl_toolkits.axes_grid1  # noqa: F401
    import pbt.figures  # noqa: F401

    assert not [m for m in sys.modules if m.split('.')[0] in ('strata', 'droplets')]
    for line in sys.stdin:
        request = json.loads(line)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(TIMEOUT)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                perform_all(request)
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        print(status, flush=True)


class Server:
    """The process that does the requests, started with the first of them."""

    def __init__(self):
        self.process = None
        self.owner = None

    def start(self):
        if self.process is None or self.owner != os.getpid() or self.process.poll() is not None:
            self.owner = os.getpid()
            self.process = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'pbt.alone'], cwd='/', text=True,
                                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def do(self, directory, ops):
        """Do the ops in turn in a new process. None if it did not end by itself."""

        self.start()
        self.process.stdin.write(json.dumps({'dir': directory, 'ops': ops}) + '\n')
        self.process.stdin.flush()
        ready, _, _ = select.select([self.process.stdout], [], [], TIMEOUT + 20)
        status = self.process.stdout.readline().strip() if ready else ''
        if not status:
            self.process.kill()
            raise RuntimeError("the process for calls ended")
        if int(status) != 0:
            return None
        with open(directory + '.json') as fp:
            return json.load(fp)


SERVER = Server()

if __name__ == '__main__':
    serve()
