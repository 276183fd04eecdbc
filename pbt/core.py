"""The runner's core: properties, sub-checks, cases and their verdicts.

A property is a module in `pbt.props` with

    ID       the property's id in properties.jsonl
    RULE     how cases are made and what makes one non-trivial
    SUBS     a list of `Sub`

A sub-check draws JSON-able specs from a Hypothesis strategy and decides each with
`func(spec, ctx)`. The function builds its inputs from the spec alone, calls the code under
test through `ctx.sut`, and judges what came out. All randomness is in the strategy, so a spec
is a complete reproduction: `check <ID> --replay FILE` decides it without the library.
"""

import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

try:
    # Binds the standard error it writes to when it is first used
    from progressbar import ProgressBar  # noqa: F401
except ImportError:
    pass

from pbt import defaults

CASE_TIMEOUT = 90  # s, for cases that take milliseconds: code which never returns


class Violation(Exception):
    """The code under test broke the property."""


class CaseTimeout(BaseException):
    """A case ran into CASE_TIMEOUT."""


# Errors of the oracle while it reads what the code under test returned or wrote. The oracles
# accept every output the property allows, so one they cannot even read is not one of those.
MALFORMED = (
    LookupError, ValueError, TypeError, AttributeError, ArithmeticError, OSError, EOFError,
    AssertionError,
)


class Ctx:
    """Access to the code under test and the record of a single case."""

    def __init__(self, root):
        self.root = root
        self._dir = None
        self.is_brief = False
        self.terminal = None
        self.called = False
        self.labels = []
        self.is_nontrivial = False

    @property
    def dir(self):
        """A scratch directory of this case only."""

        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case', dir=self.root)
        return self._dir

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def mkdir(self, *names):
        path = self.path(*names)
        os.makedirs(path, exist_ok=True)
        return path

    def label(self, *labels):
        self.labels.extend(str(l) for l in labels)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def brief(self, func, kwargs):
        """Leave out options which are at their documented defaults, in half of all cases."""

        if not self.is_brief:
            return kwargs
        known = defaults.of(func)
        return {k: v for k, v in kwargs.items() if not (k in known and defaults.equal(v, known[k]))}

    def sut(self, func, *args, **kwargs):
        """Call code under test that has to return: any exception is a violation."""

        self.called = True
        kwargs = self.brief(func, kwargs)
        try:
            return func(*args, **kwargs)
        except (Exception, SystemExit) as exc:
            raise Violation(
                "%s raised %s: %s\n%s" % (
                    getattr(func, '__name__', func), type(exc).__name__, exc,
                    traceback.format_exc(limit=-4)
                )
            )

    def sut_list(self, func, *args, **kwargs):
        """As `sut`, for generators: returns the list of all items."""

        return self.sut(lambda: list(func(*args, **self.brief(func, kwargs))))

    def raises(self, func, *args, **kwargs):
        """Call code under test that may reject its input: (True, None) or (False, value)."""

        self.called = True
        try:
            return False, func(*args, **kwargs)
        except Exception as exc:
            return True, exc

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class Sub:
    """A sub-check: a strategy of specs, a judge and numbers of cases."""

    def __init__(self, name, strategy, func, quick=200, thorough=None):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = 6 * quick
        # More than there is time for
        self.thorough = thorough if thorough is not None else 600 * quick


def spec_key(spec):
    return json.dumps(spec, sort_keys=True)


def spec_hash(spec):
    return hashlib.sha1(spec_key(spec).encode()).hexdigest()


class Terminal:
    """What was written to the standard streams, by their objects or their descriptors."""

    def __init__(self):
        self.sinks = io.StringIO(), io.StringIO()
        self.files = tempfile.TemporaryFile(), tempfile.TemporaryFile()

    def flush(self):
        for stream in (sys.__stdout__, sys.__stderr__):
            if stream is not None:
                # The code under test may have closed its descriptor
                with contextlib.suppress(OSError):
                    stream.flush()

    def take(self):
        """All that was written since the last time, to output and error."""

        self.flush()
        out = []
        for sink, raw in zip(self.sinks, self.files):
            # The descriptor shares its position with the one written to
            size = os.lseek(raw.fileno(), 0, os.SEEK_END)
            os.lseek(raw.fileno(), 0, os.SEEK_SET)
            out.append(sink.getvalue() + os.read(raw.fileno(), size).decode('utf-8', 'replace'))
            sink.seek(0)
            sink.truncate()
            os.lseek(raw.fileno(), 0, os.SEEK_SET)
            os.ftruncate(raw.fileno(), 0)
        return tuple(out)

    def close(self):
        for raw in self.files:
            with contextlib.suppress(OSError):
                raw.close()


def keep_descriptors():
    """Open those of the standard streams again that code under test has closed.

    The next file that is opened gets the number of one that is missing otherwise.
    """

    for fd in (0, 1, 2):
        try:
            os.fstat(fd)
        except OSError:
            null = os.open(os.devnull, os.O_RDWR)
            if null != fd:
                os.dup2(null, fd)
                os.close(null)


@contextlib.contextmanager
def silenced():
    keep_descriptors()
    terminal = Terminal()
    terminal.flush()
    saved = [os.dup(fd) for fd in (1, 2)]
    try:
        for fd, raw in zip((1, 2), terminal.files):
            os.dup2(raw.fileno(), fd)
        with contextlib.redirect_stdout(terminal.sinks[0]), contextlib.redirect_stderr(terminal.sinks[1]):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield terminal
    finally:
        terminal.flush()
        for fd, old in zip((1, 2), saved):
            os.dup2(old, fd)
            os.close(old)
        terminal.close()
        keep_descriptors()


def run_case(sub, spec, root):
    """Decide a spec. Returns its context, raises Violation if the property is broken."""

    ctx = Ctx(root)
    ctx.is_brief = int(spec_hash(spec), 16) % 2 == 1
    # A case must not change the spec it was made from
    spec = json.loads(spec_key(spec))
    cwd = os.getcwd()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with silenced() as ctx.terminal:
            try:
                sub.func(spec, ctx)
            except CaseTimeout:
                if not ctx.called:
                    raise RuntimeError("the harness itself ran into the case time limit")
                raise Violation("the code under test did not return within %d s" % CASE_TIMEOUT)
            except MemoryError:
                raise Violation("the code under test ran out of memory")
            except MALFORMED as exc:
                if not ctx.called:
                    raise
                raise Violation(
                    "the output has not the form that the property needs: %s: %s\n%s"
                    % (type(exc).__name__, exc, traceback.format_exc(limit=-4))
                )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        ctx.cleanup()

    return ctx
