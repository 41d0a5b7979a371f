"""C14: the tiled rendering driver (tools/darkroom/darkcult.py and darkcult.sh).

darkcult.py runs unchanged as a simulated process: its worker processes, the commands they start, the terminal, the keyboard
and the file it appends to are simulated (one task runs at a time, the scheduler decides which), files are real files in a
scratch directory.  darkcult.sh runs in a real bash as an unprivileged user whose PATH has only stand-ins for the commands that
write (compiler, rm, mkdir, pnmcat, python).
"""
import builtins, json, logging, os, re, shlex, shutil, subprocess, sys, tempfile, threading, types
from pysim import Violation

REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.dirname(os.path.abspath(__file__))
TOOLS = os.path.join(REPO, "tools", "darkroom")
W = types.SimpleNamespace(scratch=None, code=None)
real_open, real_import = builtins.open, builtins.__import__
PIPE, STDOUT, DEVNULL = -1, -2, -3


def prepare():
    if W.scratch:
        return
    W.scratch = tempfile.mkdtemp(prefix="sim_c14_")
    os.chmod(W.scratch, 0o755)
    W.bin = os.path.join(W.scratch, "bin")
    os.mkdir(W.bin)
    subprocess.check_call(["gcc", "-O1", "-w", "-o", W.bin + "/stub", os.path.join(SIM, "c14_stub.c")])
    for n in ("cxx", "pnmcat", "python"):
        os.symlink("stub", W.bin + "/" + n)
    shutil.copytree(TOOLS, W.scratch + "/tools")
    W.code = compile(real_open(os.path.join(TOOLS, "darkcult.py")).read(), "darkcult.py", "exec")


def finish():
    if W.scratch:
        shutil.rmtree(W.scratch, ignore_errors=True)
        W.scratch = None


class Killed(BaseException):
    """ends a simulated process at once"""


# ---------------------------------------------------------------- pictures
def tile_text(source, total_w, total_h, w, h, x, y):
    return "P3\n%d %d\n255\n" % (w, h) + "".join("%d %d %d\n" % (x + i, y + j, (total_w * 7 + total_h * 3 + len(source)) % 251) for j in range(h) for i in range(w))


# ---------------------------------------------------------------- the simulated machine
class Task:
    def __init__(self, m, name, fn):
        self.m, self.name, self.fn = m, name, fn
        self.sem = threading.Lock()
        self.sem.acquire()
        self.pred, self.done, self.kill, self.error, self.last = None, False, None, None, -1
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.sem.acquire()
        try:
            if self.kill:
                raise self.kill
            self.fn(self)
        except (Killed, KeyboardInterrupt):
            pass
        except BaseException as e:  # a defect of the simulator or a violation found inside the task
            self.error = e
        self.done = True
        self.m.back.release()

    def ready(self):
        return not self.done and (self.kill is not None or self.pred is None or self.pred())


class Child:
    """one command started by a worker: a generator of steps"""
    def __init__(self, m, argv_text, shell, stdout):
        self.m, self.status, self.blocked, self.last = m, None, False, -1
        self.name = "child%d" % m.nchild
        m.nchild += 1
        self.tile = None
        self.gen = m.run_command(self, argv_text, shell, stdout)

    def ready(self):
        return self.status is None and not self.blocked

    def step(self):
        try:
            next(self.gen)
        except StopIteration as e:
            self.status = e.value
            self.m.s.log("%s ends with %s" % (self.name, self.status))


class Machine:
    def __init__(self, s, conf):
        self.s, self.conf = s, conf
        self.back = threading.Lock()
        self.back.acquire()
        self.tasks, self.children = [], []
        self.nchild = self.clock = 0
        self.faulty = True
        self.compiled = {}        # tile -> times in this session
        self.acked = set()        # tiles whose completion was recorded
        self.log_lost = False

    # --- scheduling
    def current(self):
        return self.running

    def pause(self, pred=None):
        """a point where the simulated process may be preempted, stopped or killed"""
        me = self.current()
        if me.kill:
            raise me.kill
        me.pred = pred
        self.back.release()
        me.sem.acquire()
        me.pred = None
        if me.kill:
            k, me.kill = me.kill, (None if isinstance(me.kill, KeyboardInterrupt) else me.kill)
            raise k

    def resume(self, t):
        self.running = t
        t.sem.release()
        self.back.acquire()
        if t.error:
            e, t.error = t.error, None
            raise e

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def kill_all(self):
        for t in self.tasks:
            while not t.done:
                t.kill = Killed()
                self.resume(t)
        self.tasks = []

    # --- commands
    def run_command(self, child, text, shell, stdout):
        m, s = self, self.s
        yield  # the start of a process takes a step
        if not shell and not isinstance(text, str):
            commands = [([str(a) for a in text], "&&", {})]
        else:
            commands = parse_shell(text)
        status = 0
        for argv, op, redirect in commands:
            if (op == "&&" and status) or (op == "||" and not status):
                continue
            out = None
            sink = redirect.get(">")
            if sink is None and hasattr(stdout, "write"):
                out = stdout
            if sink is not None:
                try:
                    out = real_open(sink, "w")
                except OSError as e:
                    s.log("%s cannot open %s" % (child.name, sink))
                    status = 1
                    continue
            chatter = 0
            if os.path.basename(argv[0]) == "cxx":
                status, chatter = yield from self.compile(child, argv)
            else:
                status = yield from self.render(child, argv, out)
            if out is not None and out is not stdout:
                out.close()
            if chatter > 65536 and sink is None and stdout == PIPE:
                s.log("%s waits for somebody to read its output" % child.name)
                child.blocked = True
                yield
        return status

    def compile(self, child, argv):
        s = self.s
        defs = dict(re.findall(r"-D(\w+)=(.*)", "\n".join(a for a in argv if a.startswith("-D"))))
        try:
            tile = (int(defs["DARKROOM_OFFSET_X"]), int(defs["DARKROOM_OFFSET_Y"]))
            recipe = dict(tile=tile, source=defs["DARKROOM_SOURCE"].strip('"'), total=(int(defs["DARKROOM_TOTAL_WIDTH"]), int(defs["DARKROOM_TOTAL_HEIGHT"])),
                          size=(int(defs["DARKROOM_TILE_WIDTH"]), int(defs["DARKROOM_TILE_HEIGHT"])))
            out = argv[argv.index("-o") + 1]
        except (KeyError, ValueError) as e:
            raise Violation("command", "the compiler is started without %s: %s" % (e, " ".join(argv)))
        c = self.conf
        s.check(c["darkcult_cpp"] in argv and all(o in argv for o in c["options"]), "command", lambda: "the compiler is started without its source or options: " + " ".join(argv))
        child.tile = tile
        self.compiled[tile] = self.compiled.get(tile, 0) + 1
        s.log("%s compiles tile %s" % (child.name, tile))
        s.check(tile in c["tiles"], "wrong-tile", lambda: "tile %s is not one of %s" % (tile, c["tiles"]))
        s.check(self.compiled[tile] == 1, "rendered-twice", lambda: "tile %s is rendered twice in one run of the driver" % (tile,))
        s.check(tile not in self.acked or self.log_lost, "rendered-again", lambda: "tile %s was recorded complete by an earlier run and is rendered again" % (tile,))
        n = sum(1 for x in self.children if x.status is None and x.tile and not x.orphan)
        s.check(n <= self.workers, "too-many-processes", lambda: "%d compilers run at once, %d are allowed" % (n, self.workers))
        s.probe("%d at once" % n)
        yield
        chatter = 0
        if self.faulty and s.chance(1, 12):
            s.fault("compiler fails")
            return s.pick([1, 1, 127, 139]), 0
        if self.faulty and s.chance(1, 20):
            s.fault("compiler prints a lot")
            chatter = 1 << 17
        with real_open(out, "w") as f:
            json.dump(recipe, f)
        yield
        return 0, chatter

    def render(self, child, argv, out):
        s = self.s
        try:
            r = json.load(real_open(argv[0]))
        except (OSError, ValueError):
            return 127
        text = tile_text(r["source"], r["total"][0], r["total"][1], r["size"][0], r["size"][1], r["tile"][0], r["tile"][1])
        yield
        fail = self.faulty and s.chance(1, 10)
        end = s.choose(len(text)) if fail else len(text)
        cut = end // 2
        for piece in (text[:cut], text[cut:end]):
            if out is not None:
                out.write(piece)
                out.flush()
            yield
        if fail:
            kind = s.choose(2)
            s.fault("full disk while a tile is written" if kind else "renderer dies")
            return 1 if kind else 139
        return 0

    def complete(self, tile):
        c = self.conf
        want = tile_text(c["source"], c["width"], c["height"], c["tw"], c["th"], *tile)
        try:
            return real_open("%s/%d/%d.ppm" % (c["stage"], tile[1], tile[0])).read() == want
        except OSError:
            return False


def parse_shell(text):
    lex = shlex.shlex(text, posix=True, punctuation_chars="&|;<>")
    lex.whitespace_split = True
    lex.commenters = ""
    out, argv, redirect, op, pending = [], [], {}, "&&", None
    for tok in lex:
        if tok in ("&&", "||", ";"):
            out.append((argv, op, redirect))
            argv, redirect, op = [], {}, tok
        elif tok and set(tok) <= set("<>&"):
            pending = tok
        elif pending:
            redirect[pending] = tok
            pending = None
        else:
            argv.append(tok)
    if argv:
        out.append((argv, op, redirect))
    return out


# ---------------------------------------------------------------- what the driver imports
def make_multiprocessing(m):
    mod = types.ModuleType("multiprocessing")

    class TimeoutError_(Exception):
        pass

    class Result:
        def __init__(self, pool, fn, chunks, single=False, unpack=False, callback=None):
            self.pool, self.fn, self.single, self.unpack, self.callback = pool, fn, single, unpack, callback
            self.left, self.values, self.error = len(chunks), [None] * len(chunks), None
            for k, c in enumerate(chunks):
                pool.queue.append((self, k, c))

        def chunk(self, k, items):
            try:
                self.values[k] = [self.fn(*i) if self.unpack else self.fn(i) for i in items]
            except (Killed, Violation):
                raise
            except Exception as e:
                if self.error is None:
                    self.error = e
            self.left -= 1
            if not self.left and self.callback and not self.error:
                self.callback(self.get())

        def ready(self):
            m.pause()
            return self.left == 0

        def successful(self):
            if self.left:
                raise ValueError("not ready")
            return self.error is None

        def wait(self, timeout=None):
            if timeout is None:
                m.pause(lambda: self.left == 0)
            else:
                m.pause()

        def get(self, timeout=None):
            if self.left:
                self.wait(timeout)
            if self.left:
                raise TimeoutError_()
            if self.error is not None:
                raise self.error
            flat = [v for c in self.values for v in c]
            return flat[0] if self.single else flat

    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
            if processes is None:
                processes = m.conf["cpus"]
            if processes < 1:
                raise ValueError("Number of processes must be at least 1")
            m.s.check(processes == (m.conf["max_procs"] or m.conf["cpus"]), "processes", lambda: "%d worker processes instead of %d" % (processes, m.conf["max_procs"] or m.conf["cpus"]))
            m.workers = processes
            self.queue, self.closed, self.procs = [], False, []
            for k in range(processes):
                self.procs.append(m.spawn("worker%d" % k, lambda t: self.work(initializer, initargs)))

        def work(self, initializer, initargs):
            if initializer:
                initializer(*initargs)
            while True:
                m.pause(lambda: self.queue)
                r, k, items = self.queue.pop(0)
                r.chunk(k, items)

        def chunks(self, items, size):
            items = list(items)
            if size is None:
                size, extra = divmod(len(items), len(self.procs) * 4)
                size += bool(extra)
            return [items[i:i + size] for i in range(0, len(items), size)] if items else []

        def map_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
            return Result(self, fn, self.chunks(items, chunksize), callback=callback)

        def map(self, fn, items, chunksize=None):
            return self.map_async(fn, items, chunksize).get()

        def starmap_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
            return Result(self, fn, self.chunks(items, chunksize), unpack=True, callback=callback)

        def starmap(self, fn, items, chunksize=None):
            return self.starmap_async(fn, items, chunksize).get()

        def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
            return Result(self, lambda a: fn(*a[0], **a[1]), [[(args, kwds)]], single=True, callback=callback)

        def apply(self, fn, args=(), kwds={}):
            return self.apply_async(fn, args, kwds).get()

        def imap(self, fn, items, chunksize=1):
            rs = [Result(self, fn, [[i]], single=True) for i in items]
            return (r.get() for r in rs)

        def imap_unordered(self, fn, items, chunksize=1):
            return self.imap(fn, items)

        def close(self):
            self.closed = True

        def terminate(self):
            m.s.log("the workers are terminated")
            self.queue[:] = []
            for t in self.procs:
                t.kill = Killed()
            for c in m.children:
                c.orphan = True

        def join(self):
            m.pause(lambda: all(t.done or (not self.queue and t.pred is not None and not t.pred()) for t in self.procs))

        def __enter__(self):
            return self

        def __exit__(self, *e):
            self.terminate()
    mod.Pool = Pool
    mod.TimeoutError = TimeoutError_
    mod.cpu_count = lambda: m.conf["cpus"]
    mod.freeze_support = lambda: None
    mod.get_context = lambda *a: mod
    mod.set_start_method = lambda *a, **k: None
    return mod


def make_subprocess(m):
    mod = types.ModuleType("subprocess")
    mod.PIPE, mod.STDOUT, mod.DEVNULL = PIPE, STDOUT, DEVNULL

    class CalledProcessError(Exception):
        def __init__(self, rc, cmd):
            Exception.__init__(self, "%r returned %d" % (cmd, rc))
            self.returncode, self.cmd = rc, cmd

    class Popen:
        def __init__(self, args, shell=False, stdin=None, stdout=None, stderr=None, **kw):
            m.pause()
            if m.faulty and m.s.chance(1, 40):
                m.s.fault("no more processes")
                raise OSError(11, "Resource temporarily unavailable")
            self.args, self.returncode, self.pid = args, None, 1000 + m.nchild
            self.child = Child(m, args, shell, stdout)
            self.child.orphan = False
            m.children.append(self.child)
            self.drain = False
            if stdout != PIPE or (kw.get("capture_output")):
                self.drain = True

        def poll(self):
            m.pause()
            self.returncode = self.child.status
            return self.returncode

        def wait(self, timeout=None):
            m.pause(lambda: self.child.status is not None)
            self.returncode = self.child.status
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.child.blocked = False
            m.pause(lambda: self.child.status is not None or (self.child.blocked and not setattr(self.child, "blocked", False)))
            return None, None if self.wait() else None

        def terminate(self):
            self.kill()

        def kill(self):
            if self.child.status is None:
                self.child.status = -9

        def send_signal(self, n):
            self.kill()

        def __enter__(self):
            return self

        def __exit__(self, *e):
            self.wait()
    mod.Popen, mod.CalledProcessError = Popen, CalledProcessError

    def call(*a, **k):
        k.pop("timeout", None)
        return Popen(*a, **k).wait()

    def check_call(*a, **k):
        rc = call(*a, **k)
        if rc:
            raise CalledProcessError(rc, a[0])
        return 0

    def run(*a, check=False, timeout=None, input=None, capture_output=False, **k):
        p = Popen(*a, **k)
        if capture_output:
            p.child.gen = p.child.gen
        rc = p.wait()
        if check and rc:
            raise CalledProcessError(rc, a[0])
        return types.SimpleNamespace(returncode=rc, args=a[0], stdout=None, stderr=None)
    mod.call, mod.check_call, mod.run = call, check_call, run
    mod.SubprocessError = CalledProcessError
    return mod


def make_tty(m):
    tty, termios = types.ModuleType("tty"), types.ModuleType("termios")

    def tcgetattr(fd):
        return list(m.tty)

    def tcsetattr(fd, when, attr):
        m.tty = list(attr)

    def setcbreak(fd, when=None):
        m.s.check(m.keyboard, "terminal", "the terminal is used by a run that is not continuable")
        old, m.tty = m.tty, ["cbreak"]
        return old
    for mod in (tty, termios):
        mod.tcgetattr, mod.tcsetattr = tcgetattr, tcsetattr
        mod.TCSANOW, mod.TCSADRAIN, mod.TCSAFLUSH = 0, 1, 2
        mod.error = OSError
    tty.setcbreak = setcbreak
    tty.setraw = setcbreak
    return tty, termios


class Stdin:
    def __init__(self, m):
        self.m = m

    def fileno(self):
        return 0

    def isatty(self):
        return True

    def read(self, n=-1):
        m = self.m
        m.reading = True
        try:
            m.pause(lambda: m.keys or (m.eof and m.clock % 16 == 0))
        finally:
            m.reading = False
        return m.keys.pop(0) if m.keys else ""

    def readline(self, n=-1):
        return self.read(1)


class Stdout:
    def __init__(self, m):
        self.m = m

    def write(self, text):
        self.m.s.log("%s prints %r" % (self.m.current().name, text))
        self.m.pause()
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class Stderr:
    def write(self, text):
        return len(text)

    def flush(self):
        pass


def make_open(m):
    class File:  # a file the driver writes: a full disk cuts a write short
        def __init__(self, f, name):
            self.f, self.name = f, str(name).replace(os.path.join(W.scratch, "run") + "/", "")

        def write(self, text):
            m.s.log("%s writes %r to %s" % (m.current().name, text, self.name))
            if m.faulty and m.s.chance(1, 40):
                m.s.fault("full disk while the record is written")
                m.log_lost = True
                self.f.write(text[:m.s.choose(len(text))] if isinstance(text, str) else text[:0])
                self.f.flush()
                raise OSError(28, "No space left on device")
            return self.f.write(text)

        def writelines(self, lines):
            for l in lines:
                self.write(l)

        def __getattr__(self, n):
            return getattr(self.f, n)

        def __iter__(self):
            return iter(self.f)

        def __enter__(self):
            return self

        def __exit__(self, *e):
            self.f.close()

    def sim_open(name, mode="r", *a, **k):
        f = real_open(name, mode, *a, **k)
        return File(f, name) if set(mode) & set("wa+x") else f
    return sim_open


def session(m, argv, conf):
    """one run of darkcult.py; returns ('exit', status) or ('killed', None)"""
    s = m.s
    m.keyboard = bool(conf["continuable"])
    m.keys, m.eof, m.reading, m.tty = [], False, False, ["cooked"]
    m.compiled, m.workers = {}, 0
    m.children = []
    result = []
    saved = {n: sys.modules.get(n) for n in ("multiprocessing", "subprocess", "tty", "termios", "signal")}
    stdio = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.modules["multiprocessing"] = make_multiprocessing(m)
    sys.modules["subprocess"] = make_subprocess(m)
    sys.modules["tty"], sys.modules["termios"] = make_tty(m)
    import signal as real_signal
    fake = types.ModuleType("signal")
    fake.__dict__.update({k: v for k, v in real_signal.__dict__.items() if k[0] != "_"})
    fake.signal = lambda *a: real_signal.SIG_DFL
    sys.modules["signal"] = fake
    sys.stdin, sys.stdout, sys.stderr, sys.argv = Stdin(m), Stdout(m), Stderr(), ["darkcult.py"] + argv
    sim_open = make_open(m)
    logging.open = sim_open
    ns = {"__name__": "__main__", "__file__": os.path.join(TOOLS, "darkcult.py"), "__builtins__": dict(vars(builtins), open=sim_open)}

    def main(task):
        try:
            exec(W.code, ns)
            result.append(0)
        except SystemExit as e:
            c = e.code
            result.append(0 if c is None else int(c) if isinstance(c, int) else 1)
        except Killed:
            raise
        except Violation:
            raise
        except BaseException as e:
            s.log("the driver ends with %s: %s" % (type(e).__name__, e))
            result.append(1)
    names = []
    killed = False
    try:
        root = m.spawn("driver", main)
        q_before_done = False
        for n in range(6000):
            s.steps += 1
            if root.done:
                break
            m.clock += 1
            if m.faulty and s.chance(1, 150):
                kind = s.choose(4)
                if kind == 0:
                    s.fault("everything is killed")
                    killed = True
                    break
                if kind == 1 and m.keyboard and not any(isinstance(t.kill, KeyboardInterrupt) for t in m.tasks):
                    s.fault("interrupted from the keyboard")
                    s.log("interrupt")
                    m.interrupted = True
                    for c in m.children:
                        if c.status is None:
                            c.status = -2
                    for t in m.tasks[1:]:
                        t.kill = Killed()
                    root.kill = KeyboardInterrupt()
                if kind == 2 and m.keyboard and len(m.tasks) > 1:
                    s.fault("a worker is killed")
                    t = s.pick(m.tasks[1:])
                    if not t.done:
                        t.kill = Killed()
                        m.interrupted = True
            able = [x for x in m.tasks + m.children if x.ready()]
            if not able and m.eof:
                continue
            able.sort(key=lambda x: x.last)
            user = m.keyboard and not m.eof and len(m.keys) < 2
            if user and (not able or s.chance(1, 60)):
                k = s.choose(8)
                if k == 7 and m.faulty:
                    m.eof = True
                    s.fault("end of the input")
                else:
                    key = {5: "q", 6: "x"}.get(k, "\n") if m.faulty else "\n"
                    m.keys.append(key)
                    s.log("key %r" % key)
                    if key == "q":
                        s.fault("terminated from the keyboard")
                continue
            s.check(able, "stuck", lambda: "nothing can make progress any more (%s)" % ", ".join("%s waits to be read" % c.name for c in m.children if c.blocked) or "the driver waits for ever")
            x = able[s.choose(len(able)) if s.chance(3, 4) else 0]
            x.last = n
            if isinstance(x, Child):
                x.step()
            else:
                m.resume(x)
        else:
            raise Violation("no-progress", "the driver has not ended after %d steps" % n)
        if root.done and not result:
            result.append(1)
        s.state(sorted(m.compiled), [m.complete(t) for t in sorted(conf["tiles"])], result)
        if not killed:
            s.check(m.tty == ["cooked"], "terminal", "the driver ends (status %s) without restoring the terminal" % result[0])
    finally:
        running = [c for c in m.children if c.status is None and not c.blocked]
        try:
            m.kill_all()
        finally:
            sys.stdin, sys.stdout, sys.stderr, sys.argv = stdio
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            for h in logging.root.handlers[:]:
                logging.root.removeHandler(h)
                try:
                    h.close()
                except Exception:
                    pass
            logging.__dict__.pop("open", None)
    # commands that outlive the driver come to their end before it is started again
    if not killed:
        for c in running:
            while c.ready():
                c.step()
    return killed, (result[0] if not killed else None)


def fresh_dir():
    d = os.path.join(W.scratch, "run")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)


def driver(s, torn=False):
    fresh_dir()
    conf = dict(continuable=torn or s.choose(3) != 2)
    conf["tw"], conf["th"] = s.pick([2, 1, 3, 8]), s.pick([2, 1, 3])
    nx, ny = 1 + s.choose(12 if s.chance(1, 6) else 4), 1 + s.choose(4)
    if s.chance(1, 8):
        nx, ny, conf["tw"] = 12 + s.choose(6), 1, s.pick([1, 2, 10])
    elif s.chance(1, 2 if torn else 6):  # numbers of two digits, of which a torn record may be the first
        nx, ny, conf["th"] = 1 + s.choose(2), 11 + s.choose(4), s.pick([1, 1, 2])
    conf["width"], conf["height"] = nx * conf["tw"], ny * conf["th"]
    l, t, r, b = 0, 0, conf["width"], conf["height"]
    if s.chance(1, 4):
        l, t = s.choose(conf["width"]), s.choose(conf["height"])
        r, b = l + 1 + s.choose(conf["width"] - l), t + 1 + s.choose(conf["height"] - t)
    conf["tiles"] = [(x, y) for y in range(t, b, conf["th"]) for x in range(l, r, conf["tw"])]
    conf["cpus"], conf["max_procs"] = 1 + s.choose(4), s.choose(4)
    conf["stage"], conf["source"], conf["darkcult_cpp"] = s.pick(["stage", "a/b"]), s.pick(["scene.hpp", "../my scenes/two.hpp"]), "tools/darkcult.cpp"
    conf["options"] = ["-std=c++11", "-DFOO", "-I/x"][:1 + s.choose(3)]
    for y in set(y for x, y in conf["tiles"]):
        os.makedirs("%s/%d" % (conf["stage"], y))
    m = Machine(s, conf)
    record = conf["stage"] + "/continue.log"
    argv = ["--source=" + conf["source"], "--stagedir=" + conf["stage"], "--output=out.ppm", "--compiler=cxx", "--width=%d" % conf["width"], "--height=%d" % conf["height"],
            "--tile_width=%d" % conf["tw"], "--tile_height=%d " % conf["th"], "--left=%d" % l, "--top=%d" % t, "--right=%d" % r, "--bottom=%d" % b,
            "--compile_options=" + " ".join(conf["options"]), "--darkcult_cpp=" + conf["darkcult_cpp"], "--continuable=%d" % conf["continuable"], "--continue_file=" + record,
            "--max_procs=%d" % conf["max_procs"]]
    s.log("tiles %s, %s" % (conf["tiles"], argv))
    sessions = 1 + s.choose(4) if conf["continuable"] else 1
    for k in range(sessions + 1):
        m.faulty = k < sessions and s.chance(7, 8)
        if k == sessions and not conf["continuable"]:
            break
        before = {x: m.complete(x) for x in conf["tiles"]}
        m.interrupted = False
        s.log("session %d%s" % (k, "" if m.faulty else ", no more faults"))
        killed, status = session(m, argv, conf)
        after = {x: m.complete(x) for x in conf["tiles"]}
        missing = [x for x in conf["tiles"] if not after[x]]
        failed = [c for c in m.children if c.status]
        s.log("session %d: %s, incomplete %s" % (k, "killed" if killed else "exit %s" % status, missing))
        if not killed:
            s.check(status != 0 or not missing, "success-but-incomplete", lambda: "the driver reports success but the tiles %s are not complete" % missing)
            s.check(status or not failed, "failure-lost", lambda: "the driver reports success although %d commands failed" % len(failed))
            s.check(m.faulty or status == 0, "no-success", lambda: "without any failure the driver ends with %s" % status)
            if status == 0:
                s.check(all(m.compiled.get(x) or before[x] for x in conf["tiles"]), "skipped", "a tile that was not complete was skipped")
        # a run that came to its end recorded every command that succeeded
        for c in m.children:
            if conf["continuable"] and status in (0, 1) and not m.interrupted and c.status == 0 and c.tile:
                m.acked.add(c.tile)
        if conf["continuable"] and k < sessions and os.path.exists(record) and s.chance(3 if torn else 1, 4):
            text = real_open(record).read()
            if text:
                cut = 1 + s.choose(min(len(text), 3 if s.chance(1, 2) else 12))
                s.fault("the end of the record is lost")
                m.log_lost = True
                s.log("the record loses its last %d bytes" % cut)
                with real_open(record, "w") as f:
                    f.write(text[:-cut])
    if conf["continuable"]:
        s.check(not [x for x in conf["tiles"] if not m.complete(x)], "incomplete", "tiles are missing after a run without failures")



# ---------------------------------------------------------------- darkcult.sh
def arg_hash(a):
    h = 5381
    for c in a.encode():
        h = (h * 33 + c) & 0xffffffff
    return h


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = real_open(p, errors="replace").read()
    return out


def bash(s, args, plan):
    ctl = os.path.join(W.scratch, "run", "ctl")
    for n in os.listdir(ctl):
        os.unlink(ctl + "/" + n)
    with real_open(ctl + "/plan", "w") as f:
        f.write(plan)
    env = dict(PATH=W.bin + ":/usr/bin:/bin", SIM_CTL=ctl, LC_ALL="C", HOME=ctl)
    who = dict(user=65534, group=65534, extra_groups=[]) if os.geteuid() == 0 else {}
    p = subprocess.Popen(["/bin/bash", "-c", 'echo $$ > "$SIM_CTL/pid"; exec /bin/bash "$0" "$@"', W.scratch + "/tools/darkcult.sh"] + args,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=os.path.join(W.scratch, "run", "work"), start_new_session=True, **who)
    try:
        out, _ = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise Violation("stuck", "darkcult.sh does not end")
    calls = [l.split() for l in real_open(ctl + "/calls").read().splitlines()] if os.path.exists(ctl + "/calls") else []
    return p.returncode, out.decode("utf-8", "replace"), calls


def script(s):
    d = os.path.join(W.scratch, "run")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/work/src")
    os.mkdir(d + "/ctl")
    os.chdir(d + "/work")
    for n in ("src/scene.hpp", "keep.txt", "other.ppm", "0.ppm"):
        with real_open(n, "w") as f:
            f.write("kept " + n)
    tw, th = s.pick([2, 1, 3]), s.pick([1, 2, 3])
    nx, ny = 1 + s.choose(12 if s.chance(1, 10) else 3), 1 + s.choose(11 if s.chance(1, 10) else 3)
    w, h = nx * tw, ny * th
    l, t, r, b = 0, 0, w, h
    args = ["-s", "src/scene.hpp", "-C", "cxx"] + (["-w%d" % w, "-h", str(h)] if s.choose(2) else ["--width=%d" % w, "--height", str(h)]) + ["-W", str(tw), "--tile-height=%d" % th]
    options = ["-std=c++11"]
    if s.chance(1, 3):
        l, t = s.choose(w), s.choose(h)
        r, b = l + 1 + s.choose(w - l), t + 1 + s.choose(h - t)
        args += ["-l", str(l), "--top=%d" % t, "-r%d" % r, "-b", str(b)]
    for k in range(s.choose(3)):
        args += ["-D", "MACRO%d=%d" % (k, k)]
        options.append("-DMACRO%d=%d" % (k, k))
    for k in range(s.choose(3)):
        args += ["--include=/inc/%d" % k]
        options.append("-I/inc/%d" % k)
    for k in range(s.choose(3)):
        args += ["-O", "-fopt%d" % k]
        options.append("-fopt%d" % k)
    if s.chance(1, 4):
        args += ["--runtime"]
        options.append("-DDARKROOM_RUNTIME")
    stage, out = s.pick(["stage", "a/stage"]), s.pick(["out.ppm", "picture.ppm"])
    args += ["-S", stage, "-o", out]
    parallel = s.chance(1, 2)
    if parallel:
        args += ["-P", str(s.choose(3))]
    h0 = sum(arg_hash(a) for a in options + ['-DDARKROOM_SOURCE="src/scene.hpp"', "-DDARKROOM_TOTAL_WIDTH=%d" % w, "-DDARKROOM_TOTAL_HEIGHT=%d" % h, "darkcult.cpp"]) & 0xffffffff
    cols, rows = list(range(l, r, tw)), list(range(t, b, th))
    W_, H_ = len(cols) * tw, len(rows) * th
    want = ["P3", str(W_), str(H_), "255"]
    for j in range(H_):
        for i in range(W_):
            want += [str(l + i), str(t + j), str(h0 % 1000003)]

    def picture(rc, text, run):
        try:
            return real_open("%s/%s" % (stage, out)).read().split()
        except OSError:
            return None
    stale = s.choose(4)
    if stale:  # something is there already
        os.makedirs(stage + "/0", exist_ok=True)
        for n in ("0.ppm", "7777.ppm", "0/0.ppm", "0/7777.ppm", "0/0.out")[:1 + s.choose(5)]:
            with real_open("%s/%s" % (stage, n), "w") as f:
                f.write("P3\n1 1\n255\n9 9 9\n")
    mode = s.pick(["", "-f", "-c"])
    if os.geteuid() == 0:
        for root, dirs, files in os.walk(d):
            for n in [root] + [os.path.join(root, x) for x in files]:
                os.chown(n, 65534, 65534)
    s.log("darkcult.sh %s, something is there: %d" % (" ".join(args), stale))
    runs = 1 + s.choose(3)
    sys_before = None
    for k in range(runs + 1):
        faulty = k < runs and s.chance(2, 3)
        if k:
            mode = s.pick(["-f", "-c"]) if k < runs else "-f"
        plan = ""
        if faulty:
            at = s.choose(3 + 2 * len(cols) * len(rows) + len(rows)) if not parallel else s.choose(3 + len(rows))
            plan = "0" * at + s.pick("123")
        before, there = tree("."), os.path.isdir(stage)
        rc, text, calls = bash(s, args + ([mode] if mode else []), plan)
        after = tree(".")
        failed = [c for c in calls if c[1] != "0"]
        for c in failed:
            s.fault({"1": "%s fails", "2": "%s fails halfway", "3": "killed in %s"}[c[1]] % c[0])
        finished = "finished." in text
        s.steps += len(calls)
        s.log("run %d %s: exit %s%s after %s" % (k, mode, rc, " finished" if finished else "", " ".join(c[0] + (":" + c[1] if c[1] != "0" else "") for c in calls)))
        s.state(parallel, mode, rc, finished, failed, len(cols), len(rows))
        prefix = os.path.normpath(stage) + "/"
        outside = sorted(n for n in set(before) | set(after) if not n.startswith(prefix) and before.get(n) != after.get(n))
        s.check(not outside, "outside", lambda: "files outside the stage directory change: %s" % outside)
        if there and not mode:
            s.check(rc == 1 and not finished and before == after and not calls, "existing", lambda: "an existing stage directory is not refused (exit %s)" % rc)
            continue
        if finished:
            s.check(rc == 0, "status", lambda: "finished with status %s" % rc)
            got = picture(rc, text, k)
            s.check(got == want, "wrong-picture", lambda: "darkcult.sh has finished, but its picture is %s instead of %s" % (got and " ".join(got[:40]), " ".join(want[:40])))
            s.check(not failed, "failure-lost", lambda: "darkcult.sh has finished although %s failed" % failed[0][0])
        elif rc == 0:
            s.check(failed and failed[0] == ["python", "2"], "status", lambda: "darkcult.sh ends with 0 without being finished: %s" % text[-300:])
        else:
            s.check(failed, "no-success", lambda: "darkcult.sh fails although nothing failed: %s" % text[-300:])


SCENARIOS = {"driver": driver, "torn record": lambda s: driver(s, True), "script": script}
EVERY = {"script": 2}
