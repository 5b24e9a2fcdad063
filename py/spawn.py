"""P01: spawner, unspawner and hardware spawner; P02: the command line verbs; P03: parameter files and launch descriptions."""
import io
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakeros
import pymc

fakeros.install()
SCRATCH = tempfile.mkdtemp(prefix="verif-py-")
os.environ["ROS_HOME"] = SCRATCH
import contextlib
import yaml

if yaml.__with_libyaml__:
    yaml.safe_load = lambda f: yaml.load(f, yaml.CSafeLoader)  # the same result, faster

from controller_manager import spawner, unspawner, hardware_spawner, launch_utils
from controller_manager import controller_manager_services as services
import controller_manager_msgs.srv as srv
import controller_manager_msgs.msg as msg
from lifecycle_msgs.msg import State
from rcl_interfaces.msg import SetParametersResult

STATES = ("unloaded", "unconfigured", "inactive", "active")


class Stuck(BaseException):
    pass


class World:
    """A controller manager and everything else around a script; faults are choices."""

    def __init__(self, c, namespace="/", cm="/controller_manager", faults=0, kinds=("refuse", "lost", "silent"), interrupts=0):
        self.c, self.namespace, self.cm = c, namespace, cm
        self.faults, self.kinds, self.interrupts = faults, kinds, interrupts
        self.controllers, self.hardware, self.types = {}, {}, {}
        self.params, self.calls, self.locks, self.nodes = {}, [], [], []
        self.inited = self.shut = self.slept = 0
        self.handlers, self.faulty, self.interrupted, self.waiting = {}, None, False, False
        self.lock_fails, self.not_ready, self.lock_expected, self.pending, self.unordered = 0, 0, False, None, None
        self.after = None  # called before each service
        services.SingletonServiceCaller._clients.clear()

    # rclpy
    def init(self):
        self.inited += 1

    def shutdown(self):
        self.shut += 1

    def node_created(self, n):
        self.nodes.append(n)

    def node_destroyed(self, n):
        if n in self.nodes:
            self.nodes.remove(n)

    def signal(self, s, h):
        old = self.handlers.get(s)
        self.handlers[s] = h
        return old

    def interrupt(self, where):
        self.c.note("interrupt " + where)
        self.faulty_before = self.faulty
        self.interrupted = True
        import signal

        sig = (signal.SIGINT, signal.SIGTERM)[self.interrupts % 2]
        self.interrupts -= 1
        h = self.handlers.get(sig)
        if callable(h):
            h(sig, None)
        elif h == signal.SIG_IGN:
            return
        elif sig == signal.SIGINT:
            raise KeyboardInterrupt()
        else:
            raise SystemExit(-15)

    def maybe_interrupt(self, where):
        if self.interrupts > 0 and self.c.flip("interrupt " + where):
            self.interrupt(where)

    def sleep(self, s):
        self.slept += 1
        if self.waiting_for_kill():
            self.waiting = True
            if self.interrupts > 0:
                self.interrupt("while waiting")
            else:
                raise Stuck()

    def waiting_for_kill(self):
        return not any(l.is_locked for l in self.locks) and not self.lock_fails

    def lock(self, l):
        self.maybe_interrupt("while waiting for the lock")
        if self.lock_fails < 100 and self.faults > 0 and self.c.flip("the lock is not free"):
            self.faults -= 1
            self.lock_fails = 100 if self.c.flip("it never is") else 1
            raise fakeros.Timeout()
        if self.lock_fails == 100:
            raise fakeros.Timeout()
        self.lock_fails = 0

    def ready(self, name):
        self.expect_name(name)
        if self.not_ready == 2:
            return False
        if self.faults > 0 and not self.not_ready and not self.calls and self.c.flip("the services are not there yet"):
            self.faults -= 1
            self.not_ready = 1 + self.c.choose(2, "nor later")
            return False
        return True

    def wait(self, name, timeout):
        self.maybe_interrupt("while waiting for services")
        if self.not_ready == 2:
            if timeout == 10.0 and self.waited() > 3:
                raise Stuck()
            return False
        return True

    def waited(self):
        self._w = getattr(self, "_w", 0) + 1
        return self._w

    def expect_name(self, name):
        if not name.startswith(self.cm + "/"):
            self.c.fail("name", "service %s instead of one of %s" % (name, self.cm))

    def spin(self, future, timeout):
        self.maybe_interrupt("after a call")

    # services
    def call(self, node, kind, name, request):
        c = self.c
        c.steps += 1
        self.expect_name(name)
        self.maybe_interrupt("before a call")
        if self.lock_expected and not self.waiting and not self.interrupted and not any(l.is_locked for l in self.locks):
            c.fail("lock", "%s is called without the lock" % name)
        if self.faulty and not self.interrupted and self.faulty != "silent":
            c.fail("goes-on", "%s is called although %s" % (name, self.faulty))
        service = name[len(self.cm) + 1:]
        if (service == "set_parameters") != (kind is fakeros.SetParameters) or (service != "set_parameters" and kind is not getattr(srv, "".join(w.capitalize() for w in service.split("_")), None)):
            c.fail("name", "service %s called with type %s" % (name, kind.__name__))
        fault = None
        if self.pending:
            fault = self.pending  # it stays like that
        elif self.faults > 0:
            i = c.choose(len(self.kinds) + 1, service)
            if i:
                fault = self.kinds[i - 1]
                self.faults -= 1
                if fault in ("lost", "silent") and c.flip("no answer at all"):
                    fault += "!"
                    self.pending = fault
        response = kind.Response()
        ok = self.apply(service, request, response, fault)
        c.note("%s %r -> %s%s" % (service, request if service != "set_parameters" else [(p.name, value(p.value)) for p in request.parameters], ok, " (%s)" % fault if fault else ""))
        self.calls.append((service, request, ok))
        if fault in ("lost", "silent", "lost!", "silent!"):
            return None
        if not ok:
            self.faulty = "%s failed" % service
        return response

    def apply(self, service, r, response, fault):
        refused = fault is not None and fault.startswith(("refuse", "silent"))
        ok = not refused
        s = self.controllers
        if service == "list_controllers":
            for n, st in s.items():
                if st != "unloaded":
                    response.controller = list(response.controller) + [msg.ControllerState(name=n, state=st, type=self.types.get(n, "t"))]
            return True
        if service == "list_hardware_components":
            for n, st in self.hardware.items():
                response.component = list(response.component) + [msg.HardwareComponentState(name=n, state=State(id=st, label=""))]
            return True
        if service == "set_parameters":
            for p in r.parameters:
                if ok:
                    self.params[p.name] = value(p.value)
                response.results.append(SetParametersResult(successful=ok))
            return ok
        if service == "set_hardware_component_state":
            ok = ok and r.name in self.hardware
            if ok:
                self.hardware[r.name] = r.target_state.id
                response.state = r.target_state
            response.ok = ok
            return ok
        if service == "load_controller":
            ok = ok and s.get(r.name) == "unloaded"
            if ok:
                s[r.name] = "unconfigured"
        elif service == "configure_controller":
            ok = ok and s.get(r.name) in ("unconfigured", "inactive")
            if ok:
                s[r.name] = "inactive"
        elif service == "cleanup_controller":
            ok = ok and s.get(r.name) in ("unconfigured", "inactive")
            if ok:
                s[r.name] = "unconfigured"
        elif service == "unload_controller":
            ok = ok and s.get(r.name) in ("unconfigured", "inactive")
            if ok:
                s[r.name] = "unloaded"
        elif service == "switch_controller":
            ok = ok and all(s.get(n) == "active" for n in r.deactivate_controllers) and all(s.get(n) == "inactive" for n in r.activate_controllers)
            if ok:
                for n in r.deactivate_controllers:
                    s[n] = "inactive"
                for n in r.activate_controllers:
                    s[n] = "active"
            response.message = "done" if ok else "refused"
        elif service == "reload_controller_libraries":
            pass
        else:
            self.c.fail("name", "unknown service " + service)
        response.ok = ok
        return ok


def value(v):
    return {1: v.bool_value, 2: v.integer_value, 3: v.double_value, 4: v.string_value, 6: list(v.bool_array_value), 7: list(v.integer_array_value), 9: list(v.string_array_value)}.get(v.type)


def run(w, fn, argv):
    """Exit code, or the exception."""
    fakeros.W = w
    sys.argv = argv
    w.c.note("$ " + " ".join(argv))
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            r = fn()
        return (r if isinstance(r, int) else 0 if r is None else 1), out.getvalue()
    except SystemExit as e:
        return (e.code if isinstance(e.code, int) else 0 if e.code is None else 1), out.getvalue()
    except Stuck:
        return "stuck", out.getvalue()
    except (pymc.Violation, pymc.Skip):
        raise
    except KeyboardInterrupt:
        return "KeyboardInterrupt", out.getvalue()
    except AssertionError as e:
        if "field must be" in str(e):
            w.c.fail("type", str(e))
        return "AssertionError: %s" % e, out.getvalue()
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), out.getvalue()


def finished(w, code):
    """What holds after every script."""
    if any(l.is_locked for l in w.locks):
        w.c.fail("lock-kept", "the script ends with the lock")
    if w.inited != 1 or w.shut != 1:
        w.c.fail("shutdown", "rclpy was initialized %d and shut down %d times" % (w.inited, w.shut))
    if isinstance(code, str) and code.startswith(("AttributeError", "TypeError", "NameError", "KeyError", "UnboundLocalError", "IndexError")):
        w.c.fail("crash", code)


FILES = {}


def files():
    if FILES:
        return
    for n, text in {
        "a.yaml": "c1:\n  ros__parameters:\n    type: T1\n    fallback_controllers: [f]\n    gain: 1\n",
        "all.yaml": "/**:\n  ros__parameters:\n    gain: 2\n",
        "other.yaml": "zz:\n  ros__parameters:\n    type: TZ\n",
    }.items():
        FILES[n] = os.path.join(SCRATCH, n)
        with open(FILES[n], "w") as f:
            f.write(text)


# ---- the spawner
def spawn(c, deep, group, advanced, nfaults, ninterrupts):
    w = World(c, faults=nfaults, interrupts=ninterrupts)
    w.lock_expected = True
    names = ["c1", "c2"]
    start = {}
    for n in names:
        start[n] = c.pick(STATES if n == "c1" or not nfaults else ("unloaded", "inactive"), "state of " + n)
    w.controllers = dict(start, other="active")
    kill = c.flip("--unload-on-kill")
    argv = ["spawner"]
    wish, params, ros = {}, {}, {}
    opts = (kill and ["-u"] or []) + (group and ["--activate-as-group"] or [])
    asap = c.flip("--switch-asap") if not ninterrupts and not nfaults else False
    opts += ["--switch-asap"] if asap else []
    tmo = 0.0
    if nfaults and c.flip("--controller-manager-timeout"):
        tmo = 3.0
        opts += ["--controller-manager-timeout", "3"]
    opts += ["--switch-timeout", "2.5", "--service-call-timeout", "7"] if asap else []
    if advanced:
        for n in names:
            k = c.choose(3, "options of " + n)
            wish[n] = ("active", "inactive", "unconfigured")[k]
            argv += ["--controller", n] + [[], ["--inactive"], ["--load-only"]][k]
            params[n], ros[n] = [], []
            if c.flip("parameters of " + n):
                params[n] = [FILES["all.yaml"]]
                ros[n] = ["-r", "a:=b", "--param", "x:=1"]
                argv += ["-p", FILES["all.yaml"], "--controller-ros-args", "-r a:=b", "--controller-ros-args", "--param x:=1"]
        argv += opts
    else:
        k = c.choose(3, "options")
        argv += names + [[], ["--inactive"], ["--load-only"]][k] + opts
        withp = c.flip("parameters")
        if withp:
            argv += ["-p", FILES["a.yaml"], "-p", FILES["all.yaml"], "--controller-ros-args", "-r a:=b"]
        for n in names:
            wish[n] = ("active", "inactive", "unconfigured")[k]
            params[n] = ([FILES["a.yaml"], FILES["all.yaml"]] if n == "c1" else [FILES["all.yaml"]]) if withp else []
            ros[n] = ["-r", "a:=b"] if withp else []
    code, out = run(w, spawner.main, argv)
    finished(w, code)
    c.note("ends with %s, states %s" % (code, w.controllers))
    s = w.controllers
    if s["other"] != "active":
        c.fail("others", "another controller was touched")
    for service, r, ok in w.calls:
        if service in ("load_controller", "configure_controller", "unload_controller") and r.name not in names:
            c.fail("others", "%s of %s" % (service, r.name))
        if service == "switch_controller":
            if r.strictness != srv.SwitchController.Request.STRICT:
                c.fail("switch", "the switch is not strict")
            if r.activate_asap != asap or (r.timeout.sec, r.timeout.nanosec) != ((2, 500000000) if asap else (5, 0)):
                c.fail("switch", "time out or asap of the switch")
            if list(r.deactivate_controllers) and not (kill and w.interrupted):
                c.fail("switch", "controllers are deactivated")
            if w.interrupted and list(r.activate_controllers) and not w.calls.index((service, r, ok)) == len(w.calls) - 1 and False:
                pass
            if group and list(r.activate_controllers) and list(r.activate_controllers) != [n for n in names if wish[n] == "active"]:
                c.fail("switch", "the group is not activated with one switch")
            if not group and len(r.activate_controllers) > 1:
                c.fail("switch", "controllers are activated together")
    loads = [i for i, x in enumerate(w.calls) if x[0] == "load_controller"]
    for i in loads:
        n = w.calls[i][1].name
        if start[n] != "unloaded":
            c.fail("load", "%s is loaded already" % n)
        given = {}
        for service, r, ok in w.calls[:i]:
            if service == "set_parameters" and ok:
                for p in r.parameters:
                    given[p.name] = value(p.value)
        want = {}
        if params[n]:
            want[n + ".params_file"] = params[n]
        if ros[n]:
            want[n + ".node_options_args"] = ros[n]
        if params[n] and FILES["a.yaml"] in params[n]:
            want[n + ".type"] = "T1"
            want[n + ".fallback_controllers"] = ["f"]
        got = {k: v for k, v in given.items() if k.startswith(n + ".")}
        if got != want:
            c.fail("parameters", "%s is loaded with %s instead of %s" % (n, got, want))
    reached = all(STATES.index(s[n]) >= STATES.index(wish[n]) for n in names)
    if not w.interrupted:
        if code == 0 and not reached:
            c.fail("success", "0 is returned although the controllers are %s" % {n: s[n] for n in names})
        if code == 0 and kill:
            c.fail("kill", "the spawner does not wait for the interrupt")
        if code == "stuck" and kill and w.waiting and reached:
            code = 0
        elif code == "stuck" and not (w.not_ready == 2 and tmo == 0):
            c.fail("stuck", "the spawner waits for ever")
        good = not nfaults and all(wish[n] == "unconfigured" or start[n] != "active" for n in names)
        if good and code != 0:
            c.fail("failure", "%s is returned although nothing failed" % code)
        if code == 0 and any(s[n] != max(start[n] if wish[n] == "unconfigured" else "unloaded", wish[n], key=STATES.index) for n in names):
            c.fail("too-far", "the controllers are %s" % {n: s[n] for n in names})
    elif code == "stuck":
        c.fail("stuck", "the spawner goes on after an interrupt")
    else:
        nice = not w.faulty_before and not nfaults
        if kill and nice:
            left = [n for n in names if wish[n] != "inactive" and s[n] != "unloaded"]
            if left and (w.calls or w.waiting):
                c.fail("not-unloaded", "%s is left after an interrupt: %s" % (left, {n: s[n] for n in names}))
            if code != 0 and w.calls:
                c.fail("failure", "%s is returned after an interrupt" % code)
        if not kill and any(x[0] == "unload_controller" for x in w.calls):
            c.fail("unload", "controllers are unloaded without --unload-on-kill")
        if kill and any(wish[n] == "inactive" and s[n] == "unloaded" and start[n] != "unloaded" for n in names):
            c.fail("unload", "an inactive controller was unloaded")
    c.outcome((str(code), tuple(s[n] for n in names), len(w.calls)))


# ---- the unspawner
def unspawn(c, nfaults):
    w = World(c, faults=nfaults)
    names = [["c1"], ["c1", "c2"]][c.choose(2, "controllers")]
    for n in ("c1", "c2"):
        w.controllers[n] = c.pick(STATES, "state of " + n)
    start = dict(w.controllers)
    w.controllers["other"] = "active"
    w.unspawner = True
    code, out = run(w, unspawner_main(w), ["unspawner"] + names)
    finished(w, code)
    s = w.controllers
    c.note("ends with %s, states %s" % (code, s))
    if s["other"] != "active" or any(s[n] != start[n] for n in start if n not in names):
        c.fail("others", "another controller was touched")
    for service, r, ok in w.calls:
        if service == "switch_controller" and (list(r.activate_controllers) or list(r.deactivate_controllers) != names or r.strictness != srv.SwitchController.Request.STRICT):
            c.fail("switch", "%r" % r)
    if code == 0 and any(s[n] != "unloaded" for n in names):
        c.fail("success", "0 is returned although the controllers are %s" % {n: s[n] for n in names})
    if code == "stuck" and w.not_ready != 2:
        c.fail("stuck", "the unspawner waits for ever")
    if not nfaults and all(start[n] == "active" for n in names) and code != 0:
        c.fail("failure", "%s is returned although nothing failed" % code)
    c.outcome((str(code), tuple(sorted(s.items()))))


def unspawner_main(w):
    # a refused switch does not stop the unspawner, it tries to unload anyway
    def main():
        real = w.call

        def call(node, kind, name, request):
            r = real(node, kind, name, request)
            if name.endswith("/switch_controller"):
                w.faulty = None
            return r

        w.call = call
        return unspawner.main()

    return main


# ---- the hardware spawner
def hardware(c, nfaults):
    ns = c.pick(["/", "/ns"], "namespace")
    given = c.pick([None, "cm", "/abs/cm"], "controller manager")
    full = given if given and given[0] == "/" else (ns if ns != "/" else "") + "/" + (given or "controller_manager")
    w = World(c, namespace=ns, cm=full, faults=nfaults)
    names = [["h1"], ["h1", "h2"], ["zz", "h2"]][c.choose(3, "components")]
    start = {n: c.pick([1, 2, 3], "state of " + n) for n in ("h1", "h2")}
    w.hardware = dict(start)
    target = c.pick([3, 2], "--activate or --configure")
    code, out = run(w, hw_main(w), ["hardware_spawner"] + names + ["--activate" if target == 3 else "--configure"] + (["-c", given] if given else []))
    finished(w, code)
    c.note("ends with %s, states %s" % (code, w.hardware))
    for service, r, ok in w.calls:
        if service not in ("list_hardware_components", "set_hardware_component_state"):
            c.fail("others", service)
        if service == "set_hardware_component_state" and (r.name not in names or r.name not in w.hardware or r.target_state.id != target or r.target_state.label != {3: "active", 2: "inactive"}[target]):
            c.fail("request", "%r" % r)
    for n in w.hardware:
        if n not in names and w.hardware[n] != start[n]:
            c.fail("others", "the state of %s was set" % n)
        if n in names and w.hardware[n] != target and not nfaults:
            c.fail("failure", "%s was not set" % n)
    if code == "stuck" and w.not_ready != 2:
        c.fail("stuck", "the hardware spawner waits for ever")
    c.outcome((str(code), tuple(sorted(w.hardware.items()))))


def hw_main(w):
    def main():
        real = w.call

        def call(node, kind, name, request):
            r = real(node, kind, name, request)
            w.faulty = None  # it goes on with the next component
            return r

        w.call = call
        return hardware_spawner.main()

    return main


# ---- waiting for services and answers
def names_and_waiting(c):
    ns = c.pick(["/", "/ns", "/a/b"], "namespace")
    given = c.pick([None, "cm", "/abs/cm", "x/cm"], "controller manager")
    full = given if given and given[0] == "/" else (ns if ns != "/" else "") + "/" + (given or "controller_manager")
    w = World(c, namespace=ns, cm=full, faults=2, kinds=("lost", "silent"))
    w.lock_expected = True
    w.controllers = {"c1": c.pick(STATES[:2], "state")}
    tmo = c.flip("--controller-manager-timeout")
    code, out = run(w, spawner.main, ["spawner", "c1", "--load-only"] + (["-c", given] if given else []) + (["--controller-manager-timeout", "2"] if tmo else []))
    finished(w, code)
    c.note("ends with %s, states %s" % (code, w.controllers))
    # a repeated request carries the same, at most three times
    same = 1
    for a, b in zip(w.calls, w.calls[1:]):
        same = same + 1 if a[0] == b[0] and repr(a[1]) == repr(b[1]) else 1
        if same > 3:
            c.fail("repeated", "%s is repeated %d times" % (a[0], same))
    if w.not_ready == 2:
        if tmo and code != 1:
            c.fail("timeout", "%s is returned when the services do not come in time" % code)
        if not tmo and code != "stuck":
            c.fail("timeout", "%s is returned without waiting for the services" % code)
    elif code == "stuck":
        c.fail("stuck", "the spawner waits for ever")
    if code == 0 and w.controllers["c1"] == "unloaded":
        c.fail("success", "0 is returned although the controller is not loaded")
    if w.pending and code == 0:
        c.fail("success", "0 is returned although there was no answer")
    c.outcome((str(code), full, len(w.calls)))


# ---- P03: parameter files
KEYS = ("c1", "/c1", "/ns/c1", "/**/c1", "/**/ns/c1", "nested", "nested-ns", "/**", "zz", "/other/c1")


def content(kind, i, what):
    """One parameter file; returns its text."""
    body = []
    if "type" in what:
        body.append("type: T%d" % i)
    if "fallback" in what:
        body.append("fallback_controllers: [f%d, g]" % i)
    body.append("gain: %d" % i)
    if kind == "nested":
        return "/**:\n  c1:\n    ros__parameters:\n" + "".join("      %s\n" % b for b in body)
    if kind == "nested-ns":
        return "/**:\n  /ns/c1:\n    ros__parameters:\n" + "".join("      %s\n" % b for b in body)
    return "%s:\n  ros__parameters:\n" % kind + "".join("    %s\n" % b for b in body)


def applies(kind, ns):
    if kind in ("/**", "/**/c1", "nested"):
        return True
    if kind == "c1" or kind == "/c1":
        return ns == "/"
    if kind in ("/ns/c1", "/**/ns/c1", "nested-ns"):
        return ns == "/ns"
    return False


def parameter_files(c, count):
    ns = c.pick(["/", "/ns"], "namespace")
    w = World(c, namespace=ns, cm=(ns if ns != "/" else "") + "/controller_manager")
    w.controllers = {"c1": "unloaded"}
    paths, spec = [], []
    for i in range(count):
        kind = c.pick(KEYS, "file %d" % i)
        what = c.pick(["", "type", "type fallback", "fallback"], "it has")
        spec.append((kind, what))
        p = os.path.join(SCRATCH, "p%d-%s-%s.yaml" % (i, kind.replace("/", "_").replace("*", "x"), what.replace(" ", "_")))
        if not os.path.exists(p):
            t = p + ".%d" % os.getpid()
            with open(t, "w") as f:
                f.write(content(kind, i, what))
            os.rename(t, p)
        paths.append(p)
    how = c.choose(3 if count > 1 else 2, "given by")
    argv = ["spawner", "c1", "--load-only"]
    if how == 0:
        for p in paths:
            argv += ["-p", p]
    elif how == 1:
        argv += ["--ros-args"]
        for p in paths:
            argv += ["--params-file", p]
    else:
        argv += ["-p", paths[0], "--ros-args", "--params-file", paths[0], "--params-file", paths[1]]
    code, out = run(w, spawner.main, argv)
    finished(w, code)
    if code != 0 or w.controllers["c1"] != "unconfigured":
        c.fail("failure", "%s: the controller is not loaded" % code)
    good = [i for i in range(count) if applies(spec[i][0], ns)]
    want = [paths[i] for i in good]
    got = w.params.get("c1.params_file", [])
    if (got or []) != want:
        c.fail("files", "params_file is %s instead of %s" % ([os.path.basename(x) for x in got], [os.path.basename(x) for x in want]))
    for param, word, val in (("type", "type", lambda i: "T%d" % i), ("fallback_controllers", "fallback", lambda i: ["f%d" % i, "g"])):
        have = [val(i) for i in good if word in spec[i][1]]
        got = w.params.get("c1." + param)
        if not have:
            if got is not None:
                c.fail("parameter", "%s is set to %s from a file for another controller" % (param, got))
        elif got != have[-1]:
            c.fail("override" if got in have else "parameter", "%s is %s instead of %s" % (param, got, have[-1]))
    c.outcome((ns, tuple(spec), repr(w.params)))


# ---- P03: launch descriptions
def launching(c):
    LC = fakeros.LaunchConfiguration
    kind = c.choose(4, "helper")
    names = ["c1", "c2"][: 1 + c.choose(2, "controllers")]
    state = c.choose(3, "arguments")
    extra = [[], ["--inactive"], ["--load-only"]][state]
    given = {}
    if c.flip("another controller manager"):
        given["controller_manager_name"] = "/x/cm"
    if c.flip("unload on kill"):
        given["unload_on_kill"] = "true"
    pf = c.choose(3, "parameter files")
    pfiles = [[], [FILES["all.yaml"]], [FILES["a.yaml"], FILES["all.yaml"]]][pf]
    twice = c.flip("two descriptions from the same arguments")
    wish = {n: ("active", "inactive", "unconfigured")[state] for n in names}
    cm = given.get("controller_manager_name", "/controller_manager")
    kill = given.get("unload_on_kill") == "true"
    keep = (list(names), list(pfiles), list(extra))
    for again in range(2 if twice else 1):
        if kind == 0:
            d = launch_utils.generate_controllers_spawner_launch_description(names, pfiles or None, extra)
        elif kind == 1:
            d = launch_utils.generate_controllers_spawner_launch_description_from_dict({n: (pfiles[0] if len(pfiles) == 1 else pfiles) or None for n in names}, extra)
        elif kind == 2:
            if len(names) > 1 or pf == 2:
                return
            d = launch_utils.generate_load_controller_launch_description(names[0], pfiles[0] if pfiles else None, extra)
        else:
            info = {}
            for i, n in enumerate(names):
                st = (state + i) % 3
                wish[n] = ("active", "inactive", "unconfigured")[st]
                info[n] = {"param_file": (pfiles[0] if len(pfiles) == 1 else pfiles) or None}
                if st == 1 or i:
                    info[n]["inactive"] = st == 1
                if st == 2 or i:
                    info[n]["load_only"] = st == 2
            extra3 = (["-c", given["controller_manager_name"]] if "controller_manager_name" in given else []) + (["-u"] if kill else [])
            d = launch_utils.generate_spawner_launch_description(info, extra3)
        if (list(names), list(pfiles), list(extra)) != keep and kind < 3:
            c.fail("arguments", "the arguments of the caller were changed to %s %s %s" % (names, pfiles, extra))
        cmds = fakeros.command_line(d, given if kind != 3 else {})
        if len(cmds) != 1 or cmds[0][:2] != ("controller_manager", "spawner"):
            c.fail("launch", "%r" % (cmds,))
        w = World(c, cm=cm, interrupts=1 if kill else 0)
        w.maybe_interrupt = lambda where: None
        w.controllers = {n: "unloaded" for n in keep[0]}
        w.controllers["other"] = "inactive"
        code, out = run(w, spawner.main, ["spawner"] + cmds[0][2])
        finished(w, code)
        s = w.controllers
        if code != 0:
            c.fail("launch", "the spawner returns %s %s" % (code, out[-300:]))
        if kill:
            if not w.waiting:
                c.fail("launch", "the spawner does not wait")
        elif any(s[n] != wish[n] for n in keep[0]):
            c.fail("launch", "the controllers are %s" % s)
        want = {n: [p for p in pfiles if p != FILES["a.yaml"] or n == "c1"] for n in keep[0]}
        for n in keep[0]:
            if (w.params.get(n + ".params_file") or []) != want[n]:
                c.fail("launch", "the parameter files of %s are %s" % (n, w.params.get(n + ".params_file")))
        c.outcome((kind, code, tuple(sorted(s.items())), repr(w.params)))


# ---- P02: command line verbs
def verb(c, nfaults, kinds=("refuse",)):
    import argparse
    import importlib

    V = ["set_controller_state", "switch_controllers", "load_controller", "unload_controller", "cleanup_controller", "set_hardware_component_state", "reload_controller_libraries", "list_controllers", "list_hardware_components", "list_controller_types"]
    name = c.pick(V, "verb")
    m = importlib.import_module("ros2controlcli.verb." + name)
    cls = next(v for k, v in vars(m).items() if k.endswith("Verb") and k != "VerbExtension")
    w = World(c, faults=nfaults, kinds=kinds)
    w.controllers = {n: c.pick(STATES, "state of " + n) for n in (("c1", "c2") if name == "switch_controllers" else ("c1",))}
    w.controllers["other"] = "active"
    w.hardware = {"h1": c.pick([1, 2, 3], "state of h1")} if "hardware" in name else {}
    start, hstart = dict(w.controllers), dict(w.hardware)
    argv, target, expect = [], None, None
    goal = dict(start)
    good = True
    S = srv.SwitchController.Request
    if name == "set_controller_state":
        target = c.pick(STATES[1:], "target")
        argv = ["c1", target]
        good = (start["c1"], target) in (("inactive", "unconfigured"), ("unconfigured", "inactive"), ("active", "inactive"), ("inactive", "active"))
        goal["c1"] = target
    elif name == "switch_controllers":
        a = c.pick([[], ["c1"], ["c2"], ["c1", "c2"]], "activate")
        d = c.pick([[], ["c1"], ["c2"], ["c1", "c2"]], "deactivate")
        strict = c.choose(3, "strictness")
        asap, tmo = c.flip("asap"), c.pick([None, "2", "0.5"], "time out")
        argv = (["--activate"] + a if a else []) + (["--deactivate"] + d if d else []) + [[], ["--strict"], ["--best-effort"]][strict] + (["--activate-asap"] if asap else []) + (["--switch-timeout", tmo] if tmo else [])
        t = float(tmo or 5)
        expect = S(activate_controllers=a, deactivate_controllers=d, strictness=[0, S.STRICT, S.BEST_EFFORT][strict], activate_asap=asap,
                   timeout=fakeros.Duration(seconds=t).to_msg())
        good = all(start[n] == "inactive" for n in a) and all(start[n] == "active" for n in d)
        for n in a:
            goal[n] = "active"
        for n in d:
            goal[n] = "inactive"
    elif name == "load_controller":
        files_ = c.pick([None, "a.yaml", "missing"], "parameters")
        target = c.pick([None, "inactive", "active"], "set state")
        argv = ["c1"] + ([FILES.get(files_, "/missing.yaml")] if files_ else []) + (["--set-state", target] if target else [])
        good = not (files_ == "missing" and start["c1"] == "unloaded") and (target is None or start["c1"] != "active")
        if start["c1"] == "unloaded":
            goal["c1"] = "unconfigured"
        goal["c1"] = target or goal["c1"]
    elif name in ("unload_controller", "cleanup_controller"):
        argv = ["c1"]
        good = start["c1"] in ("unconfigured", "inactive")
        goal["c1"] = "unloaded" if name[0] == "u" else "unconfigured"
    elif name == "set_hardware_component_state":
        target = c.pick(["unconfigured", "inactive", "active"], "target")
        argv = ["h1", target]
    elif name == "reload_controller_libraries":
        target = c.flip("--force-kill")
        argv = ["--force-kill"] if target else []
    elif name == "list_controllers":
        argv = c.pick([[], ["-v"]], "verbose")
    elif name == "list_hardware_components":
        argv = c.pick([[], ["-v"]], "verbose")
    if name == "list_controller_types":
        orig = w.apply

        def apply(service, r, response, fault):
            if service == "list_controller_types":
                response.types, response.base_classes = ["A", "B"], ["x", "y"]
                return True
            return orig(service, r, response, fault)

        w.apply = apply
    if c.flip("another controller manager"):
        argv += ["-c", "/x/cm"]
        w.cm = "/x/cm"

    def main():
        fakeros.W.init()
        try:
            v = cls()
            p = argparse.ArgumentParser()
            v.add_arguments(p, name)
            return v.main(args=p.parse_args(argv))
        finally:
            fakeros.W.shutdown()

    code, out = run(w, main, [name] + argv)
    finished(w, code)
    s = w.controllers
    c.note("ends with %s, states %s" % (code, s))
    refused = any(not ok for _, _, ok in w.calls)
    if code == "stuck":
        if w.not_ready != 2:
            c.fail("stuck", "the verb waits for ever")
        return
    if isinstance(code, str):
        if not (w.not_ready == 2 and code.startswith("ServiceNotFoundError")) and not (w.pending and code.startswith("RuntimeError")):
            c.fail("crash", code)
        code = 1
    lost = w.not_ready == 2 or kinds != ("refuse",) and w.faults < nfaults
    if w.nodes:
        c.fail("node", "the node is left")
    if any(s[n] != start[n] for n in s if n not in ("c1", "c2")):
        c.fail("others", "another controller was touched")
    if w.pending and code == 0:
        c.fail("answer", "0 is returned although there was no answer")
    if not lost and (code == 0) != (not refused and good):
        c.fail("answer", "%s is returned although %s" % (code, "a call failed" if refused else "nothing failed" if good else "it is not possible"))
    if code == 0 and s != goal:
        c.fail("state", "the controllers are %s instead of %s" % (s, goal))
    if lost:
        c.outcome((name, str(code), tuple(sorted(s.items()))))
        return
    if code != 0 and not good and not nfaults and name != "load_controller" and s != start:
        c.fail("state", "the controllers are %s after a refusal" % s)
    if expect is not None:
        r = [r for k, r, ok in w.calls if k == "switch_controller"]
        if r != [expect]:
            c.fail("request", "%r instead of %r" % (r, expect))
    if name == "set_hardware_component_state":
        want = {"unconfigured": 1, "inactive": 2, "active": 3}[target]
        r = [r for k, r, ok in w.calls if k == name]
        if len(r) != 1 or r[0].name != "h1" or r[0].target_state.id != want or r[0].target_state.label != target:
            c.fail("request", "%r" % r)
    if name == "reload_controller_libraries":
        r = [r for k, r, ok in w.calls if k == name]
        if len(r) != 1 or r[0].force_kill != target:
            c.fail("request", "%r" % r)
    if name == "list_controllers":
        for n, st in s.items():
            if (n + " " in out) != (st != "unloaded"):
                c.fail("list", out)
            if st != "unloaded" and not any(n in line and " " + st in line for line in out.split("\n")):
                c.fail("list", out)
    if name == "list_hardware_components" and "h1" not in out:
        c.fail("list", out)
    if name == "list_controller_types" and not ("A" in out and "B" in out and "x" in out and "y" in out):
        c.fail("list", out)
    c.outcome((name, str(code), tuple(sorted(s.items()))))


def main():
    prop = sys.argv[1]
    k = pymc.Check(prop)
    files()
    D = k.thorough()
    k.rule = "an execution is one run of a script with its options, the states of the controllers, the faults and the interrupts chosen; outcomes are distinct results and states"
    if prop == "P01":
        for g in (0, 1):
            for a in (0, 1):
                n = ("advanced " if a else "") + ("group" if g else "one by one")
                k.explore("spawner " + n, lambda c, g=g, a=a: spawn(c, D, g, a, 0, 0), "every option and state of two controllers, nothing fails")
                k.explore("spawner with a fault " + n, lambda c, g=g, a=a: spawn(c, D, g, a, 2 if D else 1, 0), "and one (2) refusals, lost requests or answers, missing services or locks at any point")
                k.explore("spawner with an interrupt " + n, lambda c, g=g, a=a: spawn(c, D, g, a, 0, 2 if D else 1), "and an interrupt (2) at any point")
        k.explore("names and waiting", names_and_waiting, "names of the controller manager and namespaces, services that are missing and answers that are lost, twice")
        k.explore("unspawner", lambda c: unspawn(c, 2), "states of two controllers, up to two faults")
        k.explore("hardware spawner", lambda c: hardware(c, 2 if D else 1), "states of hardware, names, faults")
    elif prop == "P02":
        k.explore("verbs", lambda c: verb(c, 0), "every verb, state and argument, nothing fails")
        k.explore("verbs with faults", lambda c: verb(c, 1), "and one refusal at any point")
        k.explore("verbs with lost calls", lambda c: verb(c, 2 if D else 1, ("lost", "silent")), "and one (2) lost requests or answers, or none from then on")
    elif prop == "P03":
        k.explore("one parameter file", lambda c: parameter_files(c, 1), "every layout of one file")
        k.explore("two parameter files", lambda c: parameter_files(c, 2), "every layout of two files")
        if D:
            k.explore("three parameter files", lambda c: parameter_files(c, 3), "every layout of three files")
        k.explore("launch descriptions", launching, "every helper, argument and launch argument, run through the spawner")
    else:
        return 2
    return k.finish()


if __name__ == "__main__":
    pid = os.getpid()
    try:
        code = main()
    finally:
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(code)
