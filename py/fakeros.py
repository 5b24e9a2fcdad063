"""Stand-ins for the Python libraries of ROS, with messages made from the .msg and .srv files."""
import os
import re
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
W = None  # the world of the current execution


def module(name, **attrs):
    parts = name.split(".")
    for i in range(1, len(parts) + 1):
        n = ".".join(parts[:i])
        if n not in sys.modules:
            m = types.ModuleType(n)
            m.__path__ = []
            sys.modules[n] = m
            if i > 1:
                setattr(sys.modules[".".join(parts[: i - 1])], parts[i - 1], m)
    for k, v in attrs.items():
        setattr(sys.modules[name], k, v)
    return sys.modules[name]


# ---- messages
INTS = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "byte", "char"}
TYPES = {}


def default(t, pkg):
    m = re.match(r"^(.*?)\[(<?=?\d*)\]$", t)
    if m:
        return []
    t = re.sub(r"<=\d+", "", t)
    if t == "string":
        return ""
    if t == "bool":
        return False
    if t in INTS:
        return 0
    if t in ("float32", "float64"):
        return 0.0
    p, b = t.split("/") if "/" in t else (pkg, t)
    return TYPES[(p, b)]()


def check(t, pkg, v, where):
    m = re.match(r"^(.*?)\[(<?=?\d*)\]$", t)
    if m:
        if isinstance(v, (str, bytes)) or not hasattr(v, "__iter__"):
            raise AssertionError("The '%s' field must be a sequence" % where)
        for x in v:
            check(m[1], pkg, x, where)
        return
    t = re.sub(r"<=\d+", "", t)
    if t == "string":
        ok = isinstance(v, str)
    elif t == "bool":
        ok = isinstance(v, bool)
    elif t in INTS:
        ok = isinstance(v, int)
    elif t in ("float32", "float64"):
        ok = isinstance(v, float)
    else:
        ok = isinstance(v, TYPES[tuple(t.split("/")) if "/" in t else (pkg, t)])
    if not ok:
        raise AssertionError("The '%s' field must be of type '%s', not %r" % (where, t, v))


def message(pkg, name, text):
    fields, consts = {}, {}
    for line in text.splitlines():
        line = re.sub(r'^([^"#]*)#.*', r"\1", line).strip()
        if not line:
            continue
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$", line)
        if m:
            consts[m[2]] = m[3].strip() if m[1] == "string" else int(m[3])
            continue
        m = re.match(r"^(\S+)\s+([a-z][A-Za-z0-9_]*)(?:\s+(.+))?$", line)
        fields[m[2]] = m[1]

    class Message:
        __slots__ = tuple(fields)

        def __init__(self, **kw):
            for f, t in fields.items():
                object.__setattr__(self, f, default(t, pkg))
            for k, v in kw.items():
                setattr(self, k, v)

        def __setattr__(self, k, v):
            if k not in fields:
                raise AttributeError("%s has no field %s" % (name, k))
            check(fields[k], pkg, v, k)
            object.__setattr__(self, k, v)

        def __eq__(self, other):
            return type(other) is type(self) and all(getattr(self, f) == getattr(other, f) for f in fields)

        __hash__ = None

        def __repr__(self):
            return name + "(" + ", ".join("%s=%r" % (f, getattr(self, f)) for f in fields) + ")"

    for k, v in consts.items():
        setattr(Message, k, v)
    Message.__name__ = name
    return Message


def load_messages():
    for base in (os.path.join(os.path.dirname(HERE), "stubs", "msgdefs"), None):
        for pkg in sorted(os.listdir(base)) if base else ["controller_manager_msgs"]:
            for kind in ("msg", "srv"):
                d = os.path.join(base or REPO, pkg, kind)
                if not os.path.isdir(d):
                    continue
                for f in sorted(os.listdir(d)):
                    n, ext = os.path.splitext(f)
                    text = open(os.path.join(d, f)).read()
                    if ext == ".msg":
                        TYPES[(pkg, n)] = message(pkg, n, text)
                        module(pkg + ".msg", **{n: TYPES[(pkg, n)]})
                    elif ext == ".srv":
                        a, b = re.split(r"(?m)^---\s*$", text, maxsplit=1)
                        module(pkg + ".srv", **{n: type(n, (), {"Request": message(pkg, n + "_Request", a), "Response": message(pkg, n + "_Response", b)})})


class SetParameters:
    pass


class ListParameters:
    pass


def ros_parameters():
    Request = type("SetParameters_Request", (), {})
    Request.__init__ = lambda self: setattr(self, "parameters", [])
    Response = type("SetParameters_Response", (), {})
    Response.__init__ = lambda self: setattr(self, "results", [])
    SetParameters.Request, SetParameters.Response = Request, Response
    ListParameters.Request = type("ListParameters_Request", (), {})
    module("rcl_interfaces.srv", SetParameters=SetParameters, ListParameters=ListParameters)


# ---- rclpy
class Logger:
    def _log(self, *a, **k):
        pass

    debug = info = warning = warn = error = fatal = _log


class Future:
    def __init__(self, value):
        self._value = value

    def result(self):
        return self._value

    def done(self):
        return self._value is not None


class Client:
    def __init__(self, node, srv, name):
        self.node, self.srv, self.name = node, srv, name

    def service_is_ready(self):
        return W.ready(self.name)

    def wait_for_service(self, timeout_sec=None):
        return W.wait(self.name, timeout_sec)

    def call_async(self, request):
        return Future(W.call(self.node, self.srv, self.name, request))


class Node:
    def __init__(self, name, **kw):
        self.name = name
        W.node_created(self)

    def get_namespace(self):
        return W.namespace

    def get_name(self):
        return self.name

    def get_logger(self):
        return Logger()

    def create_client(self, srv, name):
        return Client(self, srv, name)

    def destroy_node(self):
        W.node_destroyed(self)


class Duration:
    def __init__(self, *, seconds=0, nanoseconds=0):
        if isinstance(seconds, str):
            raise ValueError("Exceeds the limit for integer string conversion")  # of a billion repetitions, without building them
        self.nanoseconds = int(seconds * 1000000000) + int(nanoseconds)

    def to_msg(self):
        return TYPES[("builtin_interfaces", "Duration")](sec=self.nanoseconds // 1000000000, nanosec=self.nanoseconds % 1000000000)


def remove_ros_args(args=None):
    out, ros = [], False
    for a in args if args is not None else sys.argv:
        if a == "--ros-args":
            ros = True
        elif ros and a == "--":
            ros = False
        elif not ros:
            out.append(a)
    return out


def get_parameter_value(string_value):
    import yaml

    V = TYPES[("rcl_interfaces", "ParameterValue")]
    try:
        v = yaml.safe_load(string_value)
    except yaml.YAMLError:
        v = string_value
    r = V()
    if isinstance(v, bool):
        r.type, r.bool_value = 1, v
    elif isinstance(v, int):
        r.type, r.integer_value = 2, v
    elif isinstance(v, float):
        r.type, r.double_value = 3, v
    elif isinstance(v, list):
        if all(isinstance(x, bool) for x in v):
            r.type, r.bool_array_value = 6, v
        elif all(isinstance(x, int) for x in v):
            r.type, r.integer_array_value = 7, v
        elif all(isinstance(x, str) for x in v):
            r.type, r.string_array_value = 9, v
        else:
            r.type, r.string_value = 4, string_value
    else:
        r.type, r.string_value = 4, string_value
    return r


class Timeout(TimeoutError):
    pass


class FileLock:
    def __init__(self, path, *a, **k):
        self.path, self.is_locked = str(path), False
        W.locks.append(self)

    def acquire(self, timeout=None, *a, **k):
        W.lock(self)
        self.is_locked = True
        return self

    def release(self, *a, **k):
        self.is_locked = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install():
    load_messages()
    ros_parameters()
    module("rclpy", init=lambda args=None, **k: W.init(), shutdown=lambda **k: W.shutdown(), ok=lambda **k: True,
           spin_until_future_complete=lambda node, future, executor=None, timeout_sec=None: W.spin(future, timeout_sec))
    module("rclpy.node", Node=Node)
    module("rclpy.signals", SignalHandlerOptions=type("SignalHandlerOptions", (), {"NO": 0, "ALL": 3, "SIGINT": 1, "SIGTERM": 2}))
    module("rclpy.utilities", remove_ros_args=remove_ros_args)
    module("rclpy.duration", Duration=Duration)
    module("rclpy.logging", get_logger=lambda n: Logger())
    module("rclpy.parameter", get_parameter_value=get_parameter_value)
    module("filelock", FileLock=FileLock, Timeout=Timeout)
    import signal
    import time

    signal.signal = lambda s, h: W.signal(s, h)
    time.sleep = lambda s: W.sleep(s)
    launch_modules()
    cli_modules()
    sys.path.insert(0, os.path.join(REPO, "controller_manager"))
    sys.path.insert(0, os.path.join(REPO, "ros2controlcli"))


# ---- launch
class Substitution:
    pass


class LaunchConfiguration(Substitution):
    def __init__(self, name, default=None):
        self.name, self.default = name, default

    def perform(self, conf):
        return conf[self.name]


class PythonExpression(Substitution):
    def __init__(self, expression, python_modules=()):
        self.expression = expression

    def perform(self, conf):
        return str(eval(perform(self.expression, conf), {}, {}))


class PathJoinSubstitution(Substitution):
    def __init__(self, parts):
        self.parts = parts

    def perform(self, conf):
        return os.path.join(*[perform(p, conf) for p in self.parts])


def perform(x, conf):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return "".join(perform(y, conf) for y in x)
    return x.perform(conf)


class DeclareLaunchArgument:
    def __init__(self, name, *, default_value=None, description=None, **k):
        self.name, self.default_value = name, default_value


class LaunchNode:
    def __init__(self, *, package=None, executable=None, arguments=None, shell=False, output=None, **k):
        self.package, self.executable, self.arguments, self.shell = package, executable, list(arguments or []), shell


class LaunchDescription:
    def __init__(self, entities=()):
        self.entities = list(entities)


def launch_modules():
    module("launch", LaunchDescription=LaunchDescription)
    module("launch.actions", DeclareLaunchArgument=DeclareLaunchArgument)
    module("launch.substitutions", LaunchConfiguration=LaunchConfiguration, PythonExpression=PythonExpression, PathJoinSubstitution=PathJoinSubstitution)
    module("launch_ros")
    module("launch_ros.actions", Node=LaunchNode)
    module("launch_testing_ros")
    module("launch_testing_ros.wait_for_topics", WaitForTopics=object)


def command_line(description, given):
    """The command lines which launch runs for a description and arguments."""
    import shlex

    conf = dict(given)
    out = []
    for e in description.entities:
        if isinstance(e, DeclareLaunchArgument):
            conf.setdefault(e.name, perform(e.default_value, conf))
        elif isinstance(e, LaunchNode):
            args = [perform(a, conf) for a in e.arguments]
            ros = ["--ros-args"]
            if e.shell:
                args = shlex.split(" ".join(args))
            out.append((e.package, e.executable, args + ros))
    return out


# ---- the command line interface
class NodeStrategy:
    def __init__(self, args, **k):
        pass

    def __enter__(self):
        self.node = Node("_ros2cli")
        return self

    def __exit__(self, *a):
        self.node.destroy_node()

    @property
    def direct_node(self):
        return DirectNode(None)


class DirectNode(NodeStrategy):
    def __enter__(self):
        super().__enter__()
        return self.node


def cli_modules():
    Base = type("VerbExtension", (), {})
    module("ros2cli.node.direct", add_arguments=lambda parser: None, DirectNode=DirectNode)
    module("ros2cli.node.strategy", NodeStrategy=NodeStrategy)
    module("ros2cli.verb", VerbExtension=Base)
    module("ros2cli.command", CommandExtension=type("CommandExtension", (), {}), add_subparsers_on_demand=lambda *a, **k: None)
    module("ros2node.api", NodeNameCompleter=lambda **k: None)
    module("ros2param.api", get_parameter_value=get_parameter_value)
