"""A deterministic, single-threaded executor for TensorFlow 1 graphs.

The graph is the one the real zhusuan code built; kernels are TensorFlow's own
CPU kernels, called one operation at a time.  What is replaced is the TF
runtime's nondeterminism: which ready operation runs next (a seeded scheduler
decides), where random numbers come from (a seeded stream), whether an
operation fails and what else still completes after it, and the variable store.

The scheduling rules are those of TF's own executor (propagator_state.cc):
frames and iterations, dead tensors, Merge counting, dead exits, bounded
parallel iterations.  Reference variables alias their buffer exactly as in TF:
a value read through Identity, Switch, Merge, Enter, StopGradient, Reshape, ...
is a view, so that a later assignment in the same run is visible through it,
while arithmetic takes a snapshot.
"""
from . import tfenv  # noqa: F401
import numpy as np
import tensorflow as tf
from tensorflow.python import pywrap_tfe
from tensorflow.python.client import session as _tf_session
from tensorflow.python.eager import context as _ectx
from tensorflow.python.framework import ops as _ops
from tensorflow.python.framework import tensor_util, errors_impl, dtypes
from tensorflow.core.framework import attr_value_pb2  # noqa: F401

from .rng import RngSeam, RANDOM_OPS


class HarnessError(Exception):
    """The simulator met something it does not model: never a verdict."""


class StepBudget(HarnessError):
    """A simulated run did not finish within the step budget."""


class SimFault(tf.errors.OpError):
    """An injected operation failure."""

    def __init__(self, op_name):
        super(SimFault, self).__init__(None, None,
                                       "injected fault at %s" % op_name,
                                       tf.errors.INTERNAL)


class _Dead(object):
    __slots__ = ()

    def __repr__(self):
        return "DEAD"


DEAD = _Dead()


class Var(object):
    __slots__ = ("name", "value", "kind", "writes")

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.value = None
        self.writes = 0


class Ref(object):
    """A reference-typed tensor: points at a variable."""
    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var


class Alias(object):
    """A plain tensor that shares the variable's buffer through view ops."""
    __slots__ = ("var", "fns")

    def __init__(self, var, fns):
        self.var = var
        self.fns = fns


class Handle(object):
    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var


def _uninit(var):
    return errors_impl.FailedPreconditionError(
        None, None, "Attempting to use uninitialized value %s" % var.name)


def deref(v):
    t = type(v)
    if t is Ref:
        if v.var.value is None:
            raise _uninit(v.var)
        return v.var.value
    if t is Alias:
        x = v.var.value
        if x is None:
            raise _uninit(v.var)
        for f in v.fns:
            x = f(x)
        return x
    return v


# --------------------------------------------------------------- kernels
_CTX = None


def _ctx():
    global _CTX
    if _CTX is None:
        with _ectx.eager_mode():
            _ectx.context().ensure_initialized()
            _CTX = _ectx.context()
    return _CTX


_CPU = "/job:localhost/replica:0/task:0/device:CPU:0"


def to_eager(x, dtype=None):
    if isinstance(x, _ops.EagerTensor):
        return x
    if dtype is not None:
        dt = dtypes.as_dtype(dtype).base_dtype
        a = np.asarray(x, dtype=dt.as_numpy_dtype)
    else:
        a = np.asarray(x)
        dt = None
    _ctx()
    with _ectx.eager_mode():
        return _ops.convert_to_tensor(a, dtype=dt)


def to_np(x):
    return x.numpy() if isinstance(x, _ops.EagerTensor) else np.asarray(x)


def _attr_flat(op):
    flat = []
    for key in sorted(op.node_def.attr):
        if key.startswith("_"):
            continue
        v = op.get_attr(key)
        if isinstance(v, dtypes.DType):
            v = v.base_dtype.as_datatype_enum
        elif isinstance(v, (list, tuple)):
            v = [x.base_dtype.as_datatype_enum
                 if isinstance(x, dtypes.DType) else x for x in v]
        elif hasattr(v, "dim") and hasattr(v, "unknown_rank"):
            v = (None if v.unknown_rank else [d.size for d in v.dim])
        flat.extend((key, v))
    return tuple(flat)


def call_kernel(op_type, inputs, attrs, n_out):
    try:
        return pywrap_tfe.TFE_Py_Execute(
            _ctx()._handle, _CPU, op_type, inputs, attrs, n_out)
    except Exception as e:  # noqa: BLE001
        from tensorflow.python.framework import errors_impl as ei
        code = getattr(e, "code", None)
        msg = getattr(e, "message", None)
        if type(e).__name__ == "_NotOkStatusException" or (
                code is not None and msg is not None
                and not isinstance(e, ei.OpError)):
            cls = ei._CODE_TO_EXCEPTION_CLASS.get(code)
            if cls is None:
                raise HarnessError("kernel %s: %s" % (op_type, e))
            if cls in (ei.UnimplementedError, ei.NotFoundError):
                raise HarnessError("kernel %s: %s" % (op_type, msg))
            raise cls(None, None, "%s: %s" % (op_type, msg))
        raise


# view operations: output shares the buffer of input 0
VIEW_OPS = {"Identity", "StopGradient", "PreventGradient", "CheckNumerics",
            "Reshape", "Squeeze", "ExpandDims", "EnsureShape", "Enter",
            "Exit", "NextIteration", "Switch", "Merge"}
_SWITCH = {"Switch", "RefSwitch"}
_MERGE = {"Merge", "RefMerge"}
_ENTER = {"Enter", "RefEnter"}
_EXIT = {"Exit", "RefExit"}
_NEXT = {"NextIteration", "RefNextIteration"}
_IDENT = {"Identity", "StopGradient", "PreventGradient", "RefIdentity",
          "LoopCond", "Enter", "Exit", "NextIteration", "RefEnter", "RefExit",
          "RefNextIteration"}
WRITE_OPS = {"Assign", "AssignAdd", "AssignSub", "AssignVariableOp",
             "AssignAddVariableOp", "AssignSubVariableOp",
             "ApplyGradientDescent", "ResourceApplyGradientDescent"}

(K_NORMAL, K_SWITCH, K_MERGE, K_ENTER, K_EXIT, K_NEXT) = range(6)


class Node(object):
    __slots__ = ("id", "name", "type", "op", "kind", "n_in", "n_ctrl", "n_out",
                 "out_edges", "ctrl_edges", "run", "attrs", "frame_name",
                 "is_const_enter", "parallel", "const", "in_src", "reads_var",
                 "writes_var", "fetch_slot", "init_pending")

    def __repr__(self):
        return "<%s %s>" % (self.type, self.name)


class Iter(object):
    __slots__ = ("pending", "dead", "inputs", "outstanding", "frames")

    def __init__(self):
        self.pending = {}
        self.dead = {}
        self.inputs = {}
        self.outstanding = 0
        self.frames = 0


class Frame(object):
    __slots__ = ("name", "parent", "parent_iter", "iters", "count",
                 "outstanding", "parallel", "pending_inputs", "next_roots",
                 "inv", "dead_exits", "path")

    def __init__(self, name, parent, parent_iter, parallel, pending_inputs):
        self.name = name
        self.parent = parent
        self.parent_iter = parent_iter
        self.iters = {0: Iter()}
        self.count = 0
        self.outstanding = 1
        self.parallel = parallel
        self.pending_inputs = pending_inputs
        self.next_roots = []
        self.inv = []
        self.dead_exits = []
        self.path = "" if parent is None else "%s/%s@%d" % (
            parent.path, name, parent_iter)


class Plan(object):
    """The pruned, indexed graph for one (fetches, feeds) pair."""

    def __init__(self, sess, fetch_tensors, target_ops, fed):
        self.nodes = []
        self.enter_count = {}
        self.by_name = {}
        fed = set(fed)
        needed = {}
        order = []
        stack = [t.op for t in fetch_tensors if t.ref() not in fed]
        stack += list(target_ops)
        while stack:
            op = stack.pop()
            if op.name in needed:
                continue
            needed[op.name] = op
            order.append(op)
            for t in op.inputs:
                if t.ref() not in fed:
                    stack.append(t.op)
            for c in op.control_inputs:
                if c.type == "Placeholder" and c.outputs[0].ref() in fed:
                    continue
                stack.append(c)
        # deterministic order: creation order
        order.sort(key=lambda o: o._id)
        idx = {}
        for op in order:
            n = self._mk(op)
            idx[op.name] = n
        self.feed_edges = {}   # tensor ref -> list of (dst node, slot)
        self.roots = []
        for op in order:
            n = idx[op.name]
            n.n_in = len(op.inputs)
            for slot, t in enumerate(op.inputs):
                if t.ref() in fed:
                    self.feed_edges.setdefault(t.ref(), []).append((n, slot))
                else:
                    src = idx[t.op.name]
                    src.out_edges[t.value_index].append((n, slot))
            nc = 0
            for c in op.control_inputs:
                if c.type == "Placeholder" and c.outputs[0].ref() in fed:
                    continue
                idx[c.name].ctrl_edges.append(n)
                nc += 1
            n.n_ctrl = nc
        # fetch pseudo-nodes
        self.fetches = []
        for i, t in enumerate(fetch_tensors):
            n = Node()
            n.id = len(self.nodes)
            n.name = "_Retval_%d/%s" % (i, t.name)
            n.type = "_Retval"
            n.op = None
            n.kind = K_NORMAL
            n.n_in = 1
            n.n_ctrl = 0
            n.n_out = 0
            n.out_edges = []
            n.ctrl_edges = []
            n.frame_name = None
            n.reads_var = False
            n.writes_var = False
            n.attrs = None
            n.const = None
            n.fetch_slot = i
            self.nodes.append(n)
            if t.ref() in fed:
                self.feed_edges.setdefault(t.ref(), []).append((n, 0))
            else:
                idx[t.op.name].out_edges[t.value_index].append((n, 0))
            self.fetches.append(n)
        for n in self.nodes:
            n.init_pending = (n.n_ctrl * 2 + 1) if n.kind == K_MERGE \
                else n.n_in + n.n_ctrl
            if n.n_in == 0 and n.n_ctrl == 0:
                self.roots.append(n)
        self.by_name = idx
        self.n_fetch = len(fetch_tensors)
        for n in self.nodes:
            if n.type != "_Retval":
                bind(n)

    def writers(self):
        if not hasattr(self, "_writers"):
            self._writers = [n for n in self.nodes if n.writes_var]
        return self._writers

    def ancestors(self, node):
        """ids of everything that must run before `node` (loop edges included)"""
        if not hasattr(self, "_anc"):
            self._anc = {}
            self._rev = {n.id: [] for n in self.nodes}
            for n in self.nodes:
                for edges in n.out_edges:
                    for d, _ in edges:
                        self._rev[d.id].append(n.id)
                for d in n.ctrl_edges:
                    self._rev[d.id].append(n.id)
        a = self._anc.get(node.id)
        if a is None:
            a = set()
            stack = [node.id]
            while stack:
                for p in self._rev[stack.pop()]:
                    if p not in a:
                        a.add(p)
                        stack.append(p)
            self._anc[node.id] = a
        return a

    def _mk(self, op):
        n = Node()
        n.id = len(self.nodes)
        n.name = op.name
        n.type = op.type
        n.op = op
        n.n_out = len(op.outputs)
        n.out_edges = [[] for _ in op.outputs]
        n.ctrl_edges = []
        n.frame_name = None
        n.is_const_enter = False
        n.const = None
        n.fetch_slot = None
        n.reads_var = False
        n.writes_var = op.type in WRITE_OPS
        t = op.type
        n.kind = K_NORMAL
        if t in _SWITCH:
            n.kind = K_SWITCH
        elif t in _MERGE:
            n.kind = K_MERGE
        elif t in _ENTER:
            n.kind = K_ENTER
            n.frame_name = op.get_attr("frame_name").decode() \
                if isinstance(op.get_attr("frame_name"), bytes) \
                else op.get_attr("frame_name")
            n.is_const_enter = bool(op.get_attr("is_constant"))
            n.parallel = int(op.get_attr("parallel_iterations"))
            self.enter_count[n.frame_name] = \
                self.enter_count.get(n.frame_name, 0) + 1
        elif t in _EXIT:
            n.kind = K_EXIT
        elif t in _NEXT:
            n.kind = K_NEXT
        self.nodes.append(n)
        return n


# ------------------------------------------------------------ op bindings
def _k_ident(sess, n, ins):
    v = ins[0]
    t = type(v)
    if t is Ref:
        if n.type.startswith("Ref"):
            return [v]
        if v.var.value is None:
            raise _uninit(v.var)
        return [Alias(v.var, ())]
    return [v]


def _k_switch(sess, n, ins):
    p = bool(to_np(deref(ins[1])))
    v = ins[0]
    if type(v) is Ref and n.type == "Switch":
        if v.var.value is None:
            raise _uninit(v.var)
        v = Alias(v.var, ())
    return [DEAD, v] if p else [v, DEAD]


def _k_const(sess, n, ins):
    return [n.const]


def _k_noop(sess, n, ins):
    return []


def _k_view(sess, n, ins):
    v = ins[0]
    t = type(v)
    if t is Ref or t is Alias:
        rest = [deref(x) for x in ins[1:]]
        typ, attrs = n.type, n.attrs

        def f(x, typ=typ, attrs=attrs, rest=rest):
            return call_kernel(typ, [x] + rest, attrs, 1)[0]
        fns = (v.fns if t is Alias else ()) + (f,)
        out = Alias(v.var, fns)
        deref(out)     # raises now what the kernel would raise now
        return [out]
    return call_kernel(n.type, [v] + [deref(x) for x in ins[1:]], n.attrs, 1)


def _k_variable(sess, n, ins):
    return [Ref(sess._var(n.name, "ref"))]


def _k_assign(sess, n, ins):
    r = ins[0]
    x = deref(ins[1])
    var = r.var
    if var.value is not None and n.op.get_attr("validate_shape") and \
            var.value.shape != x.shape:
        raise errors_impl.InvalidArgumentError(
            None, None, "Assign requires shapes of both tensors to match. "
            "lhs shape= %s rhs shape= %s" % (var.value.shape, x.shape))
    var.value = x
    var.writes += 1
    sess._on_write(var, n)
    return [r]


def _arith(kind, a, b):
    return call_kernel(kind, [a, b],
                       ("T", a.dtype.base_dtype.as_datatype_enum), 1)[0]


def _k_assign_add(sess, n, ins):
    r = ins[0]
    x = deref(ins[1])
    var = r.var
    if var.value is None:
        raise _uninit(var)
    if var.value.shape != x.shape:
        raise errors_impl.InvalidArgumentError(
            None, None, "shapes must match in assign_add")
    var.value = _arith("AddV2" if n.type == "AssignAdd" else "Sub",
                       var.value, x)
    var.writes += 1
    sess._on_write(var, n)
    return [r]


def _k_apply_gd(sess, n, ins):
    r = ins[0]
    var = r.var
    if var.value is None:
        raise _uninit(var)
    a = deref(ins[1])
    d = deref(ins[2])
    var.value = _arith("Sub", var.value, _arith("Mul", d, a))
    var.writes += 1
    sess._on_write(var, n)
    return [r] if n.type == "ApplyGradientDescent" else []


def _k_isinit(sess, n, ins):
    return [to_eager(np.array(ins[0].var.value is not None))]


def _k_varhandle(sess, n, ins):
    sn = n.op.get_attr("shared_name")
    sn = sn.decode() if isinstance(sn, bytes) else sn
    return [Handle(sess._var(sn or n.name, "resource"))]


def _k_readvar(sess, n, ins):
    var = ins[0].var
    if var.value is None:
        raise _uninit(var)
    return [var.value]


def _k_assignvar(sess, n, ins):
    var = ins[0].var
    var.value = deref(ins[1])
    var.writes += 1
    sess._on_write(var, n)
    return []


def _k_assignaddvar(sess, n, ins):
    var = ins[0].var
    if var.value is None:
        raise _uninit(var)
    var.value = _arith("AddV2" if "Add" in n.type else "Sub",
                       var.value, deref(ins[1]))
    var.writes += 1
    sess._on_write(var, n)
    return []


def _k_varshape(sess, n, ins):
    var = ins[0].var
    if var.value is None:
        raise _uninit(var)
    dt = n.op.get_attr("out_type") if "out_type" in n.op.node_def.attr \
        else dtypes.int32
    return [to_eager(np.array(var.value.shape.as_list(),
                              dtype=dt.as_numpy_dtype))]


def _k_random(sess, n, ins):
    return [sess._draw(n, [to_np(deref(x)) for x in ins])]


def _k_generic(sess, n, ins):
    return call_kernel(n.type, [deref(x) for x in ins], n.attrs, n.n_out)


def _k_placeholder(sess, n, ins):
    raise errors_impl.InvalidArgumentError(
        None, None, "You must feed a value for placeholder tensor '%s'"
        % n.name)


_BIND = {
    "NoOp": _k_noop, "ControlTrigger": _k_noop,
    "VariableV2": _k_variable, "Variable": _k_variable,
    "Assign": _k_assign, "AssignAdd": _k_assign_add,
    "AssignSub": _k_assign_add, "ApplyGradientDescent": _k_apply_gd,
    "ResourceApplyGradientDescent": _k_apply_gd,
    "IsVariableInitialized": _k_isinit, "VarIsInitializedOp": _k_isinit,
    "VarHandleOp": _k_varhandle, "ReadVariableOp": _k_readvar,
    "AssignVariableOp": _k_assignvar,
    "AssignAddVariableOp": _k_assignaddvar,
    "AssignSubVariableOp": _k_assignaddvar,
    "VariableShape": _k_varshape, "Placeholder": _k_placeholder,
    "Switch": _k_switch, "RefSwitch": _k_switch,
}
_UNSUPPORTED = {"Send", "Recv", "_Send", "_Recv", "PyFunc", "EagerPyFunc",
                "While", "If", "StatelessIf", "StatelessWhile",
                "PartitionedCall", "StatefulPartitionedCall"}


def bind(n):
    op = n.op
    t = n.type
    n.attrs = None
    if t in _UNSUPPORTED:
        raise HarnessError("operation type %s is not simulated" % t)
    if t == "Const":
        n.const = to_eager(tensor_util.MakeNdarray(op.get_attr("value")),
                           op.outputs[0].dtype)
        n.run = _k_const
    elif t in _BIND:
        n.run = _BIND[t]
    elif t in _IDENT:
        n.run = _k_ident
    elif t in _MERGE:
        n.run = None
    elif t in RANDOM_OPS:
        n.attrs = {"seed": op.get_attr("seed"), "seed2": op.get_attr("seed2"),
                   "dtype": op.outputs[0].dtype.base_dtype}
        n.run = _k_random
    elif t in VIEW_OPS:
        n.attrs = _attr_flat(op)
        n.run = _k_view
    else:
        n.attrs = _attr_flat(op)
        n.run = _k_generic
    # does it read a reference variable through a view? (scheduling hint only)
    n.reads_var = any(x.dtype._is_ref_dtype or x.op.type in
                      ("ReadVariableOp", "Identity", "Switch", "Enter")
                      for x in op.inputs) and not n.writes_var


# ----------------------------------------------------------------- session
class SimSession(object):
    """Drop-in for the part of tf.Session that zhusuan and its users call."""

    def __init__(self, graph, seed=0, scheduler=None, rng=None,
                 max_steps=200000):
        self.graph = graph
        self.rng = rng if rng is not None else RngSeam(seed)
        self.scheduler = scheduler
        self.vars = {}
        self._plans = {}
        self.run_index = 0
        self.max_steps = max_steps
        self.total_steps = 0
        self.last = None            # RunRecord of the last run
        self.last_plan = None
        self.watch = None           # {op name: [output index]} to record

    # -- tf.Session look-alikes
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    # -- variables
    def _var(self, name, kind):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = Var(name, kind)
        return v

    def _on_write(self, var, node):
        rec = self.last
        if rec is not None:
            rec.writes.append((rec.steps, var.name, node.name))

    def _draw(self, node, ins):
        v = self.rng.draw(self, node, ins)
        return to_eager(v, node.attrs["dtype"])

    @staticmethod
    def vname(variable):
        return variable.op.name

    def get(self, variable):
        name = variable if isinstance(variable, str) else variable.op.name
        v = self.vars.get(name)
        if v is None or v.value is None:
            return None
        return np.array(to_np(v.value))

    def set(self, variable, value):
        name = variable if isinstance(variable, str) else variable.op.name
        dt = None if isinstance(variable, str) else variable.dtype.base_dtype
        v = self._var(name, "ref")
        if dt is None and v.value is not None:
            dt = v.value.dtype
        v.value = to_eager(value, dt)

    def watch_tensors(self, tensors):
        self.watch = {}
        for t in tensors:
            self.watch.setdefault(t.op.name, []).append(t.value_index)

    def snapshot(self):
        return {k: (None if v.value is None else np.array(to_np(v.value)))
                for k, v in self.vars.items()}

    # -- run
    def run(self, fetches, feed_dict=None, options=None, run_metadata=None,
            sched=None, faults=None):
        flat = {}
        if feed_dict:
            for k, v in feed_dict.items():
                for subk, subv in _expand_feed(self.graph, k, v):
                    flat[subk.ref()] = (subk, subv)
        handler = _tf_session._FetchHandler(
            self.graph, fetches,
            {t.ref(): np.asarray(v) for t, v in flat.values()})
        fetch_tensors = handler.fetches()
        targets = handler.targets()
        key = (tuple(t.name for t in fetch_tensors),
               tuple(o.name for o in targets),
               tuple(sorted(t.name for t, _ in flat.values())),
               self.graph.version)
        plan = self._plans.get(key)
        if plan is None:
            plan = Plan(self, list(fetch_tensors), list(targets),
                        list(flat.keys()))
            self._plans[key] = plan
        feeds = {}
        for r, (t, v) in flat.items():
            ev = to_eager(v, t.dtype)
            if not t.shape.is_compatible_with(ev.shape):
                raise ValueError(
                    "Cannot feed value of shape %s for Tensor %s, which has "
                    "shape %s" % (ev.shape, t.name, t.shape))
            feeds[r] = ev
        self.last_plan = plan
        results = self._execute(plan, feeds, sched, faults)
        return handler.build_results(self, [to_np(x) for x in results])

    def _execute(self, plan, feeds, sched, faults):
        rec = RunRecord(self.run_index)
        self.run_index += 1
        self.last = rec
        self.rng.begin_run(rec)
        sch = sched if sched is not None else self.scheduler
        sch.begin_run(plan, rec)
        ex = _Exec(self, plan, feeds, rec, sch, faults)
        try:
            return ex.go()
        finally:
            self.total_steps += rec.steps
            sch.end_run(rec)

    # helper used by _FetchHandler.build_results
    @property
    def sess_str(self):
        return "sim"


def _expand_feed(graph, k, v):
    for tensor_type, _, feed_fn, _ in _tf_session._REGISTERED_EXPANSIONS:
        if isinstance(k, tensor_type):
            out = []
            for subk, subv in feed_fn(k, v):
                t = graph.as_graph_element(subk, allow_tensor=True,
                                           allow_operation=False)
                out.append((t, subv))
            return out
    raise TypeError("cannot feed %r" % (k,))


class RunRecord(object):
    __slots__ = ("index", "steps", "choices", "branching", "trace", "writes",
                 "draws", "fault_hits", "failed", "order_hash", "watched")

    def __init__(self, index):
        self.index = index
        self.steps = 0
        self.choices = {}       # scheduling point -> ready-queue index (if != 0)
        self.branching = 0      # scheduling points with more than one choice
        self.trace = []
        self.writes = []
        self.draws = []
        self.fault_hits = []
        self.failed = None
        self.order_hash = 0
        self.watched = {}


class _Exec(object):
    def __init__(self, sess, plan, feeds, rec, sched, faults):
        self.sess = sess
        self.plan = plan
        self.feeds = feeds
        self.rec = rec
        self.sched = sched
        self.faults = faults
        self.frames = {}
        self.root = Frame("", None, -1, 1, 0)
        self.ready = []
        self.results = [None] * plan.n_fetch
        self.got = [False] * plan.n_fetch

    # ---- activation
    def _activate_edge(self, frame, it, dst, slot, value, src_dead, src_enter):
        """slot is None for control edges; value DEAD for dead data."""
        st = frame.iters[it]
        nid = dst.id
        pend = st.pending
        if nid not in pend:
            pend[nid] = dst.init_pending
            st.dead[nid] = 0
        ready = False
        dead = False
        if dst.kind == K_MERGE:
            if slot is None:
                pend[nid] -= 2
                c = pend[nid]
                dead = st.dead[nid] == dst.n_in
                ready = c == 0 or (c == 1 and dead)
            elif value is not DEAD:
                c = pend[nid]
                if c & 1:
                    pend[nid] = c - 1
                    st.inputs[nid] = (slot, value)
                    ready = (c == 1)
            else:
                st.dead[nid] += 1
                dead = (st.dead[nid] == dst.n_in) or src_enter
                ready = pend[nid] == 1 and dead
        else:
            is_dead = src_dead if slot is None else (value is DEAD)
            if is_dead:
                st.dead[nid] += 1
            if slot is not None and value is not DEAD:
                ins = st.inputs.get(nid)
                if ins is None:
                    ins = st.inputs[nid] = [None] * dst.n_in
                ins[slot] = value
            pend[nid] -= 1
            ready = pend[nid] == 0
            dead = st.dead[nid] > 0
        if ready:
            if dst.type == "ControlTrigger":
                dead = False
            st.outstanding += 1
            self.ready.append((dst, frame, it, dead))

    def _activate_outputs(self, node, frame, it, outs, is_dead):
        src_enter = node.kind == K_ENTER
        for slot, edges in enumerate(node.out_edges):
            if not edges:
                continue
            v = DEAD if is_dead else outs[slot]
            for dst, dslot in edges:
                self._activate_edge(frame, it, dst, dslot, v, is_dead,
                                    src_enter)
        for dst in node.ctrl_edges:
            self._activate_edge(frame, it, dst, None, None, is_dead, src_enter)

    def _increment_iteration(self, frame):
        frame.count += 1
        i = frame.count
        frame.iters[i] = Iter()
        frame.outstanding += 1
        frame.dead_exits = []
        roots, frame.next_roots = frame.next_roots, []
        for node, outs in roots:
            self._activate_outputs(node, frame, i, outs, False)
        for node, outs, d in frame.inv:
            self._activate_outputs(node, frame, i, outs, d)
        return i

    def _iter_done(self, frame, i):
        st = frame.iters.get(i)
        if st is None:
            return False
        if st.outstanding == 0 and st.frames == 0:
            if i == 0:
                return frame.pending_inputs == 0
            return (i - 1) not in frame.iters
        return False

    def _cleanup(self, frame, i):
        while i <= frame.count and self._iter_done(frame, i):
            del frame.iters[i]
            i += 1
            frame.outstanding -= 1
            if frame.next_roots:
                self._increment_iteration(frame)
        return frame.pending_inputs == 0 and frame.outstanding == 0

    def _finish_op(self, frame, it):
        st = frame.iters[it]
        st.outstanding -= 1
        if st.outstanding != 0:
            return
        done = self._cleanup(frame, it)
        while done and frame.parent is not None:
            parent, pit = frame.parent, frame.parent_iter
            for node in frame.dead_exits:
                self._activate_outputs(node, parent, pit, None, True)
            self.frames.pop((frame.name, id(parent), pit), None)
            pst = parent.iters[pit]
            pst.frames -= 1
            if pst.outstanding != 0 or pst.frames != 0:
                return
            frame = parent
            done = self._cleanup(parent, pit)

    def _propagate(self, node, frame, it, outs, is_dead):
        k = node.kind
        if k == K_ENTER:
            key = (node.frame_name, id(frame), it)
            child = self.frames.get(key)
            if child is None:
                child = Frame(node.frame_name, frame, it, node.parallel,
                              self.plan.enter_count[node.frame_name])
                self.frames[key] = child
                frame.iters[it].frames += 1
            if node.is_const_enter:
                child.inv.append((node, outs, is_dead))
                for i in sorted(child.iters):
                    self._activate_outputs(node, child, i, outs, is_dead)
            else:
                self._activate_outputs(node, child, 0, outs, is_dead)
            child.pending_inputs -= 1
        elif k == K_EXIT:
            if is_dead:
                if it == frame.count:
                    frame.dead_exits.append(node)
            else:
                self._activate_outputs(node, frame.parent, frame.parent_iter,
                                       outs, False)
        elif k == K_NEXT:
            if not is_dead:
                if frame.count == it:
                    if frame.outstanding == frame.parallel:
                        frame.next_roots.append((node, outs))
                    else:
                        i = self._increment_iteration(frame)
                        self._activate_outputs(node, frame, i, outs, False)
                else:
                    self._activate_outputs(node, frame, it + 1, outs, False)
        else:
            self._activate_outputs(node, frame, it, outs, is_dead)
        self._finish_op(frame, it)

    # ---- main loop
    def go(self):
        root_it = self.root.iters[0]
        for n in self.plan.roots:
            root_it.outstanding += 1
            self.ready.append((n, self.root, 0, False))
        root_it.outstanding += 1      # keep the root frame alive
        for r, edges in sorted(self.plan.feed_edges.items(),
                               key=lambda kv: kv[0].deref().name):
            v = self.feeds[r]
            for dst, slot in edges:
                self._activate_edge(self.root, 0, dst, slot, v, False, False)
        rec = self.rec
        sess = self.sess
        ready = self.ready
        pick = self.sched.pick
        faults = self.faults
        max_steps = sess.max_steps
        watch = sess.watch
        after_fault = None            # ops that may still complete after a failure
        h = 1469598103934665603
        error = None
        while ready:
            if after_fault is not None:
                if after_fault <= 0:
                    break
                after_fault -= 1
            nr = len(ready)
            if nr > 1:
                i = pick(ready)
                if i:
                    rec.choices[rec.branching] = i
                rec.branching += 1
            else:
                i = 0
            node, frame, it, dead = ready.pop(i)
            rec.steps += 1
            if rec.steps > max_steps:
                raise StepBudget("step budget exceeded (%d)" % max_steps)
            h = ((h ^ (node.id * 31 + it)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
            if dead and node.kind != K_MERGE:
                if node.fetch_slot is not None:
                    frame.iters[it].outstanding -= 1
                    error = error or errors_impl.InvalidArgumentError(
                        None, None, "Retval %s does not have value" % node.name)
                    continue
                self._propagate(node, frame, it, None, True)
                continue
            if dead:
                self._propagate(node, frame, it, None, True)
                continue
            st = frame.iters[it]
            try:
                if faults is not None:
                    f = faults.before_op(sess, node, frame, it, rec)
                    if f is not None:
                        raise f
                if node.kind == K_MERGE:
                    slot, v = st.inputs.pop(node.id)
                    if type(v) is Ref and node.type == "Merge":
                        if v.var.value is None:
                            raise _uninit(v.var)
                        v = Alias(v.var, ())
                    outs = [v, to_eager(np.array(slot, np.int32))
                            if node.out_edges[1:] and node.out_edges[1]
                            else None]
                elif node.fetch_slot is not None:
                    v = st.inputs.pop(node.id)[0]
                    self.results[node.fetch_slot] = deref(v)
                    self.got[node.fetch_slot] = True
                    outs = []
                else:
                    ins = st.inputs.pop(node.id, None)
                    sess._cur = (frame.path, it)
                    outs = node.run(sess, node, ins or [])
                if faults is not None:
                    outs = faults.after_op(sess, node, frame, it, rec, outs)
                if watch is not None and node.name in watch and outs:
                    for k in watch[node.name]:
                        if outs[k] is not None and outs[k] is not DEAD:
                            rec.watched["%s:%d" % (node.name, k)] = np.array(
                                to_np(deref(outs[k])))
            except tf.errors.OpError as e:
                rec.failed = (node.name, type(e).__name__)
                if error is None:
                    error = e
                    after_fault = self.sched.after_fault(rec)
                continue
            self._propagate(node, frame, it, outs, False)
        rec.order_hash = h
        if error is not None:
            raise error
        if not all(self.got):
            missing = [self.plan.fetches[i].name
                       for i, g in enumerate(self.got) if not g]
            raise HarnessError("simulated run ended without %s" % missing)
        return self.results
