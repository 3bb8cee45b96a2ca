"""P11 - a cluster launch gives every process its place in one and the same job."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile

from sim.cluster import ShellInterprets, World, parse_command
from sim.core import Rebound, Scenario, Violation

RULE = ("A plan is a cluster configuration (nodes, port, keys, containers), a script with an argument list, a polluted "
        "launcher environment and start delays/durations of the simulated machines. Non-trivial: at least one remote "
        "node and at least one of: script arguments, non-default port, start order different from spawn order.")
STATE_MEASURE = "distinct (node count, port given, number of arguments, shell-special characters present, start order) tuples"
TIME_UNIT = "seconds of virtual cluster time"
REAL = "feax.distributed.main/_launch/_load_config, argparse, PyYAML, subprocess.run; feax.distributed.initialize in every simulated process"
STUB = "subprocess.Popen (no process is started), ssh, remote shell and docker exec (parsed), jax.distributed.initialize (records the join)"
ASSUMPTIONS = ["ssh joins its arguments with spaces and a POSIX shell on the node splits them; docker exec passes the words on",
               "a literal -- directly after the script name is the end-of-options marker and not an argument",
               "every node has the python3 and container it names"]
CONFIG = dict(quick=dict(wall_s=25, runs=20000, shrink_s=15, plan_s=60),
              thorough=dict(wall_s=600, runs=10 ** 9, shrink_s=30, plan_s=60))

PLAIN = ["a", "x=1", "42", "out/dir", "0.5", "run7"]
FLAGS = ["--steps", "-n", "--out=res", "-v", "--config", "-c", "--help", "--seed=3", "-abc"]
NASTY = ["two words", "", "it's", 'say "hi"', "$HOME", "a;b", "a&b", "`id`", "$(id)", "*", "a|b", ">f", "#x", "~", "\\n", "a\\",
         "new\nline", "tab\there", "über", "{a,b}", "!x", "(y)", "--", "-", "a=b c"]


def yaml_dump(cfg):
    import yaml
    return yaml.safe_dump(cfg, sort_keys=False)


@contextlib.contextmanager
def launcher_env(env, argv):
    saved, sargv = dict(os.environ), sys.argv
    os.environ.update(env)
    sys.argv = argv
    try:
        yield
    finally:
        sys.argv = sargv
        for k in list(os.environ):
            if k not in saved:
                del os.environ[k]
        os.environ.update(saved)


def gen_config(rng, nodes=None):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7]) if nodes is None else nodes
    cfg = dict(coordinator=rng.choice(["192.168.100.10", "head", "node-0.cluster.local", "10.0.0.1"]))
    if rng.random() < 0.6:
        cfg["port"] = rng.choice([1234, 1, 5000, 29500, 65535, 8476])
    shape = rng.random()
    if n or shape < 0.6:
        lst = []
        for i in range(n):
            nd = dict(host=f"10.1.0.{i + 2}" if rng.random() < 0.7 else f"w{i}.local")
            if rng.random() < 0.5:
                nd["ssh_key"] = rng.choice(["/root/.ssh/id", "/root/my keys/id_ed25519", ""])
            if rng.random() < 0.5:
                nd["container"] = rng.choice(["feax", "feax-gpu", "c_1"])
            if rng.random() < 0.2:
                nd["comment"] = "x"
            lst.append(nd)
        if n and rng.random() < 0.15:
            # two processes on one machine
            lst[-1]["host"] = lst[0]["host"]
        cfg["nodes"] = lst
    elif shape < 0.8:
        cfg["nodes"] = None
    if rng.random() < 0.2:
        cfg["note"] = "extra"
    return cfg


def gen_args(rng):
    k = rng.choice([0, 0, 1, 2, 3, 5])
    out = []
    for _ in range(k):
        r = rng.random()
        out.append(rng.choice(PLAIN if r < 0.4 else FLAGS if r < 0.65 else NASTY))
    while out and out[0] == "--":
        out[0] = rng.choice(PLAIN)
    return out


class Launch(Scenario):
    prop, name = "P11", "launch"
    shrink_lists = ("args", "nodes", "specs", "faults", "interrupts")
    check_status = False

    def setup(self):
        import jax
        self.jax = jax
        self.dist = importlib.import_module("feax.distributed")

    def gen(self, rng):
        cfg = gen_config(rng)
        n = 1 + len(cfg.get("nodes") or [])
        specs = [dict(delay=round(rng.choice([0.002, 0.01, 0.5, 3.0, 60.0]) * (0.5 + rng.random()), 4),
                      dur=round(rng.choice([0.1, 1.0, 30.0, 600.0]) * (0.5 + rng.random()), 4), rc=0) for _ in range(n)]
        env = {}
        if rng.random() < 0.4:
            env = {k: v for k, v in [("JAX_COORD_ADDR", "stale-host"), ("JAX_COORD_PORT", "9"), ("JAX_NUM_PROCESSES", "99"),
                                     ("JAX_PROCESS_ID", "5"), ("FOO", "bar baz")] if rng.random() < 0.7}
        return dict(cfg=cfg, args=gen_args(rng), specs=specs, env=env, style=rng.randrange(4),
                    script=rng.choice(["s.py", "dir one/run me.py", "it's.py", "a$b.py"]),
                    body=rng.choice(["print(1)\n", "# x\n" * 400, "import sys\nprint(sys.argv)\n", ""]),
                    faults=[], interrupts=[])

    def normalise(self, plan):
        if plan["args"][:1] == ["--"]:
            return None
        return plan

    def simplify(self, plan):
        nodes = plan["cfg"].get("nodes")
        for i in range(len(nodes or [])):
            c = dict(plan)
            c["cfg"] = dict(plan["cfg"], nodes=nodes[:i] + nodes[i + 1:])
            yield c
        if plan["env"]:
            yield dict(plan, env={})
        if plan["script"] != "s.py":
            yield dict(plan, script="s.py")

    def run(self, plan, res):
        d = tempfile.mkdtemp(prefix="cl.")
        try:
            script = os.path.join(d, plan["script"])
            os.makedirs(os.path.dirname(script), exist_ok=True)
            if not plan.get("missing"):
                with open(script, "w") as f:
                    f.write(plan["body"])
            cfgp = os.path.join(d, "cluster.yml")
            with open(cfgp, "w") as f:
                f.write(yaml_dump(plan["cfg"]))
            opt = [["--config", cfgp], ["-c", cfgp], ["--config=" + cfgp], ["-c" + cfgp]][plan["style"]]
            argv = ["feax.distributed", *opt, script, *plan["args"]]
            w = World(plan["specs"], plan["faults"], plan["interrupts"], res)
            w.dir = d
            exc = None
            err = io.StringIO()
            with launcher_env(plan["env"], argv), w, contextlib.redirect_stderr(err), \
                    contextlib.redirect_stdout(io.StringIO()):
                try:
                    self.dist.main()
                    code = None
                except SystemExit as e:
                    code = e.code
                    exc = e
                except BaseException as e:          # noqa
                    code = e
                    exc = e
                nlive = sum(1 for p in w.procs if not p.ended)
                nunreaped = sum(1 for p in w.procs if p.ended and not p.reaped)
                for k in range(60):                 # let the simulated machines catch up
                    nx = w.next_event()
                    if nx is None:
                        break
                    w.advance_to(nx)
            res.sim_time += w.t
            res.steps += w.n_ops
            return script, w, code, exc, nlive, nunreaped, err.getvalue()
        finally:
            shutil.rmtree(d)

    def execute(self, plan, res):
        script, w, code, exc, *_ = self.run(plan, res)
        cfg = plan["cfg"]
        nodes = cfg.get("nodes") or []
        n = 1 + len(nodes)
        err = _[-1]
        if exc is not None and code not in (None, 0):
            raise Violation("launch-failed", f"launch of a valid configuration failed with {code!r} {err[-200:]}")
        if len(w.procs) != n:
            raise Violation("process-count", f"{len(w.procs)} processes were started for {len(nodes)} nodes plus the coordinator")
        joins = []
        left = [dict(nd) for nd in nodes]
        n_local = 0
        for i in w.order:
            p = w.procs[i]
            try:
                pl = parse_command(p.argv, p.env, p.stdin_data)
            except ShellInterprets as e:
                raise Violation("shell-interprets", f"the remote shell would interpret the command of process {i}: {e}")
            if pl["host"] is None:
                n_local += 1
                if pl["exe"] != sys.executable or pl["container"] is not None:
                    raise Violation("coordinator-command", f"local command {p.argv}")
                if pl["script"] != script:
                    raise Violation("script", f"coordinator runs {pl['script']!r} instead of {script!r}")
                for k, v in plan["env"].items():
                    if not k.startswith("JAX_") and pl["env"].get(k) != v:
                        raise Violation("coordinator-env", f"launcher variable {k} did not reach the coordinator")
            else:
                match = [nd for nd in left if nd["host"] == pl["host"] and nd.get("container", "feax") == pl["container"]
                         and (nd.get("ssh_key") or None) == pl["key"]]
                if not match:
                    raise Violation("placement", f"process {i} runs on {pl['host']}/{pl['container']} key={pl['key']}, "
                                                 f"not a free configured node of {left}")
                left.remove(match[0])
                if pl["script"] != "-" or not (pl["exe"] or "").startswith("python"):
                    raise Violation("script", f"worker {i} runs {pl['exe']!r} {pl['script']!r}")
                if (p.stdin_data or b"") != plan["body"].encode():
                    raise Violation("script", f"worker {i} received {len(p.stdin_data or b'')} of {len(plan['body'])} bytes of the script")
            if pl["args"] != plan["args"]:
                raise Violation("arguments", f"process {i} ({'worker' if pl['host'] else 'coordinator'}) gets arguments "
                                             f"{pl['args']} instead of {plan['args']}")
            joins.append((pl["host"], self.join(pl["env"])))
        if n_local != 1:
            raise Violation("coordinator-count", f"{n_local} local processes")
        addr = f"{cfg['coordinator']}:{cfg.get('port', 1234)}"
        for host, j in joins:
            if j[0] != addr:
                raise Violation("address", f"process on {host or 'coordinator'} joins at {j[0]}, the job is at {addr}")
            if j[1] != n:
                raise Violation("process-count", f"process on {host or 'coordinator'} expects {j[1]} of {n} processes")
            if (j[2] == 0) != (host is None):
                raise Violation("ranks", f"rank {j[2]} on {host or 'coordinator'}")
        if sorted(j[2] for _, j in joins) != list(range(n)):
            raise Violation("ranks", f"ranks {sorted(j[2] for _, j in joins)} for {n} processes")
        special = any(c in a for a in plan["args"] for c in " ;&|$`'\"*?#~\\\n()<>!") or "" in plan["args"]
        res.states.add(hash((n, "port" in cfg, len(plan["args"]), special, tuple(w.order))))
        res.nontrivial = bool(nodes) and (bool(plan["args"]) or cfg.get("port", 1234) != 1234 or w.order != sorted(w.order))
        res.faults["slow-node"] += sum(1 for s in plan["specs"] if s["delay"] > 1)
        if w.order != sorted(w.order):
            res.faults["reordered-start"] += 1
        res.faults["stale-environment"] += bool(plan["env"])
        res.probes["special-args"] += special
        res.probes["flag-args"] += any(a.startswith("-") for a in plan["args"])
        res.probes[f"nodes-{len(nodes)}"] += 1

    def join(self, env):
        """The real initialize() of one simulated process."""
        rec = []
        saved, senv = self.jax.distributed.initialize, dict(os.environ)
        for k in [k for k in os.environ if k.startswith("JAX_COORD") or k in ("JAX_NUM_PROCESSES", "JAX_PROCESS_ID")]:
            del os.environ[k]
        os.environ.update({k: v for k, v in env.items() if k.startswith("JAX_")})

        def initialize(coordinator_address=None, num_processes=None, process_id=None, *a, **k):
            rec.append((coordinator_address, num_processes, process_id))
        self.jax.distributed.initialize = initialize
        try:
            with Rebound([(saved, initialize)]):
                r = self.dist.initialize()
        finally:
            self.jax.distributed.initialize = saved
            for k in list(os.environ):
                if k not in senv:
                    del os.environ[k]
            os.environ.update(senv)
        if r is not True or len(rec) != 1:
            raise Violation("join", f"initialize() returned {r!r} and joined {len(rec)} times")
        return rec[0]


SCENARIOS = [Launch()]
