"""Evaluates the programs of specs/Hmc.tla and specs/Sgmcmc.tla: assignments of
symbolic expressions to names, in double precision arrays."""
import numpy as np
import npexpr


class Chains(object):
    """arrays have the chain axes first (nch of them), then data axes"""

    def __init__(self, nch):
        self.nch = nch

    def ev(self, t, env):
        op = t[0]
        f = getattr(self, "op_" + op, None)
        if f:
            return f(t, env)
        if len(t) > 1 and isinstance(t[1], list):
            # evaluate the children here, combine with the plain evaluator
            vals = [self.ev(s, env) for s in t[1:]]
            names = ["$%d" % i for i in range(len(vals))]
            return npexpr.ev([op] + [["var", n] for n in names], dict(zip(names, vals)))
        return npexpr.ev(t, env)

    def op_pow(self, t, env):
        return np.power(self.ev(t[1], env), self.ev(t[2], env))

    def op_lt(self, t, env):
        return float(self.ev(t[1], env) < self.ev(t[2], env))

    def op_eq(self, t, env):
        return float(self.ev(t[1], env) == self.ev(t[2], env))

    def op_if(self, t, env):
        return self.ev(t[2] if self.ev(t[1], env) else t[3], env)

    def op_cmean(self, t, env):
        a = np.asarray(self.ev(t[1], env))
        return a.mean(axis=tuple(range(self.nch)), keepdims=True)

    def op_dsum(self, t, env):
        a = np.asarray(self.ev(t[1], env))
        return a.sum(axis=tuple(range(self.nch, a.ndim)))

    def op_amean(self, t, env):
        return float(np.mean(self.ev(t[1], env)))

    def op_redto(self, t, env):
        a = np.asarray(self.ev(t[1], env))
        s = np.shape(self.ev(t[2], env))
        ax = tuple(i for i in range(len(s)) if s[i] == 1 and a.shape[i] != 1)
        return a.sum(axis=ax, keepdims=True) if ax else np.broadcast_to(a, s)

    def op_finite0(self, t, env):
        a, b = self.ev(t[1], env), self.ev(t[2], env)
        return np.where(np.isfinite(a) & np.isfinite(b), a, 0.)

    def run(self, prog, env, hook=None):
        for ins in prog:
            if ins[0] == "set":
                env[ins[1]] = self.ev(ins[2], env)
            else:
                n = 0
                while env[ins[1]]:
                    self.run(ins[2], env)
                    if hook:
                        hook(env)
                    n += 1
                    if n > 2000:
                        raise RuntimeError("program does not stop")
