"""Definitions of the planted bugs (see plant.py)."""
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo})


BN = "zhusuan/framework/bn.py"
MB = "zhusuan/framework/meta_bn.py"
FU = "zhusuan/framework/utils.py"
UNI = "zhusuan/distributions/univariate.py"
MUL = "zhusuan/distributions/multivariate.py"
BASE = "zhusuan/distributions/base.py"
HMC = "zhusuan/hmc.py"
SG = "zhusuan/sgmcmc.py"
EV = "zhusuan/evaluation.py"
VB, EK, MC, IK = ("zhusuan/variational/%s.py" % x for x in ("base", "exclusive_kl", "monte_carlo", "inclusive_kl"))
UT = "zhusuan/utils.py"

seed("C01-density-first", "C01", "the density of an unobserved node is asked for before its value",
     "cond_log_p draws a value of its own when the node has not been read yet, so density and value disagree",
     [(BN, '''            self._cond_log_p = self._dist.log_prob(self.tensor)
''', '''            if self._observation is not None or hasattr(self, "_samples"):
                given = self.tensor
            else:
                given = self._dist.sample(n_samples=self._n_samples)
            self._cond_log_p = self._dist.log_prob(given)
''')], '''
bn = zs.BayesianNet()
x = bn.normal("x", 0., std=1., n_samples=4)
lp = bn.cond_log_prob("x")
with tf.Session() as sess:
    v, l = sess.run([x.tensor, lp])
check(np.allclose(l, -.5 * np.log(2 * np.pi) - .5 * v ** 2, atol=1e-4), (v, l))
''')

seed("C02-leaked-context", "C02", "a model function raises inside observe(), the caller recovers and builds another net",
     "the context stack is not popped when the block is left by an exception, so later nets see the failed call's observations",
     [(FU, '''        type(self).get_contexts().pop()
''', '''        if exc_type is None:
            type(self).get_contexts().pop()
''')], '''
@zs.meta_bayesian_net()
def bad():
    bn = zs.BayesianNet()
    bn.normal("x", 0., std=1.)
    raise ValueError("model error")


try:
    bad().observe(x=3.)
except ValueError:
    pass
bn = zs.BayesianNet()
x = bn.normal("x", 0., std=1.)
check(not x.is_observed(), "observation of a failed call leaked")
''')

seed("C03-stale-joint", "C03", "log_joint() is asked for, then an observed node is added, then log_joint() is asked again",
     "the cached log joint is kept when the node that is added is observed through observe()",
     [(BN, '''        self._check_name_unique(name)
        self._invalidate_log_joint()
        node = StochasticTensor(
            self, name, dist, observation=self._get_observation(name), **kwargs)
''', '''        self._check_name_unique(name)
        observation = self._get_observation(name)
        if observation is None:
            self._invalidate_log_joint()
        node = StochasticTensor(
            self, name, dist, observation=observation, **kwargs)
''')], '''
@zs.meta_bayesian_net()
def model():
    bn = zs.BayesianNet()
    bn.normal("a", 0., std=1.)
    bn.log_joint()
    bn.normal("b", 0., std=1.)
    return bn


bn = model().observe(a=1., b=2.)
with tf.Session() as sess:
    j, ls = sess.run([bn.log_joint(), bn.cond_log_prob(["a", "b"])])
check(abs(j - sum(ls)) < 1e-4, (j, ls))
''')

seed("C08-laplace-edge", "C08", "the uniform source returns its lowest value (often so in float16)",
     "a Laplace sample is infinite for the extreme value of the uniform draw",
     [(UNI, '''            minval=np.nextafter(self.dtype.as_numpy_dtype(-1.),
                                self.dtype.as_numpy_dtype(0.)),
            maxval=1.,
''', '''            minval=self.dtype.as_numpy_dtype(-1.),
            maxval=1.,
''')], '''
tf.set_random_seed(1)
d = D.Laplace(tf.constant(0., tf.float16), tf.constant(1., tf.float16))
with tf.Session() as sess:
    x = sess.run(d.sample(200000))
check(np.all(np.isfinite(x)), "infinite sample")
''')

seed("C10-infinite-proposal", "C10", "a leapfrog trajectory ends where the log joint is +inf",
     "a proposal whose log joint is not finite is accepted",
     [(HMC, '''    is_finite = tf.logical_and(tf.is_finite(acceptance_rate),
                               tf.is_finite(new_log_prob))
''', '''    is_finite = tf.is_finite(acceptance_rate)
''')], '''
x = tf.Variable(tf.zeros([50]) + .5)
f = lambda o: tf.where(tf.abs(o["x"]) > 1., tf.zeros_like(o["x"]) + np.inf, -.5 * o["x"] ** 2)
op, info = zs.HMC(step_size=.4, n_leapfrogs=5).sample(f, {}, {"x": x})
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    for i in range(5):
        try:
            sess.run(op)
        except tf.errors.InvalidArgumentError:
            check(False, "a chain moved to a point whose log joint is infinite")
        check(np.all(np.abs(sess.run(x)) <= 1.), "a chain moved to a point whose log joint is infinite")
''')

seed("C11-no-restart", "C11", "mass adaptation with more than one step before mass_collect_iters",
     "dual averaging is not restarted at iteration mass_collect_iters: the accumulated error of the old mass is kept",
     [(HMC, "self.h_bar, (1 - fresh_start) * (1 - rate1) * self.h_bar +", "self.h_bar, (1 - rate1) * self.h_bar +")], '''
# at the restart the step size depends on this iteration's acceptance rate alone
def run(collect):
    tf.reset_default_graph()
    tf.set_random_seed(3)
    x = tf.Variable(tf.zeros([20, 2]))
    hmc = zs.HMC(step_size=.5, n_leapfrogs=3, adapt_step_size=tf.constant(True), adapt_mass=tf.constant(True),
                 mass_collect_iters=collect)
    op, info = hmc.sample(lambda o: -.5 * tf.reduce_sum(o["x"] ** 2, -1), {}, {"x": x})
    with tf.Session() as sess:
        sess.run(tf.global_variables_initializer())
        for i in range(collect):
            _, acc, eps = sess.run([op, info.acceptance_rate, info.updated_step_size])
        return eps, np.mean(acc)


eps, acc = run(6)
want = np.exp(10 * .5 - 20. * (.8 - acc) / 101.)
check(abs(eps - want) < 1e-3 * want, (eps, want))
''')

seed("C12-last-weight", "C12", "more than one temperature",
     "the weight of the last temperature uses the log density after the transition",
     [(EV, '''                log_weights += old_log_p
''', '''                log_weights += new_log_p
''')], '''
from zhusuan.evaluation import AIS
tf.set_random_seed(1)


@zs.meta_bayesian_net(scope="p", reuse_variables=True)
def prop():
    bn = zs.BayesianNet()
    bn.normal("x", tf.zeros([1]), std=1., n_samples=400)
    return bn


z = 3.7
joint = lambda o: np.float32(np.log(z)) - .5 * np.float32(np.log(2 * np.pi)) - .5 * o["x"] ** 2
x = tf.Variable(tf.zeros([400, 1]))
ais = AIS(joint, prop(), zs.HMC(step_size=.7, n_leapfrogs=4), {}, {"x": x}, n_temperatures=3, n_adapt=0)
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    est = ais.run(sess, {})
# the proposal is proportional to the joint, so every chain's weight is exactly z
check(abs(est - np.log(z)) < 1e-3, est)
''')

seed("C13-thermostat-scalar", "C13", "SGNHT with use_vector_alpha=False, first order integrator, several latent components",
     "the scalar thermostat is driven by the old momentum instead of the new one",
     [(SG, '''            new_qs = [q + new_v for (q, new_v) in zip(qs, new_vs)]
            mean_ks = [maybe_reduce_mean(new_v**2) for new_v in new_vs]
            new_alphas = [alpha + self.tune_rate * (mean_k - self.lr)
                          for (alpha, mean_k) in zip(self.alphas, mean_ks)]
''', '''            new_qs = [q + new_v for (q, new_v) in zip(qs, new_vs)]
            mean_ks = [maybe_reduce_mean(new_v**2) for new_v in new_vs]
            new_alphas = [alpha + self.tune_rate *
                          (maybe_reduce_mean(old_v**2) - self.lr)
                          for (alpha, old_v) in zip(self.alphas, old_vs)]
''')], '''
x = tf.Variable(tf.ones([3]))
s = zs.SGNHT(learning_rate=.1, variance_extra=.2, second_order=False, use_vector_alpha=False)
op, info = s.sample(lambda o: -.5 * tf.reduce_sum(o["x"] ** 2), {}, {"x": x})
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    _, k, a = sess.run([op, info.mean_k["x"], info.alpha["x"]])
check(abs(a - (.2 + k - .1)) < 1e-5, (a, k))
''')

seed("C14-resample-drift", "C14", "n_iter_resample_v larger than 1 and several runs",
     "the momentum is resampled one run late, and never at the first run",
     [(SG, '''                    tf.equal(tf.mod(self.t, self.n_iter_resample_v), 0),
                    lambda: resample_momentum(v), lambda: v))
''', '''                    tf.equal(tf.mod(self.t, self.n_iter_resample_v),
                             self.n_iter_resample_v - 1),
                    lambda: resample_momentum(v), lambda: v))
''')], '''
x = tf.Variable(tf.zeros([1]))
s = zs.SGHMC(learning_rate=1e-10, friction=0., n_iter_resample_v=3, second_order=False)
op, info = s.sample(lambda o: 0. * tf.reduce_sum(o["x"]), {}, {"x": x})
vs = []
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    last = sess.run(x)
    for i in range(9):
        sess.run(op)
        new = sess.run(x)
        vs.append(float((new - last)[0]))
        last = new
redrawn = [i for i in range(1, 9) if abs(vs[i] - vs[i - 1]) > 1e-7]
check(redrawn == [3, 6], (redrawn, vs))
''')

seed("C15-observed-precedence", "C15", "a node is both observed and in the variational net",
     "the variational sample overrides the value the user observed",
     [(VB, '''                    **merge_dicts(self._v_inputs, self._observed))
                self._validate_variational_inputs(bn)
''', '''                    **merge_dicts(self._observed, self._v_inputs))
                self._validate_variational_inputs(bn)
''')], '''
@zs.meta_bayesian_net()
def model():
    bn = zs.BayesianNet()
    bn.normal("a", 0., std=1.)
    bn.normal("b", 0., std=1.)
    return bn


obj = zs.variational.elbo(model(), {"a": 1., "b": 2.}, latent={"b": (tf.constant(5.), tf.constant(0.))})
with tf.Session() as sess:
    v = sess.run(obj)
check(abs(v - (-np.log(2 * np.pi) - .5 - 2.)) < 1e-4, v)
''')

seed("C16-vimco-axis", "C16", "VIMCO with a sample axis that is neither the first nor the last of two",
     "the leave-one-out means of VIMCO divide by the size of the first axis",
     [(MC, '''        ) / tf.cast(tf.shape(l_signal)[self._axis] - 1, l_signal.dtype)
''', '''        ) / tf.cast(tf.shape(l_signal)[0] - 1, l_signal.dtype)
''')], '''
def grad(axis, lw, lq):
    q = tf.constant(lq)
    p = tf.constant(lw + lq)
    obj = zs.variational.iw_objective(lambda o: p, {}, latent={"z": (tf.zeros_like(q), q)}, axis=axis)
    with tf.Session() as sess:
        return sess.run(tf.gradients(obj.vimco(), q)[0])


rng = np.random.RandomState(0)
lw, lq = rng.randn(2, 4).astype("f"), rng.randn(2, 4).astype("f")
check(np.allclose(grad(1, lw, lq), grad(0, lw.T, lq.T).T, atol=1e-5))
''')

seed("C17-sibling-cut", "C17", "an operation with several outputs of which one is treated as input and another is needed",
     "the search stops at every output of an operation one of whose outputs is treated as input",
     [(FU, '''    seed_ops = list(OrderedDict.fromkeys(t.op for t in seed_tensors))
''', '''    input_ops = set(t.op for t in treat_as_inputs)
    seed_ops = list(OrderedDict.fromkeys(t.op for t in seed_tensors))
'''), (FU, '''                if tensor not in treat_as_inputs:
                    q.appendleft(tensor.op)
''', '''                if tensor.op not in input_ops:
                    q.appendleft(tensor.op)
''')], '''
from zhusuan.framework.utils import get_backward_ops
x = tf.constant([1., 2.])
a, b = tf.split(x, 2)
y = tf.exp(b)
ops = get_backward_ops([y], treat_as_inputs=[a])
check(set(ops) == {y.op, a.op} | set(i.op for i in a.op.inputs), ops)
''')

seed("C04-repeated-names", "C04", "a name is asked for twice in one list",
     "get([...]) and cond_log_prob([...]) drop repeated names, so the result does not line up with what was asked",
     [(BN, '''            name_or_names = tuple(name_or_names)
            names = name_or_names
''', '''            names = []
            for name in name_or_names:
                if name not in names:
                    names.append(name)
            name_or_names = names = tuple(names)
''')], '''
bn = zs.BayesianNet()
a = bn.normal("a", 0., std=1.)
b = bn.normal("b", 0., std=1.)
r = bn.get(["b", "a", "b"])
check(len(r) == 3 and r[0] is b and r[1] is a and r[2] is b, r)
''')

seed("C06-binomial-overflow", "C06", "a logit beyond the range of exp",
     "the log mass of a Binomial overflows for large logits",
     [(UNI, '''        n = tf.cast(self.n_experiments, self.param_dtype)
        given = tf.cast(given, self.param_dtype)

        log_1_minus_p = -tf.nn.softplus(logits)
''', '''        n = tf.cast(self.n_experiments, self.param_dtype)
        given = tf.cast(given, self.param_dtype)

        log_1_minus_p = -tf.log1p(tf.exp(logits))
''')], '''
d = D.Binomial(tf.constant(95.), 3)
with tf.Session() as sess:
    v = sess.run(d.log_prob(3))
check(abs(v) < 1e-3, v)
''')

seed("C07-multinomial-count", "C07", "a Multinomial without n_experiments whose given counts have different totals",
     "the number of experiments is taken from the largest total, not from each given vector",
     [(MUL, '''            n = tf.reduce_sum(given, -1)
''', '''            n = tf.reduce_max(tf.reduce_sum(given, -1))
''')], '''
d = D.Multinomial(tf.zeros([2, 2]), n_experiments=None)
with tf.Session() as sess:
    v = sess.run(d.log_prob(np.array([[1, 1], [3, 1]], dtype=np.int32)))
check(np.allclose(v, [np.log(2) - 2 * np.log(2), np.log(4) - 4 * np.log(2)], atol=1e-4), v)
''')

seed("C09-path-cov", "C09", "use_path_derivative of a multivariate normal, gradient with respect to the Cholesky factor",
     "the log density of MultivariateNormalCholesky still depends on cov_tril when use_path_derivative is set",
     [(MUL, '''        mean, cov_tril = (self.path_param(self.mean),
                          self.path_param(self.cov_tril))
''', '''        mean, cov_tril = self.path_param(self.mean), self.cov_tril
''')], '''
L = tf.constant(np.eye(2, dtype="f"))
d = D.MultivariateNormalCholesky(tf.zeros([2]), L, use_path_derivative=True)
g = tf.gradients(d.log_prob(tf.ones([2])), L)[0]
check(g is None, g)
''')

seed("C18-half-lags", "C18", "a chain whose autocorrelation is positive beyond half its length",
     "only the first half of the lags is looked at",
     [("zhusuan/diagnostics.py", "    for t in range(0, n):\n", "    for t in range(0, n // 4 + 1):\n")], '''
import zhusuan.diagnostics as dg
a = np.arange(40.)
b = np.concatenate([a, a[::-1]])
x = np.repeat(np.array([0., 1.]), 30)


def rho(x):
    n, m = len(x), x.mean()
    v = np.var(x)
    out = []
    for t in range(1, n):
        r = 1 - (v * n / (n - 1) - np.mean((x[:n - t] - m) * (x[t:] - m))) / v
        if r < 0:
            break
        out.append(r)
    return np.array(out)


r = rho(x)
got = dg.effective_sample_size(x[:, None], burn_in=0)
# both with and without the term of lag 0, all positive lags are summed
r0 = 1 - 1. / 59
check(min(abs(got - 60. / (1 + 2 * r.sum())), abs(got - 60. / (1 + 2 * r0 + 2 * r.sum()))) < 1e-6, got)
''')

seed("C22-normalize-dropped", "C22", "bn.multinomial with normalize_logits=False and logits that are not normalised",
     "the multinomial builder ignores normalize_logits",
     [(BN, '''        dist = distributions.Multinomial(
            logits,
            n_experiments,
            normalize_logits=normalize_logits,
''', '''        dist = distributions.Multinomial(
            logits,
            n_experiments,
''')], '''
bn = zs.BayesianNet(observed={"x": np.array([1, 1], dtype=np.int32)})
x = bn.multinomial("x", tf.zeros([2]), 2, normalize_logits=False)
with tf.Session() as sess:
    v = sess.run(x.cond_log_p)
check(abs(v - np.log(2.)) < 1e-4, v)
''')

seed("C24-squeeze", "C24", "log_mean_exp over one axis of a tensor that has another axis of size 1",
     "all axes of size 1 are dropped, not only the reduced ones",
     [(UT, '''    if not keepdims:
        ret = tf.reduce_mean(ret, axis=axis)
''', '''    if not keepdims:
        ret = tf.squeeze(ret)
''')], '''
from zhusuan.utils import log_mean_exp
with tf.Session() as sess:
    v = sess.run(log_mean_exp(tf.zeros([3, 1]), 0))
check(v.shape == (1,), v.shape)
''')

TR = "zhusuan/transform.py"
DU = "zhusuan/distributions/utils.py"

seed("C19-shared-bias", "C19", "a planar flow of several steps whose biases have moved from zero",
     "every planar step uses the bias of the first step; image and determinant stay consistent with each other",
     [(TR, "tf.matmul(z, param_w, name='score') + param_bs[iter],", "tf.matmul(z, param_w, name='score') + param_bs[0],")], '''
x = np.array([[.3, -.7]], dtype=np.float32)
z, lp = zs.planar_normalizing_flow(tf.constant(x), tf.zeros([1]), 2)
vs = tf.global_variables()
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    pars = []
    for t in range(2):
        b, u, w = vs[3 * t:3 * t + 3]
        for v, a in ((b, [.5 + t]), (u, [[.2], [.4 - t]]), (w, [[1.], [.5]])):
            v.load(np.array(a, dtype=np.float32), sess)
        pars.append((.5 + t, np.array([.2, .4 - t]), np.array([1., .5])))
    out = sess.run(z)
y = x[0].astype(np.float64)
for b, u, w in pars:
    d = w.dot(u)
    uh = u + w / w.dot(w) * (np.log1p(np.exp(d)) - 1 - d)
    y = y + uh * np.tanh(w.dot(y) + b)
check(np.allclose(out[0], y, atol=1e-4), (out, y))
''')

seed("C19-gru-mix", "C19", "an autoregressive flow with the gru update",
     "the gru update mixes with the pre-activation instead of the gate: the determinant is unchanged, the image is not the stated one",
     [(TR, "z = sigma * z + (1 - sigma) * m", "z = sigma * z + (1 - s) * m")], '''
def nn(name, id, z, hidden):
    return z * np.array([0., 0.], dtype=np.float32) + np.float32(1.5), tf.ones_like(z) * .5


x = np.array([[.3, -.7]], dtype=np.float32)
from zhusuan.transform import inv_autoregressive_flow
z, lp = inv_autoregressive_flow(tf.constant(x), None, tf.zeros([1]), nn, 1, update="gru")
with tf.Session() as sess:
    out = sess.run(z)
g = 1 / (1 + np.exp(-.5))
check(np.allclose(out, (g * x + (1 - g) * 1.5)[:, ::-1], atol=1e-4), out)
''')

seed("C20-nan-compare", "C20", "an order comparison of a node whose value is not a number",
     "node >= x is computed as not (node < x), which is true for values that are not a number",
     [(UT, "        return tf.greater_equal(self, other)\n", "        return tf.logical_not(tf.less(self, other))\n")], '''
bn = zs.BayesianNet(observed={"x": np.array([np.nan, 1.], dtype=np.float32)})
x = bn.normal("x", [0., 0.], std=1.)
with tf.Session() as sess:
    a, b = sess.run([x >= 1., tf.constant([np.nan, 1.]) >= 1.])
check((a == b).all(), (a, b))
''')

seed("C21-eager-args", "C21", "a meta net made with keyword arguments that is observed more than once",
     "the keyword arguments are consumed by the first observe(), later ones fall back to the defaults",
     [(MB, """            return func(*self._args, **self._kwargs)
""", """            kwargs, self._kwargs = self._kwargs, {}
            return func(*self._args, **kwargs)
""")], '''
@zs.meta_bayesian_net(scope="m", reuse_variables=True)
def model(mean=0.):
    bn = zs.BayesianNet()
    bn.normal("x", mean, std=1.)
    return bn


m = model(mean=3.)
ds = [m.observe(x=0.)["x"].dist.mean for _ in range(2)]
with tf.Session() as sess:
    check(sess.run(ds) == [3., 3.], "arguments lost")
''')

seed("C05-categorical-unit", "C05", "log_prob of a Categorical whose batch and given shapes both have size-1 axes that the other one fills",
     "given and logits are taken to match when their element counts match, so axes are paired up wrongly or refused",
     [(UNI, """                if given.get_shape() != logits.get_shape()[:-1]:
                    given, logits = _broadcast(given, logits)
""", """                if given.get_shape().num_elements() != \\
                        logits.get_shape()[:-1].num_elements():
                    given, logits = _broadcast(given, logits)
""")], '''
d = D.Categorical(tf.constant(np.log([[[.1, .9]], [[.6, .4]]]), tf.float32))
lp = d.log_prob(tf.constant([[0, 1]]))
with tf.Session() as sess:
    out = sess.run(lp)
check(out.shape == (2, 2) and np.allclose(np.exp(out), [[.1, .9], [.6, .4]], atol=1e-4), out)
''')


seed("C21-auto-reuse", "C21", "a meta net with a scope but without reuse_variables that is observed more than once",
     "calls share their variables although sharing was not asked for",
     [(MB, """            with tf.variable_scope(self._scope):
""", """            with tf.variable_scope(self._scope, reuse=tf.AUTO_REUSE):
""")], '''
@zs.meta_bayesian_net(scope="m")
def model():
    bn = zs.BayesianNet()
    w = tf.get_variable("w", [2], initializer=tf.zeros_initializer())
    bn.normal("x", w, std=1.)
    return bn


m = model()
m.observe()
try:
    m.observe()
except ValueError:
    pass
else:
    check(len(tf.global_variables()) == 2, "shared without being asked")
''')

seed("C23-mvn-wide", "C23", "a Cholesky factor of a multivariate normal whose shape is only known at run time and has an extra leading axis",
     "only the trailing two sizes of the factor are compared with the mean",
     [(MUL, """        assert_ops = [tf.assert_equal(expected_shape, actual_shape, msg)]
""", """        assert_ops = [tf.assert_equal(expected_shape[-2:],
                                      actual_shape[-2:], msg)]
""")], '''
c = tf.placeholder(tf.float32)
d = D.MultivariateNormalCholesky(tf.zeros([1, 2]), c)
lp = d.log_prob(tf.zeros([1, 2]))
with tf.Session() as sess:
    sess.run(lp, {c: np.eye(2)[None]})
    try:
        out = sess.run(lp, {c: np.stack([np.eye(2)] * 3)})
    except tf.errors.InvalidArgumentError:
        pass
    else:
        check(False, out.shape)
''')

seed("C25-stretched", "C25", "an observation of lower rank than its distribution",
     "the node's value is the observation broadcast to the full shape, not the observation",
     [(BN, '''                    observation.get_shape()))
        return observation
''', '''                    observation.get_shape()))
        if observation.get_shape().ndims is not None and \\
                observation.get_shape().ndims < (dist_shape.ndims or 0):
            observation = tf.broadcast_to(observation, tf.concat(
                [self._dist.batch_shape, self._dist.value_shape], 0))
        return observation
''')], '''
with tf.Session() as sess:
    bn = zs.BayesianNet(observed={"x": np.float32(2.)})
    x = bn.normal("x", tf.zeros([3]), std=1.)
    v = sess.run(x.tensor)
check(np.shape(v) == (), np.shape(v))
''')
seed("C25-variable-cast", "C25", "the observation is a variable of another type than the node",
     "an observation of the wrong type is converted instead of refused",
     [(BN, '''            observation = tf.convert_to_tensor(observation, dtype=self._dtype)
''', '''            if isinstance(observation, tf.Variable):
                observation = tf.cast(observation, self._dtype)
            observation = tf.convert_to_tensor(observation, dtype=self._dtype)
''')], '''
bn = zs.BayesianNet(observed={"x": tf.Variable(np.zeros(3, np.float64))})
try:
    bn.normal("x", tf.zeros([3]), std=1.)
    check(False, "accepted")
except (ValueError, TypeError):
    pass
''')
seed("C26-leading-axes", "C26", "an Implicit whose value rank is not half of its tensor's rank",
     "the batch shape keeps the leading value_ndims axes instead of dropping the trailing ones",
     [("zhusuan/legacy/distributions/special.py", "return self.samples.get_shape()[:-d]", "return self.samples.get_shape()[:d]")], '''
from zhusuan.legacy.distributions.special import Implicit
d = Implicit(tf.zeros([4, 5, 3]), value_shape=[3])
check(d.get_batch_shape().as_list() == [4, 5], d.get_batch_shape())
''')

seed("C27-live-dict", "C27", "the caller's dict of observations changes between making an objective and asking for its value",
     "the objective keeps the caller's dict instead of a copy",
     [("zhusuan/variational/base.py", "self._observed = copy.copy(observed)", "self._observed = observed")], '''
obs = {"x": tf.constant(1.)}
lb = zs.variational.elbo(lambda o: o["x"] * 10. + o["z"], obs, latent={"z": (tf.constant(2.), tf.constant(0.))})
obs["x"] = tf.constant(5.)
with tf.Session() as sess:
    v = float(sess.run(lb.tensor))
check(v == 12., v)
''')
seed("C12-overflow", "C12", "log weights beyond the range of exp",
     "the chains' weights are averaged without their maximum being taken out",
     [(EV, """        max_log_weights = np.max(log_weights, axis=0)
        offset_log_weights = np.mean(np.exp(log_weights - max_log_weights),
                                     axis=0)
        log_weights = np.log(offset_log_weights) + max_log_weights
""", """        log_weights = np.log(np.mean(np.exp(log_weights), axis=0))
""")], '''
from zhusuan.evaluation import AIS


@zs.meta_bayesian_net()
def prior():
    bn = zs.BayesianNet()
    bn.normal("z", tf.zeros([2]), std=1., n_samples=4)
    return bn


def joint(o):
    return -.5 * tf.square(o["z"]) - .5 * np.float32(np.log(2 * np.pi)) + 200.


ais = AIS(joint, prior(), zs.HMC(step_size=.1, n_leapfrogs=2), {}, {"z": tf.Variable(tf.zeros([4, 2]))}, n_temperatures=3, n_adapt=0)
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    v = ais.run(sess, {})
check(abs(v - 200.) < .1, v)
''')
seed("C11-lazy-tune", "C11", "iterations that ask for nothing but the sample op",
     "the step size is adapted only by runs that fetch the info's step size",
     [(HMC, """        with tf.control_dependencies([update_step_size]):
            sample_op = tf.group(*update_q)
""", """        sample_op = tf.group(*update_q)
""")], '''
hmc = zs.HMC(step_size=1e-3, n_leapfrogs=2, adapt_step_size=tf.constant(True), target_acceptance_rate=.8)
x = tf.Variable(tf.ones([5]))
op, info = hmc.sample(lambda o: -.5 * tf.square(o["x"]), {}, {"x": x})
with tf.Session() as sess:
    sess.run(tf.global_variables_initializer())
    for _ in range(20):
        sess.run(op)
    v = float(sess.run(hmc.step_size))
check(v > .01, v)
''')
seed("C18-long-burn", "C18", "a burn_in of more than the default 100",
     "no more than 100 samples are discarded",
     [("zhusuan/diagnostics.py", "    current_ess = np.inf\n", "    current_ess = np.inf\n    burn_in = min(burn_in, 100)\n"),
      ("zhusuan/diagnostics.py", "np.squeeze(samples[burn_in:, d])", "samples[burn_in:, d]")], '''
from zhusuan.diagnostics import effective_sample_size, effective_sample_size_1d
x = np.random.RandomState(0).randn(400, 1)
x[:200] += 50.
v, w = effective_sample_size(x, burn_in=200), effective_sample_size_1d(x[200:, 0])
check(abs(v - w) < 1e-6, (v, w))
''')
seed("C05-partial-matrix", "C05", "a matrix-valued parameter of known rank whose number of rows is unknown while the graph is built",
     "unknown sizes other than the first axis' are taken from the last axis",
     [(DU, """    ret = [(val or dynamic_shape[i])
""", """    ret = [(val or dynamic_shape[-1 if i else 0])
""")], '''
m = tf.placeholder(tf.float32, [None, None, 3])
u = tf.placeholder(tf.float32, [None, None, None])
v = tf.placeholder(tf.float32, [None, 3, 3])
d = D.MatrixVariateNormalCholesky(m, u, v)
with tf.Session() as sess:
    s = sess.run(d.value_shape, {m: np.zeros([1, 2, 3]), u: np.eye(2)[None], v: np.eye(3)[None]})
check(list(s) == [2, 3], s)
''')
