"""Common runtime for the replay drivers: imports the code under test from the
/repo working tree (never from an installed copy), and gives the drivers
control over every random draw TensorFlow makes.

Nothing here looks at how the code under test is written: random draws are
intercepted at TensorFlow's own op constructors, values are observed through
public results and session.run.
"""
import os
import sys

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, "/opt/vp/support")
import warnings
warnings.simplefilter("ignore")
import tf1_api  # noqa: F401,E402  (makes `import tensorflow` the TF1 API)
import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402
tf.logging.set_verbosity(tf.logging.FATAL)
from tensorflow.python.ops import gen_random_ops, gen_stateless_random_ops_v2  # noqa: E402
from tensorflow.python.framework import tensor_util  # noqa: E402

import zhusuan as zs  # noqa: E402

assert os.path.realpath(zs.__file__).startswith(os.path.realpath(REPO) + os.sep), zs.__file__


def session(threads=1, graph=None, rewrite=True):
    """rewrite=False: the graph is run as it was written, without TensorFlow's
    graph optimiser (which is slow for graphs that run once, and drops some
    run-time assertions)."""
    cf = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=threads,
                        allow_soft_placement=True)
    cf.graph_options.rewrite_options.disable_meta_optimizer = not rewrite
    return tf.Session(graph=graph, config=cf)


_ORIG = {n: getattr(gen_random_ops, n) for n in (
    "random_standard_normal", "random_uniform", "random_gamma",
    "random_poisson_v2", "multinomial", "truncated_normal",
    "random_uniform_int")}


class Noise(object):
    """Context manager that replaces TensorFlow's random sources.

    `fn(kind, op_id, call_no, shape, args)` returns the numpy array the draw
    number `call_no` of random op `op_id` (numbered in creation order inside
    the context, over all kinds) yields.  `kind` is one of normal, uniform,
    gamma, poisson, categorical.  `log` records every draw really executed.
    """

    def __init__(self, fn):
        self.fn = fn
        self.log = []
        self.n_ops = 0
        self.calls = {}

    def _draw(self, kind, op_id, shape, args, np_dtype):
        c = self.calls.get(op_id, 0)
        self.calls[op_id] = c + 1
        v = np.asarray(self.fn(kind, op_id, c, tuple(int(i) for i in shape), args))
        v = np.broadcast_to(v, tuple(int(i) for i in shape)).astype(np_dtype)
        self.log.append((kind, op_id, c, v))
        return v

    def _mk(self, kind, shape, dtype, args=()):
        op_id = self.n_ops
        self.n_ops += 1
        dtype = tf.as_dtype(dtype)
        shape_t = tf.convert_to_tensor(shape, dtype=tf.int32) \
            if not isinstance(shape, tf.Tensor) else tf.cast(shape, tf.int32)

        def f(shp, *a):
            return self._draw(kind, op_id, shp, a, dtype.as_numpy_dtype)
        out = tf.py_func(f, [shape_t] + list(args), dtype, stateful=True)
        st = tensor_util.constant_value_as_shape(shape_t)
        out.set_shape(st)
        return out

    def __enter__(self):
        me = self

        def normal(shape, dtype, seed=0, seed2=0, name=None):
            return me._mk("normal", shape, dtype)

        def uniform(shape, dtype, seed=0, seed2=0, name=None):
            return me._mk("uniform", shape, dtype)

        def gamma(shape, alpha, seed=0, seed2=0, name=None):
            alpha = tf.convert_to_tensor(alpha)
            full = tf.concat([tf.convert_to_tensor(shape, dtype=tf.int32), tf.shape(alpha)], 0)
            return me._mk("gamma", full, alpha.dtype, [alpha])

        def poisson(shape, rate, seed=0, seed2=0, dtype=tf.int64, name=None):
            rate = tf.convert_to_tensor(rate)
            full = tf.concat([tf.convert_to_tensor(shape, dtype=tf.int32), tf.shape(rate)], 0)
            return me._mk("poisson", full, dtype, [rate])

        def multinomial(logits, num_samples, seed=0, seed2=0, output_dtype=tf.int64, name=None):
            logits = tf.convert_to_tensor(logits)
            full = tf.stack([tf.shape(logits)[0], tf.cast(num_samples, tf.int32)])
            return me._mk("categorical", full, output_dtype or tf.int64, [logits])

        gen_random_ops.random_standard_normal = normal
        gen_random_ops.random_uniform = uniform
        gen_random_ops.random_gamma = gamma
        gen_random_ops.random_poisson_v2 = poisson
        gen_random_ops.multinomial = multinomial
        return self

    def __exit__(self, *exc):
        for k, v in _ORIG.items():
            setattr(gen_random_ops, k, v)
        return False
