"""Replays specs/Backward.tla into get_backward_ops: builds the graph of the
case and accepts every order the specification's Return steps allow."""
from zsenv import tf, zs
from worker import HarnessError


def run(batch):
    bad = []
    for c in batch:
        m = one(c)
        if m:
            bad.append({"msg": m, "case": [c]})
    return {"bad": bad[:8], "n": len(batch)}


def one(c):
    with tf.Graph().as_default():
        built = []   # per operation: its output tensors
        for k, o in enumerate(c["ops"]):
            ctl = [built[j - 1][0].op for j in o["ctl"]]
            with tf.control_dependencies(ctl):
                if o["ins"]:
                    out = tf.identity_n([built[i - 1][j - 1] for i, j in o["ins"]])
                elif k % 2:
                    out = [tf.zeros([2])]
                else:
                    out = [tf.placeholder(tf.float32, [2])]
            op = out[0].op
            if set(op.control_inputs) != set(ctl) or len(out) != max(1, len(o["ins"])):
                raise HarnessError("graph built differs from the specification's: %s" % (c,))
            built.append(out)
        num = {b[0].op: i + 1 for i, b in enumerate(built)}
        seeds = [built[i - 1][j - 1] for i, j in c["seeds"]]
        cuts = [built[i - 1][j - 1] for i, j in c["cuts"]]
        arg = seeds[0] if len(seeds) == 1 and len(c["ops"]) % 2 else tuple(seeds) if len(c["ops"]) % 3 == 0 else list(seeds)
        before = list(seeds), list(cuts)
        got = zs.get_backward_ops(arg, treat_as_inputs=cuts if cuts or len(c["ops"]) % 2 else None)
        again = zs.get_backward_ops(arg, treat_as_inputs=list(reversed(cuts)))
        if (seeds, cuts) != before:
            return "the arguments were changed"
        what = "graph %s, seeds %s, inputs %s: " % (c["ops"], c["seeds"], c["cuts"])
        for g in (got, again):
            if any(o not in num for o in g):
                return what + "returned %s which are not operations of the graph" % (g,)
            r = [num[o] for o in g]
            if len(set(r)) != len(r):
                return what + "%s has an operation twice" % (r,)
            if set(r) != set(c["wanted"]):
                return what + "returned %s, the seeds depend on %s" % (r, c["wanted"])
            done = set()
            for i in r:
                if not set(c["deps"][i - 1]) <= done:
                    return what + "%s has %d before what it depends on (%s)" % (r, i, c["deps"][i - 1])
                done.add(i)
