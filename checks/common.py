import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf, ref, gen, model, build
from gen import I, F, S, V, call, dot, asg, X, B, P, NONE, TRUE, FALSE
NL = S("\n")

class Acc:
    """Gathers statements that succeed into programs of `per`; those that fail get one each."""
    def __init__(self, batch, what, per=25, prelude=(), **opts):
        self.b, self.what, self.per, self.prelude, self.opts = batch, what, per, list(prelude), opts
        self.good = []
    def add(self, *stmts):
        p = model.predict(self.prelude + list(stmts))
        if p is None:
            self.b.chk.count("not covered by the model"); return
        if p[1] is not None:
            self.b.prog(self.prelude + list(stmts) + [P(S("not reached"))], self.what, **self.opts)
        else:
            self.good += stmts
            if len(self.good) >= self.per: self.flush()
    def flush(self):
        if self.good:
            self.b.prog(self.prelude + self.good, self.what, **self.opts)
            self.good = []
