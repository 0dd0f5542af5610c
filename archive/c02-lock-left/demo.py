import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RMTB
import signal, subprocess
x, y = data(12, 2)
SRC = """
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
from smt.surrogate_models import RMTB, rmts
x = np.load(sys.argv[1] + "/x.npy"); y = np.load(sys.argv[1] + "/y.npy")
rmts.RMTS._new_train = lambda self: os.kill(os.getpid(), 9)
s = RMTB(xlimits=np.array([[0., 1.], [0., 1.]]), num_ctrl_pts=6, print_global=False, data_dir=sys.argv[1] + "/c"); s.set_training_values(x, y); s.train()
"""
with tempfile.TemporaryDirectory() as d:
    np.save(d + "/x.npy", x); np.save(d + "/y.npy", y); os.mkdir(d + "/c")
    subprocess.run([sys.executable, "-c", SRC, d])
    s = RMTB(xlimits=np.array([[0., 1.], [0., 1.]]), num_ctrl_pts=6, print_global=False, data_dir=d + "/c"); s.set_training_values(x, y)
    try: quiet(s.train)
    except RuntimeError: sys.exit(1)
    sys.exit(0)
