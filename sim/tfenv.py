"""Process environment for the simulator: TF1 API, no GPU, no thread pools that matter.

Import this module before anything else that touches tensorflow or zhusuan.
"""
import os
import sys
import warnings

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import tensorflow as _tf2  # noqa: E402

if not getattr(_tf2, "_verif_tf1", False):
    _v1 = _tf2.compat.v1
    _v1.disable_v2_behavior()
    _v1.__path__ = list(_v1.__path__) + list(_tf2.__path__)
    _v1._verif_tf1 = True
    sys.modules["tensorflow"] = _v1
import tensorflow as tf  # noqa: E402
import numpy as np  # noqa: E402

tf.logging.set_verbosity(tf.logging.FATAL)
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)
