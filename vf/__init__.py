"""The harness. The code under test is loaded first, from /repo and nowhere else."""
from . import boot  # noqa: F401
