from . import env  # noqa: F401  (controlled randomness and the code under test come first)
