from . import access, adder, caches, codec, effects, file, lookup, options, paths, tree, walk                  # noqa: F401
from .base import SPECS                     # noqa: F401
