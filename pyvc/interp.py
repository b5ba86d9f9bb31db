from .core import Interp as _Core, World, Unsupported, Retype
from .expr import ExprMixin
from .builtin import BuiltinMixin
from .stmt import StmtMixin


class Interp(ExprMixin, BuiltinMixin, StmtMixin, _Core):
    pass
