from interp import Machine as _M
from loops import Loops
from stdlib import Std
class Machine(Loops, Std, _M): pass
