"""dill as installed (0.2.8) cannot pickle code objects of Python 3.9; this teaches it, in the driver's process only."""
import marshal
import types
import dill

dill._dill.Pickler.dispatch[types.CodeType] = \
    lambda pickler, obj: pickler.save_reduce(marshal.loads, (marshal.dumps(obj),), obj=obj)
