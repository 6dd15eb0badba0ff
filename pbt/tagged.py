"""Classes with an index operation of their own (as the priors of GPy): tags on elements, any number per element."""
import numpy as np
from paramz import Param
from paramz.core.parameter_core import Parameterizable
from paramz.core.index_operations import ParameterIndexOperations
from .world import Node, RModel


class Tagger(Parameterizable):
    def __init__(self, name, *a, **kw):
        super(Tagger, self).__init__(name=name, *a, **kw)
        self.add_index_operation('tags', ParameterIndexOperations())

    def tag(self, what):
        return self._add_to_index_operations(self.tags, np.empty(0), what, False)

    def untag(self, *what):
        return self._remove_from_index_operations(self.tags, what)


class TParam(Param, Tagger):
    pass


class TNode(Node, Tagger):
    pass


class TModel(RModel, Tagger):
    pass
