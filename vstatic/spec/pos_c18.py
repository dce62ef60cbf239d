"""Variants of the configuration loader that must be told apart from the reference (bad) or not (good)."""
import copy

import falco
from falco.config import Eval


def bad2__falco__config__Eval__Eval__evaluate(self):
    if self.in_progress:
        raise ValueError('circular')
    return eval(self.code, self.locals, self.globals)


def bad1__falco__config__Object__Object____getattr__(self, item):
    if item == 'data':
        self.data = {}
        return self.data
    if item not in self.data:
        raise AttributeError
    v = self.data[item]
    if isinstance(v, Eval):
        v = v.evaluate()
        self.data[item] = v
    return v


def good1__falco__config__Object__Object____getattr__(self, item):
    if item != 'data':
        if item not in self.data:
            raise AttributeError(item)
        found = self.data[item]
        if not isinstance(found, Eval):
            return found
        return found.evaluate()
    self.data = {}
    return self.data


def good1__falco__config__yaml_loader__object_constructor(noarg_constructor):
    def build(loader, node):
        fields = loader.construct_mapping(node)
        return noarg_constructor(**fields)
    return build


def bad1__falco__config__yaml_loader___eval_constructor(eval_globals, eval_locals):
    def made(loader, node):
        s = loader.construct_scalar(node)
        if not isinstance(s, str):
            raise ValueError('not text')
        return Eval(eval_locals, eval_locals, loader.construct_yaml_str(node))
    return made
