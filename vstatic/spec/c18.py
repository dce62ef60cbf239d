"""Reference definitions of the configuration loader (C18)."""
import copy
import math
from pathlib import Path

import numpy
import yaml

import falco
from falco.config import Eval, Object, Probe, ProbeSchedule, yaml_loader
from falco.config.ModelParameters import ModelParameters


def falco__config__Eval__Eval__evaluate(self):
    """The expression is run again each time, against the names it was given, and refused while it is already being evaluated."""
    if self.in_progress:
        raise ValueError('circular')
    return eval(self.code, self.globals, self.locals)


def falco__config__Eval__Eval____deepcopy__(self, memo):
    """A copied expression is evaluated against the copied parameters."""
    return Eval(self.globals, copy.deepcopy(self.locals, memo), self.code)


def falco__config__Object__Object____getitem__(self, item):
    return self.__getattr__(item)


def falco__config__Object__Object____getattr__(self, item):
    if item == 'data':
        self.data = {}
        return self.data
    if item not in self.data:
        raise AttributeError
    v = self.data[item]
    return v.evaluate() if isinstance(v, Eval) else v


def falco__config__Object__Object____setitem__(self, key, value):
    self.data[key] = value


def falco__config__yaml_loader__load_from_str(yaml_str, eval_globals, eval_locals, ctors_dict):
    return yaml.load(yaml_str, Loader=yaml_loader._get_loader(eval_globals, eval_locals, ctors_dict)).data


def falco__config__ModelParameters__ModelParameters__from_yaml(text, context=None):
    """The expressions see numpy, falco, math, the caller's names and the very object that is returned."""
    result = ModelParameters()
    names = {} if context is None else context
    data = yaml_loader.load_from_str(text, {'np': numpy, 'falco': falco, 'math': math}, dict(names, mp=result),
                                     {'!Probe': yaml_loader.object_constructor(Probe), '!ProbeSchedule': yaml_loader.object_constructor(ProbeSchedule)})
    result.__init__(**data)
    return result


def falco__config__ModelParameters__ModelParameters__from_yaml_file(path_string, context=None):
    return ModelParameters.from_yaml(Path(path_string).read_text(), context)


def falco__config__yaml_loader__object_constructor(noarg_constructor):
    def made(loader, node):
        return noarg_constructor(**loader.construct_mapping(node))
    return made


def falco__config__yaml_loader___eval_constructor(eval_globals, eval_locals):
    def made(loader, node):
        s = loader.construct_scalar(node)
        if not isinstance(s, str):
            raise ValueError('not text')
        return Eval(eval_globals, eval_locals, loader.construct_yaml_str(node))
    return made


def falco__config__yaml_loader___get_loader(eval_globals, eval_locals, ctors_dict):
    class loader(yaml.SafeLoader):
        pass
    loader.add_constructor('tag:yaml.org,2002:map', yaml_loader.object_constructor(Object))
    loader.add_constructor('!eval', yaml_loader._eval_constructor(eval_globals, eval_locals))
    for tag in ctors_dict:
        loader.add_constructor(tag, ctors_dict[tag])
    return loader
