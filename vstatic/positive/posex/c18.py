import copy
import functools

import yaml


class Shared(yaml.SafeLoader):
    pass


def make(x):
    return lambda loader, node: x


def bad_library(x):
    yaml.SafeLoader.add_constructor('!x', make(x))
    return yaml.SafeLoader


def bad_every_loader(x):
    yaml.add_constructor('!x', make(x))


def bad_shared(x):
    Shared.add_constructor('!x', make(x))
    return Shared


def bad_table(x):
    class loader(yaml.SafeLoader):
        pass
    loader.yaml_constructors['!x'] = make(x)
    return loader


def bad_update(x):
    class loader(yaml.SafeLoader):
        yaml_constructors = yaml.SafeLoader.yaml_constructors
    loader.yaml_constructors.update({'!x': make(x)})
    return loader


def bad_patch(x):
    yaml.SafeLoader.construct_yaml_map = make(x)


def bad_unsafe(x):
    class loader(yaml.FullLoader):
        pass
    loader.add_constructor('!x', make(x))
    return loader


def bad_unsafe_load(text):
    return yaml.unsafe_load(text)


def bad_context(text, context):
    context['mp'] = text
    return dict(context)


@functools.lru_cache(maxsize=None)
def bad_remembers(text):
    return yaml.safe_load(text)


def register(loader, x):
    loader.add_constructor('!x', make(x))


def good_local(x):
    class loader(yaml.SafeLoader):
        pass
    loader.add_constructor('!x', make(x))
    register(loader, x)
    return loader


def good_copy(x):
    class loader(yaml.CSafeLoader):
        yaml_constructors = dict(yaml.SafeLoader.yaml_constructors)
    loader.yaml_constructors['!x'] = make(x)
    return loader


def good_type(x):
    loader = type('loader', (yaml.SafeLoader,), {})
    yaml.add_constructor('!x', make(x), Loader=loader)
    return loader


def good_context(text, context=None):
    names = {} if context is None else dict(context)
    names['mp'] = text
    return names


class BadCopy:
    def __init__(self, globals, locals, code):
        self.globals, self.locals, self.code = globals, locals, code

    def __deepcopy__(self, memo):
        return BadCopy(self.globals, self.locals, self.code)


class BadMemo:
    def __init__(self, globals, locals, code):
        self.globals, self.locals, self.code = globals, locals, code

    def __deepcopy__(self, memo):
        return BadMemo(self.globals, copy.deepcopy(self.locals), self.code)


class GoodCopy:
    def __init__(self, globals, locals, code):
        self.globals, self.locals, self.code = globals, locals, code

    def __deepcopy__(self, memo):
        names = copy.deepcopy(self.locals, memo)
        return GoodCopy(globals=self.globals, locals=names, code=self.code)
