TARGET = 'spl_transpiler.macros'
PROPERTY = 'C21'
import json
from itertools import islice
from spl_transpiler.macros import MacroDefinition, substitute_macros as _expand
from spl_transpiler.spl_transpiler import detect_macros, parse


def _body(definition, call):
    """The text that stands for one macro call: the definition, each parameter replaced by its argument."""
    params, args = definition.arguments, call.args
    if len(params) != len(args):
        raise ValueError
    if all(name is None for name, _ in args):
        values = dict(zip(params, [value for _, value in args]))
    elif all(name is not None for name, _ in args):
        if sorted([name for name, _ in args]) != sorted(params):
            raise ValueError
        values = dict(args)
    else:
        raise ValueError
    text = definition.definition
    for name, value in values.items():
        text = text.replace(f"${name}$", value)
    return text


def substitute_macros(code, macros: "MacroLoader"):
    chunks, suffix = detect_macros(code)
    text = "".join([part for prefix, call in chunks
                    for part in (prefix, _body(MacroDefinition.model_validate(macros[call.macro_name]), call))]) + suffix
    text = text.rstrip().rstrip("|").strip()
    if text == code:
        return text
    return _expand(text, macros)


def parse_with_macros(code: str, macros: "MacroLoader", *args, **kwargs):
    return parse(_expand(code, macros), *args, **kwargs)


def RegistryMacroLoader____getitem__(self, item):
    return self.registry[item]


def CombinedMacroLoader____getitem__(self, item):
    for loader in self.loaders:
        try:
            return loader[item]
        except KeyError:
            pass
    if self.fallback_fn is not None:
        return self.fallback_fn(item)
    raise KeyError


def FolderMacroLoader____getitem__(self, item):
    found = list(islice(self.root_dir.rglob(f"{item}{self.suffix}"), 2))
    if len(found) > 1:
        raise ValueError
    if len(found) < 1:
        raise KeyError
    if not found[0].is_file():
        raise KeyError
    with found[0].open() as file:
        data = self.loader(file)
    return MacroDefinition.model_validate(data)


def RegistryMacroLoader____init__(self, values):
    self.registry = dict(values)


def RegistryMacroLoader__register(self, name: str, definition: MacroDefinition):
    self.registry[name] = definition


def FolderMacroLoader____init__(self, root_dir, suffix: str = ".json", loader=json.load):
    self.root_dir = root_dir
    self.suffix = suffix
    self.loader = loader


def CombinedMacroLoader____init__(self, *loaders, fallback_fn=None):
    self.loaders = loaders
    self.fallback_fn = fallback_fn
