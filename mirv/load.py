import json
from .exec import Exec
from . import terms
def load(path='/tmp/mir.json'):
    X=Exec(json.load(open(path)))
    return X
