"""The functions of the Python module."""
from ..dsl import *
from ..terms import *
from . import parser as L, commands as C, render as R
from .grammar import *
from ..peg import emptytext
from .. import models as M

# ------------------------------------------------------------------ entry points
@contract('api.parse', r'^spl_transpiler::spl_transpiler::parse$', result=True)
def api_parse(text):
    """The tree of the whole text, or an error."""
    rest, v = L.pipeline(coerce(text))
    if not emptytext(rest):
        fail()
    return v


@contract('api.detect_macros', r'^spl_transpiler::spl_transpiler::detect_macros$', result=True)
def api_macros(text):
    rest, v = macros(coerce(text))
    if not emptytext(rest):
        fail()
    return v


def python(op, *a):
    """The result of a Python operation, which may raise."""
    v = M.pyobj(G.X, op, *(coerce(x) for x in a))
    if not M.pyreturns(G.X, v):
        fail()
    return v


@contract('format.black', r'format_python::format_python_code(::<.*>)?$', result=True)
def format_black(code):
    """What black.format_str makes of the code with the default mode, without blanks around it; an error if black is missing or raises."""
    black = python('import', 'black')
    mode = python('call', python('getattr', black, 'FileMode'), mk('tup', ()))
    fmt = python('getattr', black, 'format_str')
    kw = M.pyobj(G.X, 'dict', coerce([mk('tup', (lit('mode'), mode))]))
    return M.sapp(G.X, 'str.trim', M.sapp(G.X, 'py.str', python('call', fmt, mk('tup', (code,)), kw)))


@contract('format', r'format_python::safe_format_python_code(::<.*>)?$')
def format_code(code):
    """The formatted code, or the code as it is if it could not be formatted."""
    try:
        return format_black(code)
    except SpecErr:
        return code


COUNTER = lambda: mk('app', ('newcounter',), find_ty('std::sync::atomic::Atomic<usize>'))


@contract('api.render', r'^spl_transpiler::spl_transpiler::render_pyspark$', result=True)
def api_render(pipeline, allow_runtime, do_format):
    """The code of the pipeline's transformation under the chosen mode, formatted on request and otherwise as it is."""
    rt = PB.RuntimeSelection.Allow() if true(allow_runtime) else PB.RuntimeSelection.Disallow()
    ctx = PB.PysparkTranspileContext(df_num=COUNTER(), runtime=rt)
    s = R.text(R.r_pipeline(C.transform_pipeline(pipeline, ctx), ctx))
    return format_code(s) if true(do_format) else s
