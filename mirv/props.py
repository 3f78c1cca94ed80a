"""Which contracts decide which property."""
import re

UNSUPPORTED_CMDS = ('CollectCommand', 'DedupCommand', 'EventStatsCommand', 'FormatCommand', 'InputLookupCommand', 'MapCommand',
                    'MvCombineCommand', 'MvExpandCommand', 'ReturnCommand', 'StreamStatsCommand')
EXPR = ['tse', 'eval_fn', 'joinbin', 'unalC', 'unalE', 'unalS']
STATS = ['stats_fn', 'statsbare', 'statsrt', 'stats_expr', 'stats_rt_expr', 'by_field']
ORDER = ('HeadCommand', 'TailCommand', 'SortCommand', 'TopCommand', 'RareCommand')
COMBINE = ('JoinCommand', 'LookupCommand', 'MultiSearchCommand')
COLUMN = ('EvalCommand', 'RenameCommand', 'FieldsCommand', 'TableCommand', 'ConvertCommand', 'SPathCommand', 'FillNullCommand', 'BinCommand',
          'AddTotalsCommand', 'MakeResultsCommand')


def of(cmds):
    return ['%s.(standalone|runtime|mode|clone)' % c for c in cmds]


def any_fail(f):
    return True


def panics(f):
    """The code panics (overflow, unwrap, index, ...)."""
    return f.kind == 'panic' or isinstance(f.code, tuple) and f.code[0] == 'panic'


def accepted(f):
    """The code goes on where it should give up."""
    return f.kind != 'panic' and not panics(f) and (not isinstance(f.spec, tuple) or f.spec[0] == 'err' or f.kind != 'post')


def unordered(f):
    """The outcome depends on something that is not an argument."""
    from .terms import T
    from .oracle import flat
    seen = set()

    def go(t):
        if not isinstance(t, T) or t.id in seen:
            return False
        seen.add(t.id)
        if t.op == 'app' and str(t.args[0]).startswith(('set.iter', 'map.iter')):
            return True
        if t.op == 'var' and str(t.args[0]).startswith('old_static'):
            return True
        return any(go(a) for a in t.args)
    return any(go(t) for t in flat(f.code)) or any(go(k) for k, _ in f.log)


PROPS = {
    'C01': dict(contracts=['split_conditions', 'conjuncts', 'SearchCommand.*', 'iseC', 'unquote', 'unalE', 'unalC'], focus=['SearchCommand']),
    'C02': dict(contracts=['tse', 'joinbin', 'WhereCommand.*', 'unalE', 'unalC'], focus=['WhereCommand', 'EvalCommand']),
    'C03': dict(contracts=['pycode.*'], focus=None),
    'C04': dict(contracts=['unal.', 'stats_expr', 'stats_rt_expr', 'stats_fn', 'iseC', 'SearchCommand.*', 'EvalCommand.*'],
                focus=['StatsCommand', 'EvalCommand', 'TStatsCommand']),
    'C05': dict(contracts=of(ORDER), focus=list(ORDER)),
    'C07': dict(contracts=of(COMBINE) + ['joinbin', 'pipeline'], focus=list(COMBINE)),
    'C08': dict(contracts=of(['StatsCommand']) + STATS, focus=['StatsCommand']),
    'C09': dict(contracts=['evalbare', 'evalrt', 'eval_fn', 'ctf'], focus=['EvalCommand', 'WhereCommand']),
    'C10': dict(contracts=['statsbare', 'statsrt', 'stats_fn', 'convert_fn'], focus=['StatsCommand', 'ConvertCommand']),
    'C11': dict(contracts=['pipeline', 'command', r'.*\.mode', 'eval_fn', 'stats_fn'], focus=None),
    'C12': dict(contracts=[r'.*Command\..*', 'pipeline', 'command', 'pycode.*'],
                focus=['EvalCommand', 'FillNullCommand', 'StatsCommand', 'SearchCommand', 'TStatsCommand', 'DataModelCommand', 'MultiSearchCommand']),
    'C13': dict(contracts=of(UNSUPPORTED_CMDS) + ['.*Command.standalone', 'command', 'pipeline', 'evalbare', 'statsbare', 'tse', 'split_conditions'],
                filter=accepted, focus=None),
    'C14': dict(contracts=['.*'], filter=panics, focus=None),
    'C15': dict(contracts=['.*Command.*', 'split_conditions', 'conjuncts', 'command', 'pipeline', 'tse', 'eval_fn', 'stats_fn', 'pycode.*'],
                filter=unordered, focus=['SearchCommand']),
    'C16': dict(contracts=['ctf', 'convert_fn', 'evalbare', 'ConvertCommand.*'], focus=['ConvertCommand', 'EvalCommand']),
    'C17': dict(contracts=['.*groups', 'RexCommand.*', 'RegexCommand.*'], focus=['RexCommand', 'RegexCommand']),
    'C18': dict(contracts=of(COLUMN) + ['joinbin', 'convert_fn'], focus=list(COLUMN)),
    'C19': dict(contracts=[r'options\..*', r'parse\.options\..*', r'parse\.(command_options|field_and_constant|constant)'], focus=[]),
    'C20': dict(contracts=of(['TStatsCommand', 'DataModelCommand']) + STATS, focus=['TStatsCommand', 'DataModelCommand']),
}

PROPS.update({
    'C22': dict(contracts=[r'parse\.(expr.*|expr_base|term_call|call|field_in|combine|logical_expression.*|comparison_.*)', 'parse.search_modifier', 'parse.time_.*'], focus=[]),
    'C23': dict(contracts=[r'parse\.(time_unit|int|double|time_span|time_span_one|relative_time|word|token|token_with_extras|bool_|double_quoted|single_quoted|double_quoted_alt|wildcard|str_value'
                           r'|_token_not_t_f|field|string|variable|byte|ipv4_addr|ipv4_cidr|ipv6_addr|literal|constant)'], focus=[]),
    'C24': dict(contracts=[r'parse\.(body|command)\..*', r'parse\.(stats_call|maybe_spanned.*|aliased_.*|field_list.*|field_and_value|field_in|call)', r'options\..*'], focus=[]),
    'C25': dict(contracts=[r'parse\.(pipeline|sub_search|quoted_search|command|double_quoted_alt)', r'parse\.command\..*', r'api\.(parse|render)'], focus=[]),
    'C26': dict(contracts=[r'parse\.(macros|token|expr|double_quoted)', r'api\.detect_macros'], focus=[]),
})
PROPS['C11']['contracts'] += ['clone.ast', 'clone.pyspark', 'api.render', r'format(\.black)?']
PROPS['C02']['contracts'].append('clone.ast')
PROPS['C09']['contracts'].append('clone.ast')
PROPS['C25']['contracts'].append('clone.ast')
PROPS['C12']['contracts'].append('clone.pyspark')
PROPS['C03']['contracts'] += ['clone.pyspark', 'api.render', r'format(\.black)?']
PROPS['C15']['contracts'] += [r'api\..*', r'format(\.black)?', r'options\..*']


def contracts(pid, reg):
    rx = re.compile('^(%s)$' % '|'.join('(?:%s)' % c for c in PROPS[pid]['contracts']))
    return [c for c in reg if rx.match(c.name)]
