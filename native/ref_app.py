"""Arguments of applications and the jumps they make (C18, C22), independent
of /repo."""


class Unparsable(ValueError):
    pass


def find_end(data, pos, begin, end):
    depth = 1
    while depth:
        if pos >= len(data):
            raise Unparsable(data)
        if data[pos] == begin:
            depth += 1
        elif data[pos] == end:
            depth -= 1
        pos += 1
    return pos


def tokens(data):
    """The characters of data, with ${..} and $[..] as single tokens (strings
    of more than one character)."""
    out, i = [], 0
    while i < len(data):
        two = data[i:i + 2]
        if two in ('${', '$['):
            end = find_end(data, i + 2, two[1], ']' if two[1] == '[' else '}')
            tokens(data[i + 2:end - 1])
            out.append(data[i:end])
            i = end
        else:
            out.append(data[i])
            i += 1
    return out


def substitute(data):
    try:
        return tokens(data)
    except Unparsable:
        return list(data)


def separate(toks, delimiter, clean):
    """Asterisk's AST_STANDARD_(RAW_)APP_ARGS."""
    out = [[]]
    square = paren = 0
    quoted = escaped = False
    for t in toks:
        keep = True
        if len(t) > 1:
            pass
        elif escaped:
            escaped = False
        elif t == '[':
            square += 1
        elif t == ']':
            square -= square > 0
        elif t == '(':
            paren += 1
        elif t == ')':
            paren -= paren > 0
        elif t == '"' and delimiter != '"':
            quoted = not quoted
            keep = not clean
        elif t == '\\':
            escaped = True
            keep = not clean
        elif t == delimiter and not (square or paren or quoted):
            out.append([])
            continue
        if keep:
            out[-1].append(t)
    return out


def text(toks):
    return ''.join(toks)


def dynamic(toks):
    return any(len(t) > 1 for t in toks)


JUMPS = {'goto': 'Goto', 'gotoif': 'GotoIf', 'gosub': 'Gosub',
         'gosubif': 'GosubIf', 'execif': 'ExecIf'}


def split_app(raw):
    """-> (name, data tokens) or None when there is nothing to look up."""
    if '(' in raw:
        name, _, data = raw.partition('(')
        if data.endswith(')'):
            data = data[:-1]
        else:
            data = '(' + data
    else:
        name, data = raw, ''
    if name.rstrip() != name or not name.strip():
        return None
    return name.lstrip(), substitute(data)


def branches(data):
    """<cond>?<iftrue>[:<iffalse>] -> (iftrue, iffalse, args, notes); the
    old style cond,args gives args."""
    parts = separate(data, '?', True)
    if len(parts) >= 2:
        notes = ['E_APP_ARG_MANY'] if len(parts) > 2 else []
        acts = separate(parts[1], ':', False)
        return acts[0], acts[1] if len(acts) > 1 else [], None, notes
    args = separate(data, ',', False)
    return [], [], args[1:], \
        ['E_APP_ARG_IFSTYLE' if args[1:] else 'E_APP_ARG_FEW']


def destination(args):
    args = list(args)
    if len(args) > 3:
        rest = args[2]
        for a in args[3:]:
            rest = rest + [','] + a
        args[2:] = [rest]
    while len(args) < 3:
        args.insert(0, None)
    return args


def gosub_prio(toks):
    if '(' in toks:
        return toks[:toks.index('(')]
    return toks


def jumps(raw):
    """-> (list of [context, exten, prio] as token lists or None,
           counts of messages about the number of arguments)"""
    out, many = [], 0
    app = split_app(raw)
    if app is None:
        return out, many
    name, data = app
    kind = JUMPS.get(name.lower())
    if kind in ('Goto', 'Gosub'):
        args = separate(data, ',', False)
        many += len(args) > 3
        dest = destination(args)
        if kind == 'Gosub':
            dest[2] = gosub_prio(dest[2])
        out.append(dest)
    elif kind in ('GotoIf', 'GosubIf', 'ExecIf'):
        yes, no, args, notes = branches(data)
        many += notes.count('E_APP_ARG_MANY')
        if kind == 'ExecIf':
            for b in (yes, no):
                if b and len(b[0]) == 1:
                    js, n = jumps(text(b))
                    out.extend(js)
                    many += n
            return out, many
        todo = [args] if args else \
            [separate(b, ',', True) for b in (yes, no) if b]
        for a in todo:
            dest = destination(a)
            if kind == 'GosubIf':
                many += len(a) > 3
                dest[2] = gosub_prio(dest[2])
            out.append(dest)
    return out, many
