"""C++ names and types: parses demangled names and clang's record-layout dump."""
import re

_STRIP = re.compile(r"\b(class|struct|enum|union)\s+")
DEFAULT_ARGS = ("std::allocator<", "std::less<", "std::char_traits<", "std::hash<", "std::equal_to<",
                "std::default_delete<")


def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if c == '>' and i and s[i - 1] == '-':
                pass
            else:
                depth -= 1
        if c == sep and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip() or out:
        out.append(cur.strip())
    return out


_norm_cache = {}


def norm(t):
    """Canonical spelling of a C++ type name."""
    if t in _norm_cache:
        return _norm_cache[t]
    s = _STRIP.sub('', t).strip()
    s = s.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '').replace('_Bool', 'bool')
    s = re.sub(r'\s+>', '>', s)
    r = _norm(s)
    _norm_cache[t] = r
    return r


def _norm(s):
    s = s.strip()
    # east/west const
    changed = True
    const = False
    suffix = ''
    while changed:
        changed = False
        if s.endswith('const') and (len(s) == 5 or not (s[-6].isalnum() or s[-6] == '_')):
            s = s[:-5].strip(); const = True; changed = True
        elif s.startswith('const '):
            s = s[6:].strip(); const = True; changed = True
        elif s.endswith('&&'):
            return _norm(s[:-2]) + '&&'
        elif s.endswith('&') or s.endswith('*'):
            c = s[-1]
            return _norm(s[:-1]) + c
    m = s.find('<')
    if m < 0 or s.endswith(')'):
        r = SCALAR_ALIAS.get(s, s)
        return r
    # find the matching close for each template group
    out = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            depth = 0
            j = i
            while j < len(s):
                if s[j] == '<':
                    depth += 1
                elif s[j] == '>':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            args = [_norm(a) for a in split_top(s[i + 1:j])]
            args = [a for k, a in enumerate(args) if not (a.startswith(DEFAULT_ARGS) and k > 0)]
            out += '<' + ', '.join(args) + '>'
            i = j + 1
        else:
            out += c
            i += 1
    out = out.replace('std::basic_string<char>', 'std::string')
    out = out.replace('nlohmann::json_abi_v3_11_3::', 'nlohmann::')
    out = re.sub(r'nlohmann::basic_json<.*>$', 'nlohmann::json', out) if out.startswith('nlohmann::basic_json<') else out
    return out


SCALAR_ALIAS = {'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'uint64_t': 'unsigned long',
                'std::uint64_t': 'unsigned long', 'int64_t': 'long', 'uint32_t': 'unsigned int',
                'std::uint32_t': 'unsigned int', 'uint16_t': 'unsigned short', 'uint8_t': 'unsigned char',
                'std::uint8_t': 'unsigned char', 'long long': 'long', 'unsigned long long': 'unsigned long',
                'ssize_t': 'long', 'unsigned': 'unsigned int', 'long long int': 'long',
                'unsigned long long int': 'unsigned long', 'std::basic_string<char>': 'std::string',
                'TimePoint': 'unsigned long', 'TraceId': 'unsigned int', 'TraceType': 'unsigned char'}

SCALARS = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
           'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'float': 4, 'pthread_t': 8}


class SigError(Exception):
    pass


class Sig:
    """qual: qualified name without template arguments; cls: normalized class type; name: method; params; targs"""
    __slots__ = ("qual", "cls", "clsbase", "name", "params", "targs", "const", "raw", "clsargs")

    def __repr__(self):
        return "Sig(%s | %s | %s)" % (self.qual, self.targs, self.params)


_sig_cache = {}


def parse_sig(d):
    if d in _sig_cache:
        return _sig_cache[d]
    r = _parse_sig(d)
    _sig_cache[d] = r
    return r


def _scan_groups(s):
    """yield (index, char, depth) handling operator tokens"""
    i, depth = 0, 0
    res = []
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = i + 8
            m = re.match(r"(\(\)|\[\]|->\*|->|<=>|<<=|>>=|<<|>>|<=|>=|<(?=<|\()|<|>|[=!+\-*/%^&|~,]+|\"\"\s*\w+)", s[j:])
            if m:
                for k in range(i, j + m.end()):
                    res.append((k, 'o', depth))
                i = j + m.end()
                continue
        c = s[i]
        if c in '<({[':
            res.append((i, c, depth))
            depth += 1
        elif c in '>)}]':
            if c == '>' and i and s[i - 1] == '-':
                res.append((i, c, depth))
            else:
                depth -= 1
                res.append((i, c, depth))
        else:
            res.append((i, c, depth))
        i += 1
    return res


def _parse_sig(d):
    s = d.replace('[abi:cxx11]', '')
    s = re.sub(r' \[clone [^\]]*\]', '', s)
    s = re.sub(r'(?:\(anonymous namespace\))', '_anon_', s)
    s = re.sub(r"'lambda\d*'", 'lambda', s)
    s = re.sub(r"'(unnamed|block)[^']*'", 'unnamed', s)
    sig = Sig()
    sig.raw = d
    g = _scan_groups(s)
    # last top-level ( ... )
    opens = [i for i, c, dep in g if c == '(' and dep == 0]
    if not opens:
        sig.qual = s; sig.cls = None; sig.clsbase = None; sig.name = s; sig.params = None; sig.targs = []; sig.const = False
        sig.clsargs = []
        return sig
    po = opens[-1]
    closes = [i for i, c, dep in g if c == ')' and dep == 0 and i > po]
    pc = closes[-1] if closes else len(s)
    params = [norm(x) for x in split_top(s[po + 1:pc])]
    sig.params = params
    sig.const = 'const' in s[pc:]
    head = s[:po]
    gh = [x for x in g if x[0] < po]
    # conversion operator: "... operator std::string"
    m = re.search(r'(^|::)operator (?![<>=!\-+\[(])', head)
    start = 0
    name_end_special = None
    if m and not head[m.end():].startswith(('new', 'delete')):
        cut = m.start() + len(m.group(1))
        name_end_special = 'operator ' + norm(head[m.end():])
        pre = head[:cut]
        lim = cut
    else:
        lim = len(head)
        pre = head
    # strip return type: last top-level space before lim
    for i, c, dep in gh:
        if i >= lim:
            break
        if c == ' ' and dep == 0:
            start = i + 1
    body = head[start:lim]
    if name_end_special:
        body = body + name_end_special
    # split on :: at depth zero
    parts, cur, i = [], '', 0
    gg = _scan_groups(body)
    skip = False
    for i, c, dep in gg:
        if skip:
            skip = False
            continue
        if c == ':' and dep == 0 and body[i:i + 2] == '::':
            parts.append(cur)
            cur = ''
            skip = True
            continue
        cur += body[i]
    parts.append(cur)

    def strip_t(p):
        """(base, targs)"""
        gp = _scan_groups(p)
        for i, c, dep in gp:
            if c == '<' and dep == 0:
                close = max(j for j, cc, dd in gp if cc == '>' and dd == 0)
                return p[:i], [norm(x) for x in split_top(p[i + 1:close])]
        return p, []
    bases = []
    last_targs = []
    for p in parts:
        b, ta = strip_t(p)
        bases.append(b)
        last_targs.append(ta)
    bases = [b for b in bases]
    q = [b for b in bases if b not in ('__cxx11', 'json_abi_v3_11_3')]
    sig.name = bases[-1]
    sig.targs = last_targs[-1]
    sig.clsbase = '::'.join([b for b in bases[:-1] if b not in ('__cxx11', 'json_abi_v3_11_3')])
    sig.clsargs = last_targs[-2] if len(bases) > 1 else []
    sig.cls = norm('::'.join(parts[:-1])) if len(parts) > 1 else None
    sig.qual = '::'.join(q)
    return sig


class Record:
    def __init__(self, name):
        self.name = name
        self.size = None
        self.fields = []   # (offset, type, field)
        self.bases = []    # (offset, type)
        self.vptr = False

    def __repr__(self):
        return "Record(%s %s %s)" % (self.name, self.size, self.fields)


class Layouts:
    def __init__(self):
        self.records = {}
        self.vidx = {}   # class -> {slot: 'qualified method'}

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('*** Dumping AST Record Layout'):
                i += 1
                blk = []
                while i < n and lines[i].strip() and not lines[i].startswith('***'):
                    blk.append(lines[i]); i += 1
                self._record(blk)
                continue
            if l.startswith('VTable indices for'):
                m = re.match(r"VTable indices for '(.*)' \(", l)
                cls = norm(m.group(1))
                d = self.vidx.setdefault(cls, {})
                i += 1
                while i < n and lines[i].strip():
                    mm = re.match(r"\s*(\d+) \| (.*)$", lines[i])
                    if mm:
                        d[int(mm.group(1))] = mm.group(2)
                    i += 1
                continue
            i += 1

    def _record(self, blk):
        ent = []
        size = None
        for l in blk:
            m = re.match(r"\s*(\d+)(?::\S+)? \| (\s*)(.*)$", l)
            if m:
                ent.append((int(m.group(1)), len(m.group(2)) // 2, m.group(3)))
            else:
                m = re.search(r"sizeof=(\d+)", l)
                if m:
                    size = int(m.group(1))
        if not ent:
            return
        # root
        self._build(ent, 0, 0, 0, size)

    def _build(self, ent, i, depth, base_off, size):
        off0, d0, txt = ent[i]
        name = txt
        name = re.sub(r"\s*\(empty\)", '', name)
        name = re.sub(r"\s*\((primary |virtual )?(base|virtual base)\)$", '', name)
        name = norm(name)
        if name in self.records and self.records[name].size is not None:
            return
        r = Record(name)
        r.size = size
        j = i + 1
        while j < len(ent) and ent[j][1] > d0:
            off, d, t = ent[j]
            if d == d0 + 1:
                rel = off - off0
                empty = t.endswith('(empty)')
                t2 = re.sub(r"\s*\(empty\)$", '', t)
                if 'vtable pointer)' in t2:
                    r.vptr = True
                elif re.search(r"\((primary |virtual )?base\)$", t2):
                    r.bases.append((rel, norm(re.sub(r"\s*\((primary |virtual )?base\)$", '', t2))))
                    self._build(ent, j, d, off, None)
                else:
                    m = re.match(r"(.*[\s&*>\]])([A-Za-z_]\w*)$", t2)
                    if m:
                        r.fields.append((rel, norm(m.group(1).strip()), m.group(2)))
                        if '::(lambda' not in t2:
                            pass
                    else:
                        r.fields.append((rel, norm(t2), ''))
            j += 1
        self.records.setdefault(name, r)
        if self.records[name].size is None:
            self.records[name] = r

    def field(self, cls, fname):
        """(offset, type) of a (possibly inherited) field."""
        r = self.records.get(cls)
        if r is None:
            return None
        for off, t, f in r.fields:
            if f == fname:
                return off, t
        for off, b in r.bases:
            x = self.field(b, fname)
            if x:
                return off + x[0], x[1]
        return None

    def all_fields(self, cls):
        r = self.records.get(cls)
        if r is None:
            return []
        res = []
        for off, b in r.bases:
            res += [(off + o, t, f) for o, t, f in self.all_fields(b)]
        res += r.fields
        return sorted(res)

    def virtual(self, cls, slot):
        """method description for a static class and vtable slot"""
        seen = [cls]
        while seen:
            c = seen.pop(0)
            d = self.vidx.get(c, {})
            if slot in d:
                return d[slot]
            r = self.records.get(c)
            if r:
                seen += [b for _, b in r.bases]
        return None

    def bases_of(self, cls):
        out = [cls]
        r = self.records.get(cls)
        if r:
            for _, b in r.bases:
                out += self.bases_of(b)
        return out


def targs(t):
    """template arguments of a normalized type"""
    i = t.find('<')
    if i < 0:
        return []
    return split_top(t[i + 1:t.rindex('>')])


def tbase(t):
    i = t.find('<')
    return t if i < 0 else t[:i]
