"""Small functions on which vc/conformance.py compares the symbolic interpreter with CPython."""
import datetime
import decimal
import re

from lxml import etree

CASES = []


def case(*kinds):
    def deco(f):
        CASES.append((f.__name__, f, kinds))
        return f
    return deco


def group(kinds, **fs):
    for n, f in fs.items():
        CASES.append((n, f, kinds))


# ------------------------------------------------------------------------------------------------ cases
group(('str',),
      str_strip=lambda s: s.strip(), str_lstrip=lambda s: s.lstrip(), str_rstrip=lambda s: s.rstrip(),
      str_strip_set=lambda s: s.strip('"'), str_strip_xml=lambda s: s.strip('\t\n\r '), str_len=lambda s: len(s),
      str_lower=lambda s: s.lower(), str_upper=lambda s: s.upper(), str_truth=lambda s: bool(s),
      str_isdigit=lambda s: s.isdigit(), str_isspace=lambda s: s.isspace(),
      str_startswith=lambda s: s.startswith('a'), str_startswith_many=lambda s: s.startswith(('-', 'P')),
      str_endswith=lambda s: s.endswith('Z'), str_first=lambda s: s[0], str_last=lambda s: s[-1],
      str_slice=lambda s: s[1:], str_slice_end=lambda s: s[:-1], str_slice_mid=lambda s: s[1:3],
      str_find=lambda s: s.find(':'), str_index=lambda s: s.index(':'), str_count=lambda s: s.count('a'),
      str_in=lambda s: ':' in s, str_in_many=lambda s: s in ('a', 'true', '1', ''), str_chars=lambda s: all(c in '-0123456789' for c in s),
      str_split=lambda s: s.split(':'), str_split1=lambda s: s.split(':', 1), str_rsplit1=lambda s: s.rsplit(':', 1),
      str_partition=lambda s: s.partition(':'), str_rpartition=lambda s: s.rpartition('.'),
      str_replace=lambda s: s.replace(':', ''), str_replace1=lambda s: s.replace('a', 'bb', 1),
      str_concat=lambda s: 'x' + s + 'y', str_mul=lambda s: s * 2, str_percent=lambda s: 'a%sb' % s,
      str_percent_r=lambda s: '%r' % (s,), str_format=lambda s: 'a{}b{}'.format(s, 1), str_f=lambda s: f'<{s}>', str_f_r=lambda s: f'{s!r}',
      str_join=lambda s: ','.join(['a', s, 'b']), str_eq=lambda s: s == 'true', str_encode=lambda s: s.encode('utf-8') == b'abc',
      str_lt=lambda s: s < 'b', str_zfill=lambda s: s.zfill(4), str_removeprefix=lambda s: s.removeprefix('a'),
      str_removesuffix=lambda s: s.removesuffix('Z'), str_translate=lambda s: s.translate({9: ' ', 10: ' ', 13: ' '}),
      str_bool_table=lambda s: {'true': True, '1': True, 'false': False, '0': False}[s],
      str_splitws=lambda s: s.split(), str_joinsplit=lambda s: ' '.join(s.split()),
      int_of=lambda s: int(s), float_of=lambda s: float(s), decimal_of=lambda s: decimal.Decimal(s),
      re_digits=lambda s: re.match(r'[+-]?\d+$', s) is not None, re_full=lambda s: re.fullmatch('[A-Z][0-9]*', s) is not None,
      re_search=lambda s: re.search('a+', s) is not None, re_sub_ws=lambda s: re.sub('[\t\n\r]', ' ', s),
      re_sub_collapse=lambda s: re.sub(' +', ' ', s), re_group=lambda s: [m.group(1) for m in [re.match(r'(\d+)-(\d+)', s)] if m],
      re_none=lambda s: re.match('a', s) is None,
      qname_local=lambda s: etree.QName(s).localname if s and '{' not in s and '}' not in s and s.isidentifier() else None,
      pad=lambda s: s or 'empty', chained=lambda s: 'a' <= s <= 'c')

group(('int',),
      int_str=lambda n: str(n), int_f=lambda n: f'{n:02d}', int_percent=lambda n: '%d' % n, int_percent02=lambda n: '%02d' % n,
      int_add=lambda n: n + 3, int_sub=lambda n: 3 - n, int_mul=lambda n: n * n, int_floordiv=lambda n: n // 3,
      int_mod=lambda n: n % 3, int_floordiv_neg=lambda n: n // -4, int_mod_neg=lambda n: n % -4, int_divmod=lambda n: divmod(n, 60),
      int_abs=lambda n: abs(n), int_neg=lambda n: -n, int_cmp=lambda n: (n < 3, n <= 3, n == 3, n != 3, n > 3),
      int_truth=lambda n: bool(n), int_float=lambda n: float(n), int_decimal=lambda n: decimal.Decimal(n),
      int_minmax=lambda n: (min(n, 4), max(n, 4)), int_len=lambda n: len(str(n)), int_round=lambda n: int(str(n)),
      int_bool=lambda n: isinstance(n, bool), int_is=lambda n: isinstance(n, int), int_pow=lambda n: n ** 2,
      int_range=lambda n: n in range(-2, 5), int_div0=lambda n: 1 // n, int_true=lambda n: n == 1.0,
      int_ternary=lambda n: 'a' if n > 2 else 'b', int_and=lambda n: n and 5, int_or=lambda n: n or 5,
      int_digits=lambda n: len(str(abs(n))), int_index=lambda n: [7, 8, 9][n], int_slice=lambda n: 'abcdef'[n:],
      int_td=lambda n: datetime.timedelta(minutes=n).total_seconds(), int_td_parts=lambda n: (lambda d: (d.days, d.seconds))(datetime.timedelta(minutes=n)),
      int_date=lambda n: datetime.date(2000, 2, n).isoformat(), int_date_year=lambda n: datetime.date(n, 3, 1).isoformat(),
      int_time=lambda n: datetime.time(n, 5, 6).isoformat(), int_tz=lambda n: datetime.timezone(datetime.timedelta(minutes=n)).utcoffset(None).total_seconds(),
      int_dt_tz=lambda n: datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=datetime.timezone(datetime.timedelta(minutes=n))).isoformat())

group(('decimal',),
      dec_str_sign=lambda d: str(d).startswith('-'), dec_cmp=lambda d: (d < 2, d <= 2, d == 2, d > 2), dec_neg=lambda d: -d,
      dec_add=lambda d: d + 1, dec_float=lambda d: float(d), dec_int=lambda d: int(d), dec_truth=lambda d: bool(d),
      dec_f=lambda d: f'{d:f}', dec_abs=lambda d: abs(d), dec_mod=lambda d: d == int(d),
      dec_plain=lambda d: format(d, 'f').partition('.')[2])

group(('float',),
      flt_cmp=lambda x: (x < 2, x <= 2, x == 2, x > 2, x != x), flt_neg=lambda x: -x, flt_truth=lambda x: bool(x),
      flt_is_int=lambda x: x == int(x), flt_str=lambda x: float(str(x)) == x, flt_decimal=lambda x: decimal.Decimal(str(x)) == decimal.Decimal(repr(x)))

group(('int', 'int'), ii_cmp=lambda a, b: (a < b, a == b, a >= b), ii_minmax=lambda a, b: (min(a, b), max(a, b)),
      ii_date=lambda a, b: datetime.date(2001, a, b).isoformat(), ii_floordiv=lambda a, b: a // b, ii_mod=lambda a, b: a % b,
      ii_sorted=lambda a, b: sorted([a, b]), ii_swap=lambda a, b: (b, a), ii_divmod=lambda a, b: divmod(a, b))

group(('str', 'str'), ss_eq=lambda a, b: a == b, ss_in=lambda a, b: a in b, ss_concat=lambda a, b: (a + b).startswith(a),
      ss_clark=lambda a, b: '{%s}%s' % (a, b), ss_dict=lambda a, b: {'x': a, 'y': b}['y'], ss_set=lambda a, b: a in {b},
      ss_list=lambda a, b: [a, b].index(b), ss_replace=lambda a, b: ('x' + a + 'y').replace('x', b, 1) if 'x' not in a and a else None,
      ss_attr=lambda a, b: etree.Element('r', {'k': a}).get('k') == b if a.isalnum() else None,
      ss_dict_get=lambda a, b: {'true': 1}.get(a, b))


@case('str')
def try_int(s):
    try:
        return int(s)
    except ValueError:
        return 'no'
    finally:
        s = None


@case('int')
def while_small(n):
    k = 0
    while k < 3 and n > k:
        k += 1
    return k


@case('strs')
def list_len(xs):
    return len(xs)


@case('strs')
def list_first(xs):
    return xs[0]


@case('strs')
def list_last(xs):
    return xs[-1]


@case('strs')
def list_count(xs):
    n = 0
    for x in xs:
        n += 1
    return n


@case('strs')
def list_find(xs):
    for x in xs:
        if x == 'b':
            return x
    return None


@case('strs')
def list_find_else(xs):
    for x in xs:
        if x == 'b':
            r = 'found'
            break
    else:
        r = 'none'
    return r


@case('strs')
def list_any(xs):
    return any(x == 'b' for x in xs)


@case('strs')
def list_all(xs):
    return all(x == 'b' for x in xs)


@case('strs')
def list_in(xs):
    return 'b' in xs


@case('strs')
def list_next(xs):
    return next((x for x in xs if x.startswith('b')), 'none')


@case('strs')
def list_next_stop(xs):
    return next(x for x in xs if x.startswith('b'))


@case('strs')
def list_truth(xs):
    return 'some' if xs else 'none'


@case('strs')
def list_map_first(xs):
    return ['<' + x + '>' for x in xs][0]


@case('strs')
def list_map_last(xs):
    ys = []
    for x in xs:
        ys.append(x + '!')
    return ys[-1] if ys else None


@case('strs')
def list_filter_len(xs):
    return len([x for x in xs if x != 'b'])


@case('strs')
def list_filter_first(xs):
    ys = [x for x in xs if x != 'b']
    return ys[0]


@case('strs')
def list_filter_truth(xs):
    ys = []
    for x in xs:
        if x == 'b':
            continue
        ys.append(x)
    return bool(ys)


@case('strs')
def list_raise(xs):
    for x in xs:
        if x == 'b':
            raise ValueError(x)
    return len(xs)


@case('strs')
def list_reversed_first(xs):
    for x in reversed(xs):
        return x


@case('strs')
def list_enumerate(xs):
    for n, x in enumerate(xs):
        if x == 'b':
            return n
    return -1


@case('strs')
def list_zip(xs):
    return all(a == b for a, b in zip(xs, [x for x in xs]))


@case('strs')
def list_concat(xs):
    ys = xs + ['z']
    return len(ys), ys[-1]


@case('strs')
def list_prepend(xs):
    ys = ['z'] + list(xs)
    return len(ys), ys[0], ys[-1]


@case('strs')
def list_tail(xs):
    return len(xs[1:])


@case('strs')
def list_pop(xs):
    ys = list(xs)
    return ys.pop(0), len(ys)


@case('strs')
def list_pop_last(xs):
    ys = list(xs)
    return ys.pop(), len(ys)


@case('strs')
def list_attr(xs):
    e = etree.Element('root')
    for x in xs:
        etree.SubElement(e, 'item').text = x
    return len(e), e[0].text


@case('strs')
def list_children(xs):
    e = etree.Element('root')
    for x in xs:
        etree.SubElement(e, 'b' if x == 'b' else 'c')
    return e.find('b') is not None


@case('strs')
def list_star(xs):
    first, *rest = xs
    return first, len(rest)


@case('strs')
def list_set(xs):
    return 'b' in set(xs)


@case('strs')
def list_dict(xs):
    return 'b' in {x: 1 for x in xs}


@case('strs')
def list_nested(xs):
    return any(x == y + y for x in xs for y in xs)


@case('strs')
def list_last_match(xs):
    r = None
    for x in xs:
        if x.startswith('b'):
            r = x
    return r


@case('strs')
def list_flag(xs):
    seen = False
    for x in xs:
        if x == 'b':
            seen = True
    return seen


@case('strs')
def list_count_match(xs):
    return sum(1 for x in xs if x == 'b')


@case('strs')
def list_join(xs):
    return ','.join(xs) == 'a,b'


@case('strs')
def list_remove(xs):
    ys = list(xs)
    ys.remove('b')
    return len(ys)


@case('strs')
def list_index_of(xs):
    return xs.index('b')


@case('strs')
def list_dupl(xs):
    return len(set(xs)) == len(xs)


@case('strs')
def list_sorted(xs):
    return sorted(xs)[0] if xs else None


@case('strs')
def list_del(xs):
    ys = list(xs)
    del ys[0]
    return len(ys)


@case('strs')
def list_insert(xs):
    ys = list(xs)
    ys.insert(0, 'q')
    return ys[0], len(ys)


@case('strs')
def list_extend(xs):
    ys = ['a']
    ys.extend(xs)
    return len(ys), ys[0], ys[-1]


@case('ints')
def ints_sum(ns):
    return sum(ns)


@case('ints')
def ints_max(ns):
    return max(ns)


@case('ints')
def ints_min_default(ns):
    return min(ns, default=None)


@case('ints')
def ints_all(ns):
    return all(n > 0 for n in ns)


@case('ints')
def ints_total(ns):
    t = 0
    for n in ns:
        t += n
    return t


@case('ints')
def ints_sorted(ns):
    return sorted(ns)[0]


@case('ints')
def ints_first_big(ns):
    for n in ns:
        if n > 3:
            return n


class Thing:
    kind = 'k'

    def __init__(self, a, b=2, *rest, c=3, **kw):
        self.a, self.b, self.rest, self.c, self.kw = a, b, rest, c, kw

    @property
    def double(self):
        return self.a * 2

    @classmethod
    def make(cls, a):
        return cls(a, c=a)

    @staticmethod
    def twice(a):
        return a + a

    def __eq__(self, other):
        return isinstance(other, Thing) and self.a == other.a

    def __call__(self, x):
        return (self.a, x)

    def __getattr__(self, name):
        if name == 'missing':
            raise AttributeError(name)
        return name


class Sub(Thing):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.sub = True

    @property
    def double(self):
        return super().double + 1


@case('int')
def objects(n):
    t, s = Thing.make(n), Sub(n, 5, 6, z=7)
    return (t.a, t.c, t.double, Thing.twice(n), s.double, s.rest, s.kw, t == s, t(1), s.other, s.kind, hasattr(t, 'missing'),
            getattr(t, 'missing', 4), isinstance(s, Thing))


@case('int')
def exceptions(n):
    log = []
    try:
        try:
            if n > 2:
                raise KeyError(n)
            if n < 0:
                raise ValueError('neg')
            log.append('none')
        except KeyError as e:
            log.append(('key', e.args[0]))
            raise RuntimeError('again') from e
        else:
            log.append('else')
        finally:
            log.append('finally')
    except (RuntimeError, TypeError) as e:
        log.append(type(e.__cause__).__name__)
    return log


class Manager:
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        self.log.append('enter')
        return self

    def __exit__(self, t, v, tb):
        self.log.append(t and t.__name__)
        return t is ValueError


@case('int')
def managers(n):
    log = []
    with Manager(log) as m:
        if n > 2:
            raise ValueError
        log.append('in')
    return log


@case('int')
def closures(n):
    fs = [lambda k=k: k + n for k in range(3)]
    count = 0

    def up():
        nonlocal count
        count += n
        return count
    up()
    return [f() for f in fs], up(), (lambda *a, **k: (a, sorted(k)))(1, 2, x=n)


@case('int')
def unpacking(n):
    a, (b, *c), d = n, (1, 2, 3), {'x': n, **{'y': 1}}
    *e, f = [n, 2]
    return a, b, c, d, e, f, (lambda x, y: x - y)(**d), max(*[n, 4])


@case('int')
def augmented(n):
    xs = [1]
    ys = xs
    xs += [n]
    d = {}
    d.setdefault('a', []).append(n)
    d['b'] = d.pop('a')
    t = ()
    t += (n,)
    return ys, d, t, [x for x in xs if x > 0], {k: v for k, v in d.items()}


@case('int')
def loops_concrete(n):
    out = []
    for k in range(5):
        if k == 1:
            continue
        if k == n:
            break
        out.append(k)
    else:
        out.append('else')
    return out


@case('int')
def compare_chain(n):
    return 0 <= n < 5, n in (1, 2), n not in [3], not n, n is None, (n == 1) is True


@case('str')
def element(s):
    if not s.isalnum():
        return None
    e = etree.Element('{urn:a}root', nsmap={'x': 'urn:a'})
    e.text = s
    k = etree.SubElement(e, 'kid', {'at': s})
    k.set('other', 'v')
    return (e.tag, e.text, len(e), k.get('at'), k.attrib.get('none'), e.find('kid') is k, e.findtext('kid'), [c.tag for c in e],
            sorted(k.attrib.items()), k.getparent() is e, e.findall('none'), etree.QName(e).localname, etree.QName(e).namespace)


@case('str')
def element_missing(s):
    if not s.isalnum():
        return None
    e = etree.Element('root')
    e.append(etree.Element(f'k{s}') if False else etree.Element('k'))
    return e.find('none'), e[0].text, e.get('q', s), e[0].tail, list(e.attrib)


@case('str')
def dispatch_table(s):
    return {'a': lambda: 1, 'b': lambda: 2}.get(s, lambda: 3)()
