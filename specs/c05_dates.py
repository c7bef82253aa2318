"""C05 Dates and times survive rendering and parsing."""
import re
from datetime import date, datetime, time, timedelta, timezone, tzinfo

from soapfish import xsd
from soapfish.xsd_types import XSDDate
from vc.contract import contract

from .lib import attempt

TARGETS = ['soapfish.xsd.Date.accept', 'soapfish.xsd.Date.xmlvalue', 'soapfish.xsd.Date.pythonvalue',
           'soapfish.xsd.Date._parse_tz', 'soapfish.xsd.DateTime.xmlvalue', 'soapfish.xsd.DateTime.pythonvalue',
           'soapfish.xsd.Time.xmlvalue', 'soapfish.xsd.Time._parse', 'soapfish.utils.timezone_offset_to_string',
           'soapfish.xsd_types.XSDDate.__init__']
DAY = 24 * 60


def offset_text(off):
    """sign, two-digit hours, colon, two-digit minutes"""
    a = abs(off)
    return '{}{:02d}:{:02d}'.format('+' if off >= 0 else '-', a // 60, a % 60)


def zone(g):
    off = g.int('offset in minutes', -DAY + 1, DAY - 1)
    return off, timezone(timedelta(minutes=off))


def some_date(g):
    y, m, d = g.int('year', 1, 9999), g.int('month', 1, 12), g.int('day', 1, 31)
    ok, v = attempt(date, y, m, d)
    g.assume(ok)
    return y, m, d, v


def same_offset(g, tz, off):
    g.check('the offset comes back', tz is not None)
    g.check('as it was', tz.utcoffset(None) == timedelta(minutes=off))


def check_date(g, back, y, m, d):
    g.check('year comes back', back.year == y)
    g.check('month comes back', back.month == m)
    g.check('day comes back', back.day == d)


@contract('C05', TARGETS, runs=500)
def dates(g):
    y, m, d, v = some_date(g)
    t = xsd.Date()
    text = t.xmlvalue(t.accept(v))
    g.check('rendered in the lexical form', text == '{:04d}-{:02d}-{:02d}'.format(y, m, d))
    back = t.pythonvalue(text)
    check_date(g, back, y, m, d)
    g.check('no offset comes back', back.tzinfo is None)


@contract('C05', TARGETS, runs=500)
def dates_with_offset(g):
    y, m, d, v = some_date(g)
    off, tz = zone(g)
    t = xsd.Date()
    text = t.xmlvalue(t.accept(XSDDate(y, m, d, tzinfo=tz)))
    g.check('rendered in the lexical form', text == '{:04d}-{:02d}-{:02d}'.format(y, m, d) + offset_text(off))
    back = t.pythonvalue(text)
    check_date(g, back, y, m, d)
    same_offset(g, back.tzinfo, off)


class Day:
    """Anything that has the fields of a date, and perhaps an offset."""


@contract('C05', TARGETS, runs=500)
def dates_of_others(g):
    """Dates of other kinds are the same dates; what has a time is no date."""
    y, m, d, _ = some_date(g)
    off, tz = zone(g)
    v = Day()
    lost = g.pick('without', [None, None, 'year', 'month', 'day'])
    if lost != 'year':
        v.year = y
    if lost != 'month':
        v.month = m
    if lost != 'day':
        v.day = d
    with_offset = g.bool('with an offset')
    if with_offset:
        v.tzinfo = tz
    more = g.pick('more', [None, None, 'hour', 'minute', 'second', 'microsecond'])
    if more is not None:
        setattr(v, more, 0)
    t = xsd.Date()
    ok, r = attempt(t.accept, v)
    g.check('taken if it is a date', ok == (more is None and lost is None))
    if ok:
        check_date(g, r, y, m, d)
        text = '{:04d}-{:02d}-{:02d}'.format(y, m, d)
        g.check('rendered in the lexical form', t.xmlvalue(r) == (text + offset_text(off) if with_offset else text))


@contract('C05', TARGETS, runs=500)
def times(g):
    h, mi, s = g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59)
    off, tz = zone(g)
    t = xsd.Time()
    v = t.accept(time(h, mi, s, tzinfo=tz))
    text = t.xmlvalue(v)
    g.check('rendered in the lexical form', text == '{:02d}:{:02d}:{:02d}'.format(h, mi, s) + offset_text(off))
    back = t.pythonvalue(text)
    g.check('a time comes back', isinstance(back, time))
    g.check('hour comes back', back.hour == h)
    g.check('minute comes back', back.minute == mi)
    g.check('second comes back', back.second == s)
    same_offset(g, back.tzinfo, off)


@contract('C05', TARGETS, runs=500, seconds=150)
def date_times(g):
    y, m, d, _ = some_date(g)
    h, mi, s = g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59)
    off, tz = zone(g)
    t = xsd.DateTime()
    text = t.xmlvalue(t.accept(datetime(y, m, d, h, mi, s, tzinfo=tz)))
    g.check('rendered in the lexical form', text == '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(y, m, d, h, mi, s)
            + offset_text(off))
    back = t.pythonvalue(text)
    g.check('a date-time comes back', isinstance(back, datetime))
    check_date(g, back, y, m, d)
    g.check('hour comes back', back.hour == h)
    g.check('minute comes back', back.minute == mi)
    g.check('second comes back', back.second == s)
    same_offset(g, back.tzinfo, off)


class Zone(tzinfo):
    """A zone whose offset depends on the moment."""

    winter = summer = None

    def of(self, month):
        return self.summer if 4 <= month <= 9 else self.winter

    def utcoffset(self, dt):
        return None if dt is None else timedelta(minutes=self.of(dt.month))

    def dst(self, dt):
        return None if dt is None else timedelta(minutes=self.of(dt.month) - self.winter)

    def tzname(self, dt):
        return 'Z'


@contract('C05', TARGETS, runs=500)
def changing_offsets(g):
    """A date-time is written with the offset its zone has at that very moment."""
    y, m, d, _ = some_date(g)
    h, mi, s = g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59)
    z = Zone()
    z.winter, z.summer = g.int('winter', -DAY + 1, DAY - 1), g.int('summer', -DAY + 1, DAY - 1)
    t = xsd.DateTime()
    text = t.xmlvalue(t.accept(datetime(y, m, d, h, mi, s, tzinfo=z)))
    g.check('rendered in the lexical form', text == '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(y, m, d, h, mi, s)
            + offset_text(z.of(m)))
    same_offset(g, t.pythonvalue(text).tzinfo, z.of(m))


@contract('C05', TARGETS, runs=500)
def without_offset(g):
    """Values without offset are rendered without one, and times come back without one."""
    y, m, d, _ = some_date(g)
    h, mi, s = g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59)
    text = xsd.Time().xmlvalue(time(h, mi, s))
    g.check('time', text == '{:02d}:{:02d}:{:02d}'.format(h, mi, s))
    back = xsd.Time().pythonvalue(text)
    g.check('a time comes back', back.hour == h and back.minute == mi and back.second == s)
    g.check('without an offset', back.tzinfo is None)
    g.check('date-time', xsd.DateTime().xmlvalue(datetime(y, m, d, h, mi, s))
            == '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(y, m, d, h, mi, s))


@contract('C05', TARGETS, runs=500)
def accepted_text(g):
    """Text assigned to a date-time or time field is read like parsed text."""
    y, m, d, _ = some_date(g)
    h, mi, s = g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59)
    off, tz = zone(g)
    tt = '{:02d}:{:02d}:{:02d}'.format(h, mi, s) + offset_text(off)
    back = xsd.Time().accept(tt)
    g.check('hour of a time', back.hour == h)
    g.check('minute of a time', back.minute == mi)
    g.check('second of a time', back.second == s)
    same_offset(g, back.tzinfo, off)
    back = xsd.DateTime().accept('{:04d}-{:02d}-{:02d}T'.format(y, m, d) + tt)
    check_date(g, back, y, m, d)
    g.check('hour of a date-time', back.hour == h)
    same_offset(g, back.tzinfo, off)


@contract('C05', TARGETS, runs=2000, seconds=200)
def date_texts(g):
    """Four-digit years, two-digit fields and every form of offset: read exactly when a real date with a real offset."""
    y, m, d = g.int('year', 0, 9999), g.int('month', 0, 99), g.int('day', 0, 99)
    text = '{:04d}-{:02d}-{:02d}'.format(y, m, d)
    form = g.choice('form of offset', 5)
    real, off = True, None
    if form == 1:
        text, off = text + 'Z', 0
    elif form >= 2:
        h, mi = g.int('offset hours', 0, 99), g.int('offset minutes', 0, 99)
        sign = g.pick('sign', ['+', '-'])
        if form == 2:
            text += sign + '{:02d}:{:02d}'.format(h, mi)
        elif form == 3:
            text += sign + '{:02d}{:02d}'.format(h, mi)
        else:
            mi = 0
            text += sign + '{:02d}'.format(h)
        real = h <= 23 and mi <= 59
        off = (h * 60 + mi) * (1 if sign == '+' else -1)
    ok, r = attempt(xsd.Date().pythonvalue, text)
    g.check('read exactly when real', ok == (attempt(date, y, m, d)[0] and real))
    if ok:
        check_date(g, r, y, m, d)
        if off is None:
            g.check('no offset', r.tzinfo is None)
        else:
            same_offset(g, r.tzinfo, off)
    else:
        g.check('refused with a value error', isinstance(r, ValueError))


FORM = re.compile(r'(\d{4,})-(\d\d)-(\d\d)(Z|([-+])(\d\d):?(\d\d)?)?', re.ASCII)


@contract('C05', TARGETS, proof=False, runs=3000)
def mangled_date_texts(g):
    """Arbitrary mutations of a date text."""
    y, m, d = g.int('year', 0, 12000), g.int('month', 0, 13), g.int('day', 0, 32)
    text = '{:04d}-{:02d}-{:02d}'.format(y, m, d) + g.pick('offset', ['', 'Z', '+02:00', '-0330', '+14', '+24:00', 'z'])
    for k in range(g.choice('mutations', 3)):
        pos = g.int(f'position {k}', 0, 20)
        ch = g.pick(f'character {k}', ['', '0', '9', '-', ':', 'Z', ' ', '\n', 'T', 'x', '+'])
        text = text[:pos] + ch + text[pos + g.choice(f'removed {k}', 2):]
    match = FORM.fullmatch(text)
    real = False
    if match:
        real = attempt(date, int(match[1]), int(match[2]), int(match[3]))[0] \
            and (not match[5] or int(match[6]) < 24 and int(match[7] or 0) < 60)
    ok, r = attempt(xsd.Date().pythonvalue, text)
    g.check('read exactly when a real date', ok == real)
    if ok:
        check_date(g, r, int(match[1]), int(match[2]), int(match[3]))
    else:
        g.check('refused with a value error', isinstance(r, ValueError))
