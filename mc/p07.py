"""P07: search of time stamps in files."""
import datetime
import itertools
import os
import shutil
import tempfile
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet

RULE = ('all ways to cut record series in files x orders of file names x time units x zones x initial dates x query times on, between, close to '
        'and outside of records, forwards and backwards; all sets of days for daily files; each answer is compared with a search in the '
        'flat list of true record times')
ASSUMPTIONS = ['files of one series do not overlap in time', 'records at least 1 ms apart']

UTC = datetime.timezone.utc
# units, seconds per unit, reference date
UNITS = [('seconds since 1970-01-01 00:00:00', 1., datetime.datetime(1970, 1, 1, tzinfo=UTC)),
         ('hours since 2016-02-28 12:00:00', 3600., datetime.datetime(2016, 2, 28, 12, tzinfo=UTC)),
         ('days since 2000-01-01 00:00:00 -08:00', 86400., datetime.datetime(2000, 1, 1, 8, tzinfo=UTC)),
         ('seconds since 2010-12-31 23:59:58 +05:30', 1., datetime.datetime(2010, 12, 31, 18, 29, 58, tzinfo=UTC)),
         ('minutes since 1999-12-31', 60., datetime.datetime(1999, 12, 31, tzinfo=UTC))]
SERIES = [[0., 1., 2., 3., 4.], [0., 1., 3., 4., 9.], [2.5], [0., 0.25, 0.5]]


def groups(tier):
    g = [{'kind': 'search', 'unit': u, 'series': s} for u in range(len(UNITS)) for s in range(len(SERIES))]
    g += [{'kind': 'parser'}, {'kind': 'daily', 'pat': 0}, {'kind': 'daily', 'pat': 1}, {'kind': 'daily', 'pat': 2}, {'kind': 'zones'}, {'kind': 'refuse'}]
    return g


def run_group(group, rec):
    import thetis as th  # noqa
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec)


def write(fn, times, ids, unit, calendar='standard', tname='time', attrs=True):
    import netCDF4
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension(tname, None)
        v = d.createVariable(tname, 'f8', (tname,))
        if attrs:
            v.units = unit
            v.calendar = calendar
        x = d.createVariable('data', 'f8', (tname,))
        v[:] = times
        x[:] = ids


def compositions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        parts, cur = [], [0]
        for i, c in enumerate(cuts):
            if c:
                parts.append(cur)
                cur = []
            cur.append(i + 1)
        parts.append(cur)
        yield parts


def orders(n, full):
    if full or n <= 3:
        return list(itertools.permutations(range(n)))
    return [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)]


def g_search(group, rec):
    unit, scale, ref = UNITS[group['unit']]
    series = SERIES[group['series']]
    zones = [UTC, datetime.timezone(datetime.timedelta(hours=-8)), datetime.timezone(datetime.timedelta(hours=5, minutes=45))]
    # the order in which the file system lists the files is arbitrary
    for parts in compositions(len(series)):
        for order, sub in itertools.product(orders(len(parts), rec.tier == 'thorough'), (False, True)):
            d = tempfile.mkdtemp(dir='.')
            names = {}
            for j, p in enumerate(parts):
                fn = os.path.join(d, 'p%d' % order[j], 'f.nc') if sub else os.path.join(d, 'f_%d.nc' % order[j])
                os.makedirs(os.path.dirname(fn), exist_ok=True)
                write(fn, [series[i] for i in p], p, unit)
                for k, i in enumerate(p):
                    names[i] = (fn, k)
            for tz, off in itertools.product(zones, [0., -30.5, 1.5*scale, 7200.]):
                if rec.tier == 'quick' and tz is zones[2] and off == 7200.:
                    continue
                init = (ref + datetime.timedelta(seconds=off)).astimezone(tz)
                rec.check(dict(series=series, unit=unit, parts=parts, order=order, subdirs=sub, init=init.isoformat()),
                          one_search, os.path.join(d, '*', 'f.nc') if sub else os.path.join(d, '*.nc'), series, scale, off, names, init, rec)
            shutil.rmtree(d)
            if rec.stop:
                return


def one_search(files, series, scale, off, names, init, rec):
    from thetis.interpolation import NetCDFTimeSearch, NetCDFTimeParser
    s = NetCDFTimeSearch(files, init, NetCDFTimeParser, allow_gaps=True)
    true = [x*scale - off for x in series]
    q = []
    for i, t in enumerate(true):
        q += [t, t + 0.01, t - 0.01]
        if i:
            q.append(0.5*(t + true[i-1]))
    q += [true[0] - 1e5, true[-1] + 1e5, true[-1] + 1e9 - 0.5]
    for t in q:
        for prev in (True, False):
            if prev:
                cand = [i for i, x in enumerate(true) if x <= t + 1e-7]
                want = cand[-1] if cand else None
            else:
                cand = [i for i, x in enumerate(true) if x > t + 1e-7]
                want = cand[0] if cand else None
            try:
                got = s.find(t, previous=prev)
            except Exception:
                got = None
            if want is None:
                if not prev and got is not None and abs(t - true[-1]) < 1e-7 and (str(got[0]), int(got[1])) == names[len(true) - 1]:
                    continue   # exactly on the last record: the record itself is a valid answer
                require(got is None, 'query {} (previous={}) beyond the data gives {}', t, prev, got)
            else:
                require(got is not None, 'query {} (previous={}) inside the data fails', t, prev)
                require_equal((os.path.normpath(str(got[0])), int(got[1])), (os.path.normpath(names[want][0]), names[want][1]),
                              'record for query %r, previous=%s' % (t, prev))
                require_close([float(got[2])], [true[want]], 'time of the record found for %r' % t, rtol=0, atol=2e-5)
            rec.step()
    dt = s.simulation_time_to_datetime(true[0])
    require(abs((dt - init).total_seconds() - true[0]) < 1e-5, 'date of the first record {}', dt)
    require(dt.utcoffset() == init.utcoffset(), 'zone of {}', dt)
    rec.state(str(sorted(names.items())), series, init.isoformat())


def g_parser(group, rec):
    for (unit, scale, ref), series, cal in itertools.product(UNITS, SERIES, ['standard', 'gregorian', 'proleptic_gregorian']):
        for tname in ('time', 'ocean_time'):
            rec.check(dict(unit=unit, series=series, calendar=cal, name=tname), one_parser, unit, scale, ref, series, cal, tname, rec)


def one_parser(unit, scale, ref, series, cal, tname, rec):
    from thetis.interpolation import NetCDFTimeParser
    d = tempfile.mkdtemp(dir='.')
    try:
        fn = os.path.join(d, 'x.nc')
        write(fn, series, range(len(series)), unit, cal, tname)
        p = NetCDFTimeParser(fn, time_variable_name=tname, allow_gaps=True)
        dates = [ref + datetime.timedelta(seconds=scale*x) for x in series]
        require(abs((p.get_start_time() - dates[0]).total_seconds()) < 1e-5, 'start {}', p.get_start_time())
        require(abs((p.get_end_time() - dates[-1]).total_seconds()) < 1e-5, 'end {}', p.get_end_time())
        e0 = datetime.datetime(1970, 1, 1, tzinfo=UTC)
        for k in range(-1, 2*len(series) + 1):
            i = k // 2
            base = dates[min(max(i, 0), len(series) - 1)]
            t = base + datetime.timedelta(seconds=0.0 if k % 2 == 0 and 0 <= i < len(series) else (-0.05 if i < 0 else 0.05))
            for as_date in (True, False):
                for prev in (True, False):
                    idx = [j for j, x in enumerate(dates) if (x <= t if prev else x > t)]
                    want = None if not idx else (idx[-1] if prev else idx[0])
                    try:
                        got = p.find_time_stamp(t if as_date else (t - e0).total_seconds(), previous=prev)
                    except IndexError:
                        got = None
                    if want is None and not prev and got == len(series) - 1 and t == dates[-1]:
                        continue
                    require_equal(None if got is None else int(got), want, 'index for %s, previous=%s' % (t, prev))
                    rec.step()
        rec.state('parser', unit, series, cal, tname)
    finally:
        shutil.rmtree(d)


PATS = ['d/{year:04d}/s_{year:04d}{month:02d}{day:02d}00.nc', 'd/f_{year:04d}-{month:02d}-{day:02d}.nc', 'd/{day:02d}_{month:02d}_{year:04d}_x.nc']
DAYS = [datetime.date(2016, 2, 28), datetime.date(2016, 2, 29), datetime.date(2016, 3, 1), datetime.date(2016, 12, 31), datetime.date(2017, 1, 1)]


def g_daily(group, rec):
    pat = PATS[group['pat']]
    mm = datetime.timezone(datetime.timedelta(hours=-9))
    for sel in itertools.product([0, 1], repeat=len(DAYS)):
        days = [x for x, s in zip(DAYS, sel) if s]
        if not days:
            continue
        for hour, tz in itertools.product([0, 12, 23], [None, mm, 'LA']):
            for init in (datetime.datetime(2016, 2, 28, 18, tzinfo=UTC), datetime.datetime(2016, 12, 31, 23, 30, tzinfo=mm)):
                rec.check(dict(pattern=pat, days=[str(x) for x in days], hour=hour, zone=str(tz), init=init.isoformat()), one_daily, pat, days, hour, tz, init, rec)


def one_daily(pat, days, hour, tz, init, rec):
    from thetis.interpolation import DailyFileTimeSearch
    import pytz
    d = tempfile.mkdtemp(dir='.')
    try:
        full = os.path.join(d, pat)
        files = []
        for x in days:
            fn = full.format(year=x.year, month=x.month, day=x.day)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            open(fn, 'w').close()
            files.append(fn)
        kw = {}
        if tz == 'LA':
            kw['center_timezone'] = pytz.timezone('America/Los_Angeles')
            off = datetime.timezone(datetime.timedelta(hours=-8))   # all days are in winter
        elif tz is not None:
            kw['center_timezone'] = off = tz
        else:
            off = UTC
        s = DailyFileTimeSearch(full, init, center_hour=hour, **kw)
        true = [(datetime.datetime(x.year, x.month, x.day, hour, tzinfo=off) - init).total_seconds() for x in days]
        q = [true[0] - 10, true[-1] + 10] + [t + e for t in true for e in (0., 1., -1.)]
        for t in q:
            for prev in (True, False):
                idx = [j for j, x in enumerate(true) if (x <= t if prev else x > t)]
                want = None if not idx else (idx[-1] if prev else idx[0])
                try:
                    got = s.find(t, previous=prev)
                except (AssertionError, IndexError, Exception):
                    got = None
                if want is None:
                    if not prev and got is not None and t == true[-1] and str(got[0]) == files[-1]:
                        continue
                    require(got is None, 'query {} (previous={}) beyond the data gives {}', t, prev, got)
                    continue
                require(got is not None, 'query {} (previous={}) inside the data fails', t, prev)
                require_equal((os.path.normpath(str(got[0])), int(got[1])), (os.path.normpath(files[want]), 0), 'file for query %r, previous=%s' % (t, prev))
                require_close([got[2]], [true[want]], 'time of the record found', rtol=0, atol=1e-5)
                rec.step()
        rec.state('daily', pat, [str(x) for x in days], hour, str(tz), init.isoformat())
    finally:
        shutil.rmtree(d)


def g_zones(group, rec):
    for off in (0, -8, 5, 5.5, -3.5, 12, -11):
        for name in ('PST', 'X'):
            rec.check(dict(offset=off, name=name), one_zone, off, name, rec)


def one_zone(off, name, rec):
    from thetis.timezone import FixedTimeZone, datetime_to_epoch, epoch_to_datetime
    z = FixedTimeZone(off, name)
    ref = datetime.timezone(datetime.timedelta(hours=off))
    for y in (1969, 1970, 2000, 2016, 2036):
        for mo, da, h, mi, s, us in ((1, 1, 0, 0, 0, 0), (2, 28, 23, 59, 59, 500000), (7, 15, 12, 30, 1, 250000), (12, 31, 23, 59, 59, 0)):
            d = z.localize(datetime.datetime(y, mo, da, h, mi, s, us))
            w = datetime.datetime(y, mo, da, h, mi, s, us, tzinfo=ref)
            require(d == w, 'local time {} is not {}', d, w)
            require_equal(d.utcoffset(), w.utcoffset(), 'offset')
            require_equal(d.tzname(), name, 'name of the zone')
            e = datetime_to_epoch(d)
            require_close([e], [(w - datetime.datetime(1970, 1, 1, tzinfo=UTC)).total_seconds()], 'epoch', rtol=0, atol=1e-6)
            require(epoch_to_datetime(e) == w, 'date from epoch {}', epoch_to_datetime(e))
            rec.step()
            rec.state('zone', off, str(w))


def g_refuse(group, rec):
    rec.check('no files', no_files, rec)
    rec.check('no units', no_units, rec)
    for allow in (True, False):
        for series in SERIES:
            rec.check(dict(varying=series, allow_gaps=allow), varying, series, allow)


def no_files(rec):
    from thetis.interpolation import NetCDFTimeSearch, NetCDFTimeParser, DailyFileTimeSearch
    init = datetime.datetime(2016, 1, 1, tzinfo=UTC)
    for f in (lambda: NetCDFTimeSearch('nothing_*.nc', init, NetCDFTimeParser), lambda: DailyFileTimeSearch('no_{year:04d}{month:02d}{day:02d}.nc', init)):
        try:
            f()
        except Exception:
            continue
        raise Violation('missing files accepted')


def no_units(rec):
    from thetis.interpolation import NetCDFTimeParser
    write('nu.nc', [1., 2.], [0, 1], '', attrs=False)
    try:
        NetCDFTimeParser('nu.nc')
    except Exception:
        return
    raise Violation('time variable without units accepted')


def varying(series, allow):
    """allow_gaps: "if False, an error is raised if time step is not constant"."""
    from thetis.interpolation import NetCDFTimeParser
    write('v.nc', series, range(len(series)), UNITS[0][0])
    const = len(set(np.round(np.diff(series), 9))) <= 1
    try:
        NetCDFTimeParser('v.nc', allow_gaps=allow)
    except Exception:
        require(not const and not allow, 'series {} refused', series)
        return
    require(const or allow, 'varying time step accepted although gaps are not allowed', key='P07-allow-gaps')
