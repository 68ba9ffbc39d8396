# -*- coding: utf-8 -*-
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TRUST = 'Trusts the independent calendar and reference model under vlib/ and the frozen reference data under refdata/; sampling, not proof.'


def p(pid, title, statement, over, qtext, why, files, mech, technique, note=TRUST, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    PROPS.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a), technique, note))


L = 'lunar_python/'
SOLAR = [L + 'Solar.py', L + 'util/SolarUtil.py']

p('S01', 'Day stepping and day differences are exact over the whole civil calendar',
  'Moving a solar date by any number of days lands on the date that many days away in the civil calendar (Julian to 1582-10-04, Gregorian from 1582-10-15) '
  'and keeps the time of day; the difference of two dates and the ordinal of a date in its year count exactly those days. Leap years and the lengths of '
  'months and years agree with the same calendar, and the receiver is never changed.',
  ['inputs'], 'every day of the years 1 to 9999, every jump between two of them, every time of day',
  'the tests step a few dozen hand-picked dates; the claim is about every pair of days, the 1582 gap and every century rule', SOLAR,
  [('day stepping', L + 'Solar.py next'), ('day counting', L + 'util/SolarUtil.py getDaysBetween, getDaysInYear, getDaysOfMonth')],
  'exhaustive walk of all days plus Hypothesis jumps against an independent day count')
p('S02', 'Julian day numbers and weekdays identify every instant',
  'Turning an instant into a Julian day and back gives the same instant to the second; the Julian day is the exact elapsed time since the epoch, '
  'and any real Julian day becomes the valid instant nearest to it. The weekday follows the day number modulo seven over the whole range, through the 1582 switch.',
  ['inputs'], 'every second of the years 1 to 9999 and every real Julian day between', 'the tests convert a handful of Julian days; rounding carries only show at particular seconds and month ends',
  [L + 'Solar.py'], [('Julian day conversion', L + 'Solar.py fromJulianDay, getJulianDay, getWeek')],
  'structured sweep of every month plus Hypothesis round trips against an independent day count')
p('S03', 'Every real solar instant is accepted and read back, out-of-range ones rejected',
  'Building a solar instant from any existing civil date and time of day by any constructor keeps its six fields verbatim in the accessors and in the text forms; a datetime is read by its wall-clock fields, whatever its zone, fold or fraction of a second. '
  'A month outside 1 to 12, a day outside 1 to 31, an hour, minute or second out of its range, and the ten days dropped in October 1582 raise an error instead of yielding an object (a day up to 31 that only its own month lacks is not checked).',
  ['inputs'], 'every combination of year 1 to 9999 with valid fields, and every combination with a field out of range',
  'the tests name a few wrong dates; each field needs both of its ends for every month length', SOLAR,
  [('validation', L + 'Solar.py __init__'), ('text forms', L + 'Solar.py toYmd, toYmdHms')], 'Hypothesis valid and invalid fields, sweep of every day, against an independent validity predicate')
p('S04', 'Stepping by hours, months, quarters, half-years and years follows the calendar',
  'Stepping an instant by hours moves exactly that much time; stepping by months or years moves the month count exactly, keeps the day, and clamps a day that does not exist to the last day of the month '
  '(a date falling into the ten dropped days moves on by ten days). Month, quarter, half-year and year objects step by exact units and list exactly their own months and days in order.',
  ['inputs'], 'every instant and every signed step that stays in the years 1 to 9999', 'the tests use about thirty fixed steps; clamping and borrow depend on every combination of month length, leap year and sign',
  SOLAR + [L + f for f in ('SolarMonth.py', 'SolarSeason.py', 'SolarHalfYear.py', 'SolarYear.py')],
  [('stepping', L + 'Solar.py nextYear, nextMonth, nextHour'), ('containers', L + 'SolarMonth.py next, getDays; SolarSeason.py; SolarHalfYear.py; SolarYear.py')],
  'Hypothesis steps and sweep of every month against integer month arithmetic')
p('S05', 'Weeks partition the calendar for every first weekday',
  'For every choice of first weekday, the week of a date has seven consecutive days that contain the date and begin on that weekday, its numbers within the month and within the year count the weeks from the first one, '
  'and the weeks of a month cover the month exactly. Stepping by weeks moves by seven days, or by one calendar week of a month at a time when months are kept separate, in both directions.',
  ['inputs'], 'every date of the years 1 to 9999, every first weekday 0 to 6, every signed number of weeks', 'the tests sample about twenty weeks and two first weekdays',
  [L + 'SolarWeek.py', L + 'SolarMonth.py', L + 'util/SolarUtil.py'], [('week arithmetic', L + 'SolarWeek.py getIndex, getIndexInYear, getFirstDay, next'), ('weeks of a month', L + 'util/SolarUtil.py getWeeksOfMonth')],
  'sweep of every month with seven first weekdays plus Hypothesis steps against a day-number model of weeks')
p('S06', 'Ordering and minute differences agree with elapsed time',
  'For any two instants exactly one of before, after and equal-in-all-fields holds, consistent with the elapsed time between them, and antisymmetric. '
  'The difference in minutes equals the whole-minute difference of the two instants with its sign, across months, years and the 1582 gap.',
  ['inputs'], 'every pair of instants in the years 1 to 9999', 'the tests compare a few pairs; each of the six fields has to decide on its own', [L + 'Solar.py'],
  [('comparison', L + 'Solar.py isAfter, isBefore'), ('minute difference', L + 'Solar.py subtractMinute')], 'Hypothesis pairs, half of them a single field apart, against integer seconds')
p('S07', 'Solar festivals, constellations and full renderings of every day',
  'For every day the fixed-date and the nth-weekday festivals listed are exactly those the published tables assign to that date and weekday occurrence, and the constellation is the one whose date range contains the day. '
  'The full rendering of a day shows its date, time, leap mark, weekday, festivals and constellation consistently with the separate accessors.',
  ['inputs'], 'every day of the years 1 to 9999', 'the tests look at some twenty days; nth-weekday festivals depend on the weekday the month begins with', SOLAR,
  [('festivals', L + 'Solar.py getFestivals, getOtherFestivals'), ('constellation', L + 'Solar.py getXingZuo'), ('tables', L + 'util/SolarUtil.py')],
  'exhaustive sweep of days against independently written nth-weekday and sign rules')
p('S08', 'Holiday look-ups are exact and work-day stepping counts exactly the work days',
  'Looking up holidays by day, by month, by year or by target day returns exactly the matching records of the holiday table, in order, and nothing for a date without one, however the date is given (numbers, 2020-01-02 or 20200102). '
  'Stepping by work days skips exactly the weekends and holidays and counts the make-up work days, forwards and backwards, keeping the time of day. '
  'A record answers with what it was given, days in either form (2020-01-02 or 20200102), and a caller that changes a record changes no later look-up.',
  ['inputs'], 'every day, month, year and target; every start day with any signed number of work days', 'the tests look up some thirty days; the records are packed in one string where a wrong offset only shows for particular dates',
  [L + 'util/HolidayUtil.py', L + 'Holiday.py', L + 'Solar.py'], [('packed table search', L + 'util/HolidayUtil.py'), ('work-day stepping', L + 'Solar.py next with only_workday')],
  'sweep of every day and month plus Hypothesis steps against the frozen record list and a day-by-day counter')
p('S09', 'Holiday corrections behave like edits of one record per day, in any order',
  'After any sequence of corrections that add, replace or remove holiday records, also with changed holiday names, every look-up returns exactly what the last correction of each day says: a corrected record keeps its place in the order, an added one comes last. '
  'Days that no correction mentions keep their record. Other threads that look holidays up see a correction whole or not at all, and corrections made at the same time are all kept.',
  ['histories', 'schedules'], 'every sequence of correction calls with any mix of new, changed and removed days, every interleaving of one with a look-up or another', 'the tests apply four corrections in one fixed order',
  [L + 'util/HolidayUtil.py'], [('in-place edit of the packed table', L + 'util/HolidayUtil.py fix')], 'model-based histories of correction calls against a dictionary of records',
  state=[('holiday data', 'the packed records and the names in use', L + 'util/HolidayUtil.py')])

from props_lunar import add  # noqa: E402
add(p, L)

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf8') as fh:
        for d, t, n in PROPS:
            fh.write(json.dumps(d, ensure_ascii=False) + '\n')
    src = ''
    pd = os.path.join(ROOT, 'vlib', 'props')
    for f in sorted(os.listdir(pd)):
        if f.endswith('.py'):
            src += open(os.path.join(pd, f), encoding='utf8').read()
    checks, na = [], []
    for d, t, n in PROPS:
        i = d['id']
        if ("Prop('%s'" % i) not in src:
            na.append({'property': i, 'reason': 'the check is not built yet'})
            continue
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + t, 'level': 'exploration', 'level_note': n})
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks, 'not_applicable': na,
         'notes': 'Pure Python: each check imports lunar_python straight from /repo, so there is nothing to build. No hooks are needed. '
                  'Replay a saved failure with: python3-vt check.py ID --replay FILE. Findings: known_findings.txt.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf8') as fh:
        json.dump(m, fh, ensure_ascii=False, indent=1)
        fh.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
