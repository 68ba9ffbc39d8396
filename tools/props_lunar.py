# -*- coding: utf-8 -*-
"""The properties of the lunar calendar and the almanac (L01 to L29)."""


def add(p, L):
    LUNAR = [L + 'Lunar.py']
    YEAR = [L + 'LunarYear.py', L + 'LunarMonth.py']
    U = L + 'util/LunarUtil.py'
    TERM = [L + 'LunarYear.py', L + 'util/ShouXingUtil.py']
    span = 'every instant of the years 1 to 9999'

    p('L01', 'Solar and lunar dates correspond one to one',
      'Every solar instant has exactly one lunar date, every existing lunar date exactly one solar instant, and converting one way and back by any constructor gives the same date and time of day. '
      'The lunar day is one more than the number of days since the first of its month, and stepping a lunar date by days lands on the lunar date of the day that many days away. The Chinese text of a lunar date names its year, month and day.',
      ['inputs'], 'every instant of the years 1 to 9999, every lunar day of the lunar years 0 to 9999, every signed number of days',
      'the tests convert about a hundred dates; the pairing must hold for three and a half million days, in every leap month and at every year end', LUNAR + YEAR,
      [('solar to lunar', L + 'Lunar.py fromSolar'), ('lunar to solar', L + 'Lunar.py fromYmdHms'), ('day stepping', L + 'Lunar.py next')],
      'year sweep and Hypothesis instants against a frozen month table, in both directions')
    p('L02', 'Every lunar year consists of the right months',
      'Each lunar year has the right twelve or thirteen months in order (and the historical exceptions of the calendar reforms), each with the right length, first day and leap mark, and its day count is their sum. '
      'Looking a month up returns it if the year has it and nothing otherwise, a leap month directly follows the month it repeats, and the months of a year together cover the solar year.',
      ['inputs'], 'every lunar year from 0 to 9999 and every month number, ordinary or leap', 'the tests name the leap month of some dozen years; a wrong new moon or leap rule shows only in particular years', YEAR + [L + 'util/ShouXingUtil.py'],
      [('months of a year', L + 'LunarYear.py __compute'), ('leap table', L + 'LunarYear.py __LEAP_11, __LEAP_12, __YMC'), ('new moons', L + 'util/ShouXingUtil.py calcShuo')],
      'exhaustive sweep of all ten thousand lunar years against a frozen month table plus structural rules')
    p('L03', 'Lunar months and years step through one seamless sequence',
      'Stepping a lunar month by any signed number lands on the month that many places away in the sequence of all months, leap months included: steps add up, one step forward and back returns, and nothing is skipped at year ends. '
      'Stepping a lunar year moves its number by exactly that much. The receiver is never changed and the text of a month names its year, number and length.',
      ['inputs'], 'every month of the lunar years 0 to 9999 with every signed number of steps', 'the tests step from about twenty months; which months a step crosses depends on every leap year on the way', YEAR,
      [('month stepping', L + 'LunarMonth.py next'), ('year stepping', L + 'LunarYear.py next')], 'year sweep and Hypothesis split steps against positions in the frozen month sequence')
    p('L04', 'Lunar dates that do not exist are rejected, existing ones accepted',
      'Building a lunar date, a double hour, a Buddhist or a Taoist date from a year, month and day that exist in the lunar calendar and a time of day keeps these numbers; a month the year does not have, a leap month in a year without it, a day outside the month, or an hour, minute or second out of its range raises an error.',
      ['inputs'], 'every lunar year 1 to 9999 with any month and day number and any time of day', 'the tests try a few wrong dates; the length of every month and the leap month of every year decide', LUNAR + [L + 'LunarTime.py'] + YEAR,
      [('validation', L + 'Lunar.py fromYmdHms; LunarTime.py __init__')], 'Hypothesis fields, existing and not, against the frozen month table')
    p('L05', 'The solar terms of every year are complete, in order and at the right instants',
      'The term table of every year names all 31 terms it covers, from the one before the winter solstice of the year before on, in order and fourteen to seventeen days apart, each at the right instant (within seconds). '
      'At that instant the sun stands at the longitude that defines the term, and every date of a year sees the same table.',
      ['inputs'], 'every term of the years 1 to 9999, seen from every date of its year', 'the tests look up some fifty terms; each of the 240 000 instants comes from a series and a correction table', TERM + LUNAR,
      [('term computation', L + 'LunarYear.py __compute; util/ShouXingUtil.py qiAccurate2'), ('term table', L + 'Lunar.py __initJieQi, getJieQiTable')],
      'exhaustive sweep of all years against frozen instants, plus an independent solar theory')
    p('L06', 'The neighbouring and current solar terms of every instant are the right ones',
      'For every instant the previous and next solar term, previous and next jie and previous and next qi are the nearest ones of their kind, by instant or by whole day as asked; the current term is reported on exactly the days of a term. '
      'Every reported term carries its name, its instant, and whether it is a jie or a qi.',
      ['inputs'], span + ', compared by instant and by day', 'the tests ask at some thirty instants; the answer flips within one second of each term and at both ends of each year', LUNAR + [L + 'JieQi.py'],
      [('nearest term search', L + 'Lunar.py getNearJieQi, getPrev*, getNext*'), ('current term', L + 'Lunar.py getJieQi, getCurrentJieQi'), ('term object', L + 'JieQi.py')],
      'sweep of the seconds around terms plus Hypothesis instants against a linear list of terms')
    p('L07', 'Year pillars turn at new year, and on the day and at the instant of 立春',
      'The year pillar turns at the lunar new year, its second form at the beginning of the day of 立春, its exact form at the instant of 立春, each advancing by one in the cycle of sixty. '
      'Stem, branch, their numbers, animal and sound of the year, in each form, and the pillar of a lunar year agree with it.',
      ['inputs'], span, 'the tests check some thirty dates, mostly of our century; the order of new year and 立春 differs from year to year', LUNAR + [L + 'LunarYear.py', L + 'EightChar.py'],
      [('year pillars', L + 'Lunar.py __computeYear')], 'sweep of the turns of each year plus Hypothesis instants against an arithmetic model')
    p('L08', 'Month pillars follow the solar terms and the five-tigers rule',
      'The month pillar advances by one in the cycle of sixty at each jie: in the plain form at the beginning of its day, in the exact form at its instant. Stem, branch, numbers, animal and sound of the month agree with it, and so do the eight characters.',
      ['inputs'], span, 'the tests check a few dozen instants; each of the twelve turns of each year needs both of its sides', LUNAR + [L + 'EightChar.py'], [('month pillars', L + 'Lunar.py __computeMonth')],
      'sweep of the seconds around each jie plus Hypothesis instants against an arithmetic model')
    p('L09', 'Day and hour pillars advance without a gap, the day turning by school',
      'The day pillar advances by one in the cycle of sixty every day of the calendar, the 1582 switch included; the exact day pillar of the first school turns at 23:00, that of the second at midnight. '
      'The hour pillar changes every two hours from 23:00 on and its stem follows from the day that begins at 23:00. Stems, branches, numbers, animals and sounds agree, and the eight characters use the day pillar of their school.',
      ['inputs'], span + ', both schools', 'the tests check some twenty instants; the late hour, every day stem and every double hour combine', LUNAR + [L + 'EightChar.py', U],
      [('day pillars', L + 'Lunar.py __computeDay'), ('hour pillar', L + 'Lunar.py __computeTime; util/LunarUtil.py getTimeZhiIndex'), ('schools', L + 'EightChar.py setSect, getDay')],
      'day, hour and minute sweeps plus Hypothesis instants against day-number arithmetic')
    p('L10', 'Every attribute of the eight characters follows from the four pillars',
      'Hidden stems, elements, sounds, ten gods of stems and branches, life stages, decads and voids of each of the four pillars are those that the traditional rules derive from the pillars and the day stem, in both schools. '
      'The lists for all four pillars at once agree with the single answers.',
      ['inputs'], span + ', both schools; every day stem with every branch', 'the tests look at about thirty births; ten day stems with sixty pillars give hundreds of combinations per attribute', [L + 'EightChar.py', L + 'Lunar.py', U],
      [('derivation', L + 'EightChar.py'), ('list forms', L + 'Lunar.py getBaZi*')], 'runs of sixty days and Hypothesis instants against rules for the ten gods, stages and hidden stems')
    p('L11', 'Conception pillars and the palaces of life and body follow from the pillars',
      'The pillars of conception (胎元, 胎息) and of the palaces of life and body (命宫, 身宫) follow from the month, day, hour and year pillars by the traditional rules in both schools, and their sounds are those of the pillars.',
      ['inputs'], span + ', both schools', 'the tests check some twenty births; the palaces count over month and hour and wrap around', [L + 'EightChar.py', U], [('palaces', L + 'EightChar.py getTaiYuan, getTaiXi, getMingGong, getShenGong')],
      'sweep of instants of each year plus Hypothesis instants against arithmetic rules')
    p('L12', 'Searching by eight characters returns matches only and finds every birth',
      'Searching by four pillars returns, in order and without repeats, only instants from the base year on whose eight characters in the chosen school are exactly these pillars. '
      'Every birth up to the present year, the year the clock shows at the time of the search included, is found by the double hour it lies in, if its pillar month began in or after the base year and no jie follows it within that double hour.',
      ['inputs'], 'every birth from the year 2 to the present year with any base year before it, and every combination of four pillars', 'the tests search about twenty sets of pillars; each century and base year goes through different cycles', [L + 'Solar.py'],
      [('search', L + 'Solar.py fromBaZi')], 'Hypothesis births and pillar sets; each result is checked by an independent computation of the pillars (soundness) and each birth is looked for (completeness)')
    p('L13', 'The start of the decades is counted from birth to the right jie',
      'The decades run forward for men born in a yang year and women born in a yin year and backward otherwise; the time from birth to the next or from the previous jie, turned into years, months, days and hours as each school does (three days a year), gives their start. '
      'The start instant is the birth moved on by exactly these.',
      ['inputs'], span.replace('9999', '9980') + ', both sexes and both schools', 'the tests check some fifteen births; borrowing of days, hours from 23:00 on and rounding differ for each birth', [L + 'eightchar/Yun.py', L + 'EightChar.py'],
      [('start of the decades', L + 'eightchar/Yun.py __computeStart, getStartSolar')], 'sweep of instants around each jie plus Hypothesis births against integer time arithmetic')
    p('L14', 'Decades, years, months and minor cycles of a life follow the pillars in order',
      'The decades, years, minor years and months of a life follow one another without gap in years and ages from the birth on, the decades ten years each after the first. '
      'Their pillars advance from the month pillar (decades), with the year (years), from the hour pillar (minor years) and by the five-tigers rule (months), in the direction of the life, with the decad and void of each.',
      ['inputs'], span.replace('9999', '9980') + ', both sexes and schools, any number of decades and years asked for', 'the tests look at single decades of about ten births', [L + 'eightchar/' + f for f in ('Yun.py', 'DaYun.py', 'LiuNian.py', 'XiaoYun.py', 'LiuYue.py')],
      [('decades', L + 'eightchar/DaYun.py'), ('years', L + 'eightchar/LiuNian.py'), ('minor years', L + 'eightchar/XiaoYun.py'), ('months', L + 'eightchar/LiuYue.py')], 'Hypothesis lives, each recomputed in full from the pillars')
    p('L15', 'Decads and void branches of every pillar are those of the sexagenary cycle',
      'The decad (旬) of a pillar is named after the last pillar with the stem 甲 at or before it, and its void branches (旬空) are the two that decad leaves out; every pillar of every instant, in every form, answers with its own. '
      'Looking up the place of a pillar finds each of the sixty and nothing else.',
      ['inputs'], 'all sixty pillars; ' + span + ' in every form of its pillars', 'the tests check about ten pillars; nine forms of pillars each have their own accessor', [U, L + 'Lunar.py', L + 'LunarTime.py', L + 'EightChar.py'],
      [('decads', L + 'util/LunarUtil.py getXun, getXunKong, getXunIndex'), ('accessors', L + 'Lunar.py get*Xun*')], 'exhaustive cycle of sixty plus sweep of instants against cycle arithmetic')
    p('L16', 'Nine stars of year, month, day and hour fly in order',
      'The star of the year goes back by one each year and that of the month by one each month, in every school; the star of the day goes forward from the 甲子 day nearest the winter solstice and back from the one nearest the summer solstice, '
      'without a jump in between, and the star of the hour flies by the group of the day branch and the half of the year. Every attribute of a star is that of its number.',
      ['inputs'], span + ', every school; the stars of every lunar year and month', 'the tests check some fifteen dates; the turns move through the year over sixty-day cycles', LUNAR + [L + 'NineStar.py', L + 'LunarYear.py', L + 'LunarMonth.py', L + 'LunarTime.py'],
      [('stars', L + 'Lunar.py get*NineStar'), ('star object', L + 'NineStar.py')], 'sweep of turning days and terms plus Hypothesis instants against arithmetic of the nine-cycle')
    p('L17', 'Directions of the spirits of year, month, day and hour follow their pillars',
      'The directions of joy, noble, fortune and wealth spirits of day and hour follow from the stem by the traditional tables, in each school; the positions of 太岁 of year, month and day and of the fetal spirit follow from the pillars and the lunar month. '
      'Each description names its direction.',
      ['inputs'], span + ', every school', 'the tests check some twenty dates; sixty pillars, thirteen months and three schools combine', LUNAR + [U], [('positions', L + 'Lunar.py get*Position*'), ('tables', U)],
      'sweep of instants of each year plus Hypothesis instants against frozen tables and rules')
    p('L18', 'Clashes, ill directions, duty gods and day officers follow the branches',
      'The clash of a day or hour is the opposite branch with its animal and the clashing stems, the ill direction (煞) faces the harmony of its branch, the duty god (天神) counts from the month branch for days and from the day branch for hours, '
      'with its yellow or black way and luck, and the officer of the day (建除) counts from the month branch.',
      ['inputs'], span, 'the tests check about twenty days; twelve months with sixty days and twelve hours combine, and the month turns at a jie', LUNAR + [U, L + 'LunarTime.py'],
      [('clashes and gods', L + 'Lunar.py get*Chong*, get*Sha, get*TianShen*, getZhiXing')], 'sweep of instants around terms plus Hypothesis instants against branch arithmetic')
    p('L19', 'Mansions, weekdays and the small marks of the day run in their cycles',
      'The 28 mansions and the seven weekdays follow one another day by day without a break, also through October 1582, and with the mansion its luck, song, luminary, animal, palace and beast; the six days (六曜) count on from month and day. '
      'Moon phase, taboos of 彭祖, salary (禄) and season follow from the lunar day, the day pillar and the lunar month.',
      ['inputs'], span, 'the tests check some thirty days; a cycle breaks only at particular turns', LUNAR + [U], [('mansions', L + 'Lunar.py getXiu*'), ('marks of the day', L + 'Lunar.py getLiuYao, getYueXiang, getPengZu*, getDayLu, getSeason')],
      'windows of consecutive days across month and year ends plus Hypothesis instants against day-number arithmetic')
    p('L20', 'Things to do and avoid and the spirits of the day follow the pillars',
      'What to do and to avoid on a day follows from the month pillar (plain or exact as asked) and the day pillar, for an hour from the day and the hour pillar, and good and ill spirits of a day from the lunar month and the day pillar, by the published tables. '
      'A caller that changes an answer does not change later answers.',
      ['inputs'], 'all 3600 pairs of pillars for days and hours, all 720 of month and day; ' + span, 'the tests look up about twenty days; the tables are packed into strings where a wrong offset shows for particular pairs only', [U, L + 'Lunar.py', L + 'LunarTime.py'],
      [('packed tables', L + 'util/LunarUtil.py getDayYi, getDayJi, getTimeYi, getTimeJi, getDayJiShen, getDayXiongSha'), ('accessors', L + 'Lunar.py')], 'exhaustive look-up of every pair plus Hypothesis instants against frozen tables')
    p('L21', 'Nine nines, dog days and phenologies are counted from the right terms',
      'The nine nines (数九) are the 81 days from the winter solstice on; the dog days (三伏) begin at the third and fourth 庚 day from the summer solstice and at the first from the start of autumn, and end ten days after that. '
      'Each term has three phenologies, of five days and the rest, named by the day\'s term. On any other day there is none. A caller that changes an answer changes no later one.',
      ['inputs'], 'every day of the years 1 to 9999', 'the tests check about twenty days of ten years; the length of the middle span and both ends depend on the year', LUNAR + [L + 'ShuJiu.py', L + 'Fu.py'],
      [('spans', L + 'Lunar.py getShuJiu, getFu, getWuHou, getHou')], 'sweep of the first and last days of every span plus Hypothesis days against day-number arithmetic')
    p('L22', 'Lunar festivals fall on the days that define them',
      'A day lists exactly the festivals of its lunar month and day, with New Year\'s Eve on the last day of the lunar year whatever its length or leap month, and 寒食, 春社 and 秋社 on the days counted from their terms. '
      'Leap months have no festivals of the ordinary month.',
      ['inputs'], 'every day of the years 1 to 9999', 'the tests check some thirty festivals; the last day of the year and the days counted from terms differ every year', LUNAR + [U], [('festivals', L + 'Lunar.py getFestivals, getOtherFestivals')],
      'sweep of all festival days and their neighbours plus Hypothesis days against rules and frozen tables')
    p('L23', 'The almanac of a lunar year follows its pillar and its first days',
      'Pillar, era (元), period (运), directions and the sayings of the farmers\' almanac (dragons, cattle, silkworms and so on) of a lunar year follow from its number, its pillar and the pillars of the first days of its first month.',
      ['inputs'], 'every lunar year from 0 to 9999', 'the tests check about ten years; the sayings depend on the day pillar of each new year', [L + 'LunarYear.py'], [('almanac of the year', L + 'LunarYear.py get*')], 'sweep of lunar years against cycle arithmetic')
    p('L24', 'The almanac of a lunar month follows its place and its year',
      'The pillar of a lunar month follows by the five-tigers rule from the pillar of its year and its place in the year; directions, 太岁 position, place, length and text of the month agree with it.',
      ['inputs'], 'every month, ordinary or leap, of the lunar years 0 to 9999', 'the tests check about ten months; leap months shift the places that follow', [L + 'LunarMonth.py'], [('almanac of the month', L + 'LunarMonth.py get*')], 'sweep of the months of lunar years against cycle arithmetic')
    p('L25', 'Double hours: thirteen a day, each with its own pillar, bounds and almanac',
      'Every date has thirteen double hours that cover it from 00:00 to 23:59 without gap or overlap, the first and last of them halves of 子; each instant lies within the bounds of its double hour. '
      'Pillar, sound, directions, clash, duty god, things to do and avoid of a double hour follow from the day that begins at 23:00 and the hour, however the double hour is made.',
      ['inputs'], span + ', all 1440 minutes', 'the tests check about ten hours; the half hours of 子 belong to different days', [L + 'LunarTime.py', L + 'Lunar.py', U], [('double hours', L + 'LunarTime.py; Lunar.py getTime, getTimes'), ('clock', L + 'util/LunarUtil.py getTimeZhiIndex, convertTime')],
      'day and clock sweeps plus Hypothesis instants against cycle arithmetic')
    p('L26', 'The Buddhist calendar: year, fasts, mansions and observances of every lunar day',
      'The Buddhist date of a lunar date has the same month and day and a year 544 later, and building it from these numbers gives the date back. Observances, the fasts of the month, six, ten and 观音 days, '
      '杨公 taboo days and the mansions of a day are those of its lunar month, day and month length; the renderings name them.',
      ['inputs'], 'every lunar day of the years 1 to 9999, with leap months', 'the tests check about fifteen days; short months move the fasts and every day has its own list', [L + f for f in ('Foto.py', 'FotoFestival.py', 'util/FotoUtil.py')],
      [('Buddhist date', L + 'Foto.py'), ('tables', L + 'util/FotoUtil.py')], 'sweep of observance days, leap months and month ends plus Hypothesis days against frozen tables and rules')
    p('L27', 'The Taoist calendar: year, festivals and days of observance',
      'The Taoist date of a lunar date has the same month and day and a year 2697 later, and building it from these numbers gives the date back. Festivals and the days of 三会, 三元, 五腊, 八节, 八会, 戊 and 天赦 '
      'are those of the lunar month and day, of the term of the day, of the day pillar or of the month branch, and the renderings name them.',
      ['inputs'], 'every lunar day of the years 1 to 9999, with leap months', 'the tests check about fifteen days; terms, pillars and months combine', [L + f for f in ('Tao.py', 'TaoFestival.py', 'util/TaoUtil.py')],
      [('Taoist date', L + 'Tao.py'), ('tables', L + 'util/TaoUtil.py')], 'sweep of festival days, terms and pillar days plus Hypothesis days against frozen tables and rules')
    p('L28', 'Answers do not depend on earlier calls, other threads, failed calls or callers',
      'What a date, month or year answers depends on nothing but its own numbers: not on what was asked before, in which order, by how many threads at once, after which failed calls, or on what callers did to the lists and objects they were given (the school of a chart stays with that chart). '
      'A failed call never blocks later ones, objects made earlier keep answering the same, and a fresh process gives the same answers whatever its hash seed, time zone or locale.',
      ['histories', 'schedules', 'fault_sequences'], 'every sequence of questions, invalid calls and changes of returned lists, by one or more threads', 'the tests ask each question once, in one order and one thread; the shared one-year cache and its lock show only across calls',
      [L + 'LunarYear.py', L + 'LunarMonth.py', L + 'Lunar.py', L + 'EightChar.py'], [('one-year cache and its lock', L + 'LunarYear.py fromYear, __CACHE_YEAR'), ('returned lists', L + 'LunarYear.py getMonths, getJieQiJulianDays')],
      'model-based histories with injected failures and mutations, forced thread switches, and a differential against fresh processes',
      state=[('year cache', 'the lunar year computed last, shared by all threads', L + 'LunarYear.py'), ('school', 'the school an eight-characters object was set to', L + 'EightChar.py')])
    p('L29', 'Every public accessor answers for every date, the same however the date was made',
      'Every accessor of every kind of object answers every date in range with a value of its documented type, the same each time and in any order of asking, and asking changes nothing. '
      'Dates that are equal answer the same whether made from solar, lunar, Buddhist or Taoist numbers, from a datetime, or by stepping; aliases agree with the accessor they stand for and the full rendering with its parts.',
      ['inputs', 'histories'], 'every public accessor of every class on every date of the years 1 to 9999, made in every way', 'the tests ask each accessor on a few dates; some 400 accessors exist, most never asked at the ends of the range or in leap months',
      [L + '*.py', L + 'eightchar/*.py'], [('all accessors', L + 'Lunar.py, Solar.py, EightChar.py, LunarTime.py, Foto.py, Tao.py, LunarYear.py, LunarMonth.py')],
      'reflection over all accessors with Hypothesis and swept instants; repeated, reordered and differently constructed objects must agree')
