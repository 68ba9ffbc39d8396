# -*- coding: utf-8 -*-
"""Planted changes: (id, property, [(file below lunar_python, old, new)], demonstration, needs, what it breaks)."""
ALL = []


def M(mid, prop, edits, demo, needs, breaks):
    if isinstance(edits, tuple):
        edits = [edits]
    ALL.append((mid, prop, edits, demo, needs, breaks))


# ---------------------------------------------------------------------------------------------- S01
M('S01a', 'S01', ('util/SolarUtil.py', 'if year < 1600:', 'if year <= 1700:'), '''
same(Solar.fromYmd(1700, 2, 28).next(1).toYmd(), '1700-03-01', 'day after 1700-02-28')
same(SolarUtil.getDaysBetween(1699, 12, 31, 1701, 1, 1), 366, 'days from 1699-12-31 to 1701-01-01')
''', 'a date range across the end of February 1700', 'the year 1700 is taken as a leap year, so every day number across it is off by one')
M('S01b', 'S01', ('Solar.py', '''            while d + days <= 0:
                m -= 1
''', '''            while days <= -146097:
                # 每400年一个周期
                y -= 400
                days += 146097
            while 1 > d + days:
                m -= 1
'''), '''
same(Solar.fromYmd(2021, 3, 5).next(-146097).toYmd(), '1621-03-05', '400 years before 2021-03-05')
same(Solar.fromYmd(1990, 3, 5).next(-152000).subtract(Solar.fromYmd(1990, 3, 5)), -152000, 'days stepped back from 1990-03-05')
same(Solar.fromYmd(1582, 1, 1).next(-200000).subtract(Solar.fromYmd(1582, 1, 1)), -200000, 'days stepped back from 1582')
''', 'one step back of more than 400 years that ends before 1600', 'a 400-year shortcut ignores the Julian calendar and the ten dropped days')
M('S01c', 'S01', ('util/SolarUtil.py', '''            days = SolarUtil.getDaysOfYear(ay) - SolarUtil.getDaysInYear(ay, am, ad)
            for i in range(ay + 1, by):
                days += SolarUtil.getDaysOfYear(i)
''', '''            days = SolarUtil.getDaysOfYear(ay) - SolarUtil.getDaysInYear(ay, am, ad)
            i = ay + 1
            while i < by:
                if i % 4 == 1 and i + 4 <= by and (i + 3) % 100 != 0:
                    # 整四年
                    days += 1461
                    i += 4
                else:
                    days += SolarUtil.getDaysOfYear(i)
                    i += 1
'''), '''
same(Solar.fromYmd(1590, 1, 1).subtract(Solar.fromYmd(1570, 1, 1)), 7295, 'days from 1570-01-01 to 1590-01-01')
same(Solar.fromYmd(1585, 6, 1).subtract(Solar.fromYmd(1582, 6, 1)), 1086, 'days from 1582-06-01 to 1585-06-01')
''', 'a later minus an earlier date with the whole of 1581 to 1584 between them', 'the difference counts 1582 as a full year')

# ---------------------------------------------------------------------------------------------- S02
M('S02a', 'S02', ('Solar.py', '''            minute -= 60
            hour += 1
''', '''            minute = 0
            hour += 1 if hour < 23 else 0
'''), '''
for h in (3, 22, 23):
    s = Solar.fromYmdHms(2021, 5, 31, h, 59, 59)
    t = Solar.fromJulianDay(s.getJulianDay() + 0.7 / 86400)
    same(t.toYmdHms(), '2021-06-01 00:00:00' if h == 23 else '2021-05-31 %02d:00:00' % (h + 1), 'a julian day just before the hour %d' % (h + 1))
''', 'a Julian day less than half a second before midnight', 'the carry into the next day is lost, the instant goes back an hour')
# ---------------------------------------------------------------------------------------------- S03
M('S03a', 'S03', ('Solar.py', 'if second < 0 or second > 59:', 'if second < 0 or second > 60:'), '''
try:
    Solar.fromYmdHms(2016, 12, 31, 23, 59, 60)
except Exception:
    sys.exit(0)
same('accepted', 'rejected', 'second 60')
''', 'second 60', 'an instant with second 60 is built')
M('S03b', 'S03', ('Solar.py', 'if 4 < day < 15:\n                raise', 'if 4 < day < 14:\n                raise'), '''
try:
    Solar.fromYmd(1582, 10, 14)
except Exception:
    sys.exit(0)
same('accepted', 'rejected', '1582-10-14')
''', 'exactly 1582-10-14', 'the last dropped day is accepted')

# ---------------------------------------------------------------------------------------------- S04
M('S04a', 'S04', ('Solar.py', '''        if hour < 0:
            hour += 24
            days -= 1
        solar = self.next(days)''', '''        if h < 0:
            hour += 24
            days -= 1
        solar = self.next(days)'''), '''
same(Solar.fromYmdHms(2021, 3, 1, 5, 6, 7).nextHour(-5).toYmdHms(), '2021-03-01 00:06:07', 'five hours before 05:06:07')
same(Solar.fromYmdHms(2021, 3, 1, 5, 6, 7).nextHour(-29).toYmdHms(), '2021-02-28 00:06:07', '29 hours before 05:06:07')
''', 'a step back in hours that lands in the hour of midnight of an earlier day', 'the step fails with hour 24')
M('S04b', 'S04', ('Solar.py', '''        elif 2 == m:
            if d > 28:
                if not SolarUtil.isLeapYear(y):
                    d = 28
''', '''        elif 2 == m and d > 28 and years % 4 != 0:
            d = 28
'''), '''
same(Solar.fromYmd(2096, 2, 29).nextYear(4).toYmd(), '2100-02-28', 'four years after 2096-02-29')
same(Solar.fromYmd(2104, 2, 29).nextYear(-4).toYmd(), '2100-02-28', 'four years before 2104-02-29')
same(Solar.fromYmd(2024, 2, 29).nextYear(1).toYmd(), '2025-02-28', 'one year after 2024-02-29')
''', 'February 29 moved by a multiple of four years into a century year', 'a February 29 that does not exist is kept')
M('S04c', 'S04', ('Solar.py', '''        if 1582 == y and 10 == m:
            if 4 < d < 15:
                d += 10
        else:
            days = SolarUtil''', '''        if 1582 == y and 10 == m and self.__year == 1582:
            if 4 < d < 15:
                d += 10
        else:
            days = SolarUtil'''), '''
same(Solar.fromYmd(1580, 10, 31).nextMonth(24).toYmd(), '1582-10-31', '24 months after 1580-10-31')
same(Solar.fromYmd(1583, 1, 9).nextMonth(-3).toYmd(), '1582-10-19', 'three months before 1583-01-09')
''', 'months stepped from another year into October 1582', 'the dropped days of October 1582 are not skipped')
# ---------------------------------------------------------------------------------------------- S05
M('S05a', 'S05', ('SolarWeek.py', '''                            week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                            week_month = week.getMonth()
''', '''                            week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
'''), '''
import calendar
# each week of a month at a time, backwards: the days of the weeks, cut to their month, must be consecutive
for start in range(7):
    w = SolarWeek.fromYmd(2021, 6, 30, start)
    first = w.getDaysInMonth()[0]
    for n in range(1, 40):
        v = w.next(-n, True)
        last = v.getDaysInMonth()[-1]
        same(last.next(1).toYmd(), first.toYmd(), 'day after the week %d before (first weekday %d)' % (n, start))
        first = v.getDaysInMonth()[0]
''', 'several weeks stepped back over the end of a month, weeks kept separate by month', 'a week of a month is skipped or repeated')
M('S05b', 'S05', ('SolarWeek.py', '''        offset = Solar.fromYmd(self.__year, 1, 1).getWeek() - self.__start
        if offset < 0:
            offset += 7
''', '''        offset = (Solar.fromYmd(self.__year, 1, 1).getWeek() + 7 - self.__start) % 7
        if SolarUtil.isLeapYear(self.__year) and self.__month > 2 and offset == 6:
            offset = -1
'''), '''
# 2012-01-01 is a Sunday: with Monday as first weekday that Sunday is week 1 alone
same(SolarWeek.fromYmd(2012, 2, 29, 1).getIndexInYear(), 10, 'week of 2012-02-29')
same(SolarWeek.fromYmd(2012, 3, 1, 1).getIndexInYear(), 10, 'week of 2012-03-01')
''', 'a leap year that begins on the last day of a week, after February', 'the week number in the year is one too small')
M('S05c', 'S05', ('SolarWeek.py', '''        prev = solar.getWeek() - self.__start
        if prev < 0:
            prev += 7
        return solar.next(-prev)''', '''        prev = (solar.getWeek() - self.__start) % 7
        if prev < self.__day:
            return Solar.fromYmd(self.__year, self.__month, self.__day - prev)
        return solar.next(-prev)'''), '''
same(SolarWeek.fromYmd(1582, 10, 16, 1).getFirstDay().toYmd(), '1582-10-01', 'first day of the week of 1582-10-16')
''', 'a week that spans the ten dropped days of October 1582', 'the first day of the week is one of the dropped days')

# ---------------------------------------------------------------------------------------------- S06
M('S06a', 'S06', ('Solar.py', '''        if m < 0:
            m += 1440
            days -= 1
        m += days * 1440''', '''        if m < 0:
            m += 1440
            if days > 0:
                days -= 1
        m += days * 1440'''), '''
same(Solar.fromYmdHms(2020, 1, 1, 8, 0, 0).subtractMinute(Solar.fromYmdHms(2020, 1, 1, 9, 30, 0)), -90, 'minutes to an hour and a half later')
same(Solar.fromYmdHms(2020, 1, 3, 8, 0, 0).subtractMinute(Solar.fromYmdHms(2020, 1, 1, 9, 30, 0)), 2790, 'minutes over two days')
''', 'a difference to a later instant on the same or a later day whose time of day is later', 'the difference is a day too big')
M('S06b', 'S06', ('Solar.py', '''        if self.__minute < solar.getMinute():
            return False
        return self.__second > solar.getSecond()''', '''        return self.__second > solar.getSecond()'''), '''
a, b = Solar.fromYmdHms(2020, 1, 1, 8, 10, 30), Solar.fromYmdHms(2020, 1, 1, 8, 11, 5)
same(a.isAfter(b), False, '08:10:30 after 08:11:05')
''', 'two instants of the same hour, the earlier minute with the larger second', 'both instants are after each other')
M('S06c', 'S06', ('Solar.py', '''        if self.__day > solar.getDay():
            return False
        if self.__day < solar.getDay():
            return True
        if self.__hour > solar.getHour():
            return False
''', '''        if self.__day < solar.getDay():
            return True
        if self.__hour > solar.getHour():
            return False
'''), '''
a, b = Solar.fromYmdHms(2020, 1, 2, 8, 10, 30), Solar.fromYmdHms(2020, 1, 1, 9, 0, 0)
same(a.isBefore(b), False, 'January 2 08:10:30 before January 1 09:00')
same(b.isBefore(a), True, 'January 1 before January 2')
''', 'two days of one month, the later day with the earlier hour', 'a later instant counts as before')

# ---------------------------------------------------------------------------------------------- S07
M('S07a', 'S07', ('Solar.py', 'key = "%d-%d-%d" % (self.__month, int(ceil(self.__day / 7.0)), week)', 'key = "%d-%d-%d" % (self.__month, int(self.__day / 7) + 1, week)'), '''
same('母亲节' in Solar.fromYmd(2023, 5, 14).getFestivals(), True, "Mother's Day on 2023-05-14")
same('母亲节' in Solar.fromYmd(2023, 5, 7).getFestivals(), False, "Mother's Day on 2023-05-07")
''', 'an nth-weekday festival that falls on the 7th, 14th, 21st or 28th', 'the festival moves a week')
M('S07b', 'S07', ('Solar.py', 'if self.__day + 7 > SolarUtil.getDaysOfMonth(self.__year, self.__month):', 'if self.__day + 7 >= SolarUtil.getDaysOfMonth(self.__year, self.__month):'), '''
import calendar
for y in range(2015, 2031):
    for key, name in SolarUtil.WEEK_FESTIVAL.items():
        m, n, w = [int(x) for x in key.split('-')]
        if n:
            continue
        hits = [d.getDay() for d in SolarMonth.fromYm(y, m).getDays() if name in d.getFestivals()]
        same(len(hits), 1, '%s in %d' % (name, y))
''', 'a month whose last two occurrences of the weekday are seven days apart from its end', 'the last-weekday festival is listed twice')

# ---------------------------------------------------------------------------------------------- S08
M('S08a', 'S08', ('Solar.py', '''            if days < 0:
                add = -1
            while rest > 0:''', '''            if 0 > days:
                add = -1
            if rest > 5 and solar.getYear() < 2001:
                # 尚无法定节假日数据，每周固定5个工作日
                solar = solar.next(int(rest / 5) * 7 * add)
                rest = rest % 5
            while rest > 0:'''), '''
a = Solar.fromYmd(1999, 5, 8)  # a Saturday
same(a.next(10, True).toYmd(), '1999-05-21', 'ten work days after Saturday 1999-05-08')
''', 'more than five work days from a weekend before 2001, a whole number of weeks, or over the start of 2002', 'the shortcut lands on a weekend or skips holidays')
M('S08b', 'S08', ('Solar.py', '''                if holiday is None:
                    week = solar.getWeek()
                    if 0 == week or 6 == week:
                        work = False
                else:
                    work = holiday.isWork()''', '''                week = solar.getWeek()
                if 0 == week or 6 == week:
                    work = holiday is not None and holiday.isWork()
                elif holiday is not None and holiday.getTarget() != holiday.getDay():
                    work = False'''), '''
a = Solar.fromYmd(2020, 4, 30)
same(a.next(1, True).toYmd(), '2020-05-06', 'the work day after 2020-04-30')
b = Solar.fromYmd(2010, 12, 31)
same(b.next(1, True).toYmd(), '2011-01-04', 'the work day after 2010-12-31')
c = Solar.fromYmd(2012, 4, 3)
same(c.next(1, True).toYmd(), '2012-04-05', 'the work day after 2012-04-03')
''', 'a holiday on a weekday that is its own target day', 'a holiday on a weekday counts as a work day')

# ---------------------------------------------------------------------------------------------- S09
M('S09b', 'S09', ('util/HolidayUtil.py', '''        if names is not None:
''', '''        if names is not None and len(names) >= len(HolidayUtil.NAMES):
'''), '''
HolidayUtil.fix(['A', 'B'], '205001021120500101')
same(HolidayUtil.getHoliday('2050-01-02').getName(), 'B', 'name after a correction with two names')
''', 'a correction with fewer names than the default list', 'the changed names are ignored')
M('S09c', 'S09', ('util/HolidayUtil.py', 'while len(data) >= HolidayUtil.__SIZE:', 'while len(data) > HolidayUtil.__SIZE or (len(data) == HolidayUtil.__SIZE and data[8:9] != "9"):'), '''
N = list(HolidayUtil.NAMES) + ['新节']
HolidayUtil.fix(N, '205001029120500101')
same(HolidayUtil.getHoliday('2050-01-02').getName(), '新节', 'a day added with the tenth name')
''', 'a correction whose last record uses the tenth name', 'that record is dropped')

# ---------------------------------------------------------------------------------------------- L01
M('L01a', 'L01', ('Lunar.py', '        return self.__solar.next(days).getLunar()', '''        day = self.__day + days
        solar = self.__solar
        if 0 < day <= 30 and days > 1:
            # 未跨月
            return Lunar.fromYmdHms(self.__year, self.__month, day, self.__hour, self.__minute, self.__second)
        return solar.next(days).getLunar()'''), '''
a = Lunar.fromYmd(2021, 4, 29)
n = LunarMonth.fromYm(2021, 4).getDayCount()
for m in range(1, 12):
    d = Lunar.fromYmd(2021, m, 28).next(2)
    same(d.getSolar().toYmd(), Lunar.fromYmd(2021, m, 28).getSolar().next(2).toYmd(), 'two days after %d-28' % m)
''', 'a step that would land on the thirtieth of a month of 29 days', 'the step fails instead of reaching the first of the next month')
M('L01c', 'L01', ('LunarYear.py', 'day_counts.append(int(hs[i + 1] - hs[i]))', 'day_counts.append(max(29, int(hs[i + 1] - hs[i])))'), '''
same(LunarMonth.fromYm(236, 12).getDayCount(), 28, 'days of the twelfth month of 236')
same(Lunar.fromYmd(236, 12, 28).next(1).toString(), Lunar.fromSolar(Lunar.fromYmd(236, 12, 28).getSolar().next(1)).toString(), 'day after 236-12-28')
try:
    Lunar.fromYmd(236, 12, 29)
except Exception:
    sys.exit(0)
same('accepted', 'rejected', '236-12-29')
''', 'the one month of 28 days (the twelfth of 236)', 'two lunar dates share a day')

# ---------------------------------------------------------------------------------------------- L02
M('L02a', 'L02', ('LunarYear.py', '9848, 9867,', '9848,'), '''
same([m.getMonth() for m in LunarYear.fromYear(9867).getMonthsInYear()][-2:], [12, -12], 'last months of 9867')
''', 'the lunar year 9867', 'a leap month is lost')
M('L02b', 'L02', ('LunarYear.py', 'elif 1807724 <= dm < 1808699:', 'elif 1807724 < dm < 1808699:'), '''
def seq(y):
    return [m.getMonth() for m in LunarYear.fromYear(y).getMonthsInYear()]


for y in (236, 237, 238, 239):
    print(y, seq(y))
same(seq(237), [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12], 'months of 237')
''', 'the month of the calendar reform of 237', 'the month names around the reform are wrong')
# ---------------------------------------------------------------------------------------------- L03
M('L03a', 'L03', ('LunarMonth.py', 'return "%d年%s%s月(%d天)" % (self.__year, ("闰" if self.isLeap() else ""), LunarUtil.MONTH[abs(self.__month)], self.__dayCount)', 'return "%d年%s%s月(%d天)" % (self.__year, ("闰" if self.__month < -1 else ""), LunarUtil.MONTH[abs(self.__month)], self.__dayCount)'), '''
for y in range(2200, 2300):
    lm = LunarYear.fromYear(y).getLeapMonth()
    if lm == 1:
        same(LunarMonth.fromYm(y, -1).toString()[4:7], '年闰正', 'text of the leap first month of %d' % y)
        break
''', 'a leap first month (2262)', 'the text of a leap first month is that of the ordinary month')
M('L03b', 'L03', ('LunarYear.py', 'return LunarYear.fromYear(self.__year + n)', 'return LunarYear.fromYear(self.__year + (n if self.__year + n > 0 or n > 0 else n - 1))'), '''
same(LunarYear.fromYear(5).next(-5).getYear(), 0, 'five years before year 5')
''', 'a step back to the year 0 or before', 'the year 0 is skipped')

# ---------------------------------------------------------------------------------------------- L04
M('L04a', 'L04', ('LunarYear.py', '''        for m in self.__months:
            if m.getYear() == self.__year and m.getMonth() == lunar_month:
                return m
        return None''', '''        for m in self.__months:
            if m.getMonth() == lunar_month and m.getYear() == self.__year:
                return m
        if lunar_month == -12:
            # 闰十二月
            return self.__months[-1] if self.__months[-1].isLeap() else self.getMonth(12)
        return None'''), '''
try:
    Lunar.fromYmd(2021, -12, 5)
except Exception:
    sys.exit(0)
same('accepted', 'rejected', 'leap twelfth month of 2021')
''', 'a leap twelfth month in a year without it', 'a date that does not exist is built')
M('L04b', 'L04', ('Lunar.py', '''        if lunar_day > days:
            raise''', '''        if lunar_day > days and not (lunar_day == 30 and lunar_month == 12):
            raise'''), '''
for y in range(2000, 2040):
    if LunarMonth.fromYm(y, 12).getDayCount() == 29:
        try:
            Lunar.fromYmd(y, 12, 30)
        except Exception:
            sys.exit(0)
        same('accepted', 'rejected', '%d-12-30' % y)
''', 'day 30 of a twelfth month of 29 days', 'New Year of the next year is built as a thirtieth')

# ---------------------------------------------------------------------------------------------- L05
M('L05a', 'L05', ('Lunar.py', '        if noon.getYear() != lunar_year:', '        if noon.getYear() > lunar_year:'), '''
n = 0
for y in range(1, 1200):
    a = Solar.fromYmd(y, 12, 31).getLunar()
    b = Solar.fromYmd(y, 6, 1).getLunar()
    same(a.getJieQiTable()["立春"].toYmdHms(), b.getJieQiTable()["立春"].toYmdHms(), 'the spring of %d seen from its last day' % y)
''', 'the last days of a solar year whose next lunar year has already begun (years around 20 and 239)', 'those days see the terms of the next year')

# ---------------------------------------------------------------------------------------------- L06
M('L06a', 'L06', ('Lunar.py', '''        elif "LI_CHUN" == jq:
            jq = "立春"''', '''        elif "LICHUN" == jq:
            jq = "立春"'''), '''
for y in (1500, 1550, 1575):
    for d in (29, 30, 31):
        j = Solar.fromYmd(y, 12, d).getLunar().getNextJie()
        same(j.getName() in Lunar.JIE_QI, True, 'name of the next jie of %d-12-%d (%s)' % (y, d, j.getName()))
''', 'the last days of December in a year of the late Julian calendar', 'the name of the next jie is an internal key or a later jie is given')
M('L06b', 'L06', ('Lunar.py', '''                if day > today:
                    continue
                if near is None:''', '''                if day > today or (not whole_day and day == today):
                    continue
                if near is None:'''), '''
t = Solar.fromYmd(2021, 6, 1).getLunar().getJieQiTable()["立秋"]
same(t.getLunar().getPrevJieQi().getName(), "立秋", 'previous term at the instant of 立秋')
''', 'exactly the second of a term', 'the term that begins at this instant is not the previous one')
M('L06c', 'L06', ('Lunar.py', '''        for i in range(1, len(Lunar.JIE_QI_IN_USE), 2):
            key = Lunar.JIE_QI_IN_USE[i]
            d = self.__jieQi[key]
            if d.getYear() == self.__solar.getYear() and d.getMonth() == self.__solar.getMonth() and d.getDay() == self.__solar.getDay():
                return JieQi(self.__convertJieQi(key), d)
        return None''', '''        for i in range(1, len(Lunar.JIE_QI), 2):
            key = Lunar.JIE_QI_IN_USE[i]
            d = self.__jieQi[key]
            if d.getYear() == self.__solar.getYear() and d.getMonth() == self.__solar.getMonth() and d.getDay() == self.__solar.getDay():
                return JieQi(self.__convertJieQi(key), d)
        return None'''), '''
for y in (1998, 2020, 2021, 1400):
    for d in range(8, 25):
        a = Solar.fromYmd(y, 12, d).getLunar()
        q = a.getCurrentQi()
        same('' if q is None else q.getName(), a.getQi(), 'current qi of %d-12-%d' % (y, d))
''', 'the winter solstice at the end of the year', 'the current qi of the second winter solstice of a table is missing')

# ---------------------------------------------------------------------------------------------- L07
M('L07a', 'L07', ('Lunar.py', 'if solar_ymd_hms < li_chun_ymd_hms:', 'if solar_ymd_hms <= li_chun_ymd_hms:'), '''
for y in (2012, 2019, 2021, 2025, 2030, 1985, 2026):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立春"]
    same(t.getLunar().getYearInGanZhiExact(), Solar.fromYmd(y, 6, 1).getLunar().getYearInGanZhi(), 'exact year pillar at 立春 of %d' % y)
''', 'the very second of 立春 after the lunar new year', 'the exact year pillar turns a second late')
M('L07b', 'L07', ('Lunar.py', '''            if solar_ymd >= li_chun_ymd:
                g += 1
                z += 1''', '''            if solar_ymd >= li_chun_ymd:
                g += 1
                z = (z + 1) % 12 if self.__solar.getHour() < 23 else z'''), '''
a = Solar.fromYmdHms(2024, 2, 6, 23, 30, 0).getLunar()
same(a.getYearInGanZhiByLiChun(), '甲辰', 'year pillar of 2024-02-06 23:30 by 立春')
''', 'between 立春 and the new year, at 23 h', 'the year branch is a year behind its stem')
M('L07c', 'L07', ('LunarYear.py', '''        if year_gan_index < 0:
            year_gan_index += 10''', '''        if year_gan_index <= 0 and lunar_year < 1000:
            year_gan_index += 1'''), '''
same(LunarYear.fromYear(984).getGanZhi(), Lunar.fromYmd(984, 3, 1).getYearInGanZhi(), 'pillar of the lunar year 984')
''', 'a year of the stem 甲 before 1000, asked of the lunar year', 'the stem of the lunar year is wrong')

# ---------------------------------------------------------------------------------------------- L08
M('L08a', 'L08', ('Lunar.py', 'g_offset = (((self.__yearGanIndexExact + (1 if index < 0 else 0)) % 5 + 1) * 2) % 10', 'g_offset = (((self.__yearGanIndexByLiChun + (1 if index < 0 else 0)) % 5 + 1) * 2) % 10'), '''
a = Solar.fromYmdHms(2021, 2, 3, 3, 0, 0).getLunar()
b = Solar.fromYmdHms(2021, 2, 2, 3, 0, 0).getLunar()
same(a.getMonthInGanZhiExact(), b.getMonthInGanZhiExact(), 'exact month pillar of 2021-02-03 03:00 (立春 is at 22:58)')
''', 'the day of 立春 before its instant', 'the stem of the exact month pillar is off by two')
M('L08b', 'L08', ('Lunar.py', 'return LunarUtil.SHENGXIAO[self.__monthZhiIndexExact + 1]', 'return LunarUtil.SHENGXIAO[self.__monthZhiIndex + 1]'), '''
a = Solar.fromYmdHms(2021, 2, 3, 3, 0, 0).getLunar()
same(a.getMonthShengXiaoExact(), '牛', 'animal of the exact month on 2021-02-03 03:00')
''', 'the day of a jie before its instant', 'the animal of the exact month is that of the next month')

# ---------------------------------------------------------------------------------------------- L09
M('L09c', 'L09', ('util/LunarUtil.py', '''        if len(hm) > 5:
            hm = hm[0:5]
        x = 1''', '''        if len(hm) > 5:
            hm = hm[0:4]
        x = 1'''), '''
same(LunarUtil.convertTime('02:59:30'), '丑', 'double hour of 02:59:30')
same(LunarUtil.convertTime('03:00:00'), '寅', 'double hour of 03:00:00')
''', 'a time of day with seconds, in the first ten minutes of an odd hour', 'the double hour is not found')

# ---------------------------------------------------------------------------------------------- L10
M('L10a', 'L10', ('EightChar.py', 'return self.__getDiShi(self.getDayZhiIndex())', 'return self.__getDiShi(self.__lunar.getDayZhiIndex())'), '''
e = Solar.fromYmdHms(2021, 5, 5, 23, 30, 0).getLunar().getEightChar()
f = Solar.fromYmdHms(2021, 5, 6, 1, 30, 0).getLunar().getEightChar()
e.setSect(1)
same(e.getDay(), f.getDay(), 'day pillar')
same(e.getDayDiShi(), f.getDayDiShi(), 'life stage of the day')
''', 'a birth after 23:00 in the first school', 'the life stage is that of the day before')
M('L10c', 'L10', ('util/LunarUtil.py', '"癸戊": "正官",', '"癸戊": "七杀",'), '''
import itertools
for a, b in itertools.combinations(LunarUtil.GAN[1:], 2):
    same(LunarUtil.SHI_SHEN[a + a] , '比肩', 'same stem')
same(LunarUtil.SHI_SHEN['癸戊'], '正官', 'god of 戊 for 癸')
''', 'a chart of the day stem 癸 with the stem 戊 in it', 'the ten god of that stem is wrong')
M('L10d', 'L10', ('EightChar.py', '''        return self.__lunar.getDayXunKongExact2() if 2 == self.__sect else self.__lunar.getDayXunKongExact()''', '''        return self.__lunar.getDayXunKongExact2() if 1 != self.__sect else self.__lunar.getDayXunKong()'''), '''
e = Solar.fromYmdHms(2021, 4, 30, 23, 30, 0)
for i in range(60):
    x = e.next(i).getLunar().getEightChar()
    x.setSect(1)
    same(x.getDayXunKong(), LunarUtil.getXunKong(x.getDay()), 'void of the day pillar %s' % x.getDay())
''', 'the first school, after 23:00 of the last day of a decad', 'the void is that of the day before')

# ---------------------------------------------------------------------------------------------- L11
M('L11b', 'L11', ('EightChar.py', '''        return LunarUtil.HE_GAN_5[gan_index] + LunarUtil.HE_ZHI_6[zhi_index]''', '''        return LunarUtil.HE_GAN_5[gan_index] + LunarUtil.HE_ZHI_6[self.__lunar.getDayZhiIndex() if 1 == self.__sect else zhi_index]'''), '''
e = Solar.fromYmdHms(2021, 5, 5, 23, 30, 0).getLunar().getEightChar()
f = Solar.fromYmdHms(2021, 5, 6, 1, 30, 0).getLunar().getEightChar()
e.setSect(1)
same(e.getTaiXi(), f.getTaiXi(), 'conception by breath')
''', 'the first school after 23:00', 'the branch comes from the day before')

# ---------------------------------------------------------------------------------------------- L12
M('L12e', 'L12', ('Solar.py', 'if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:', 'if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhi() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:'), '''
bad = 0
for y in range(1960, 2020):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立夏"]
    s = Solar.fromYmdHms(t.getYear(), t.getMonth(), t.getDay(), 0, 0, 0)
    b = s.getLunar().getEightChar()
    n = t.getLunar().getEightChar()
    for q in [(b.getYear(), b.getMonth(), b.getDay(), b.getTime()), (n.getYear(), n.getMonth(), n.getDay(), b.getTime())]:
        for r in Solar.fromBaZi(*q):
            e = r.getLunar().getEightChar()
            same((e.getYear(), e.getMonth(), e.getDay(), e.getTime()), q, 'eight characters of %s' % r.toYmdHms())
''', 'four pillars that would only meet on the day of a jie before its instant', 'an instant with another month pillar is returned')

# ---------------------------------------------------------------------------------------------- L13
M('L13b', 'L13', ('eightchar/Yun.py', '''        solar = solar.nextYear(self.__startYear)
        solar = solar.nextMonth(self.__startMonth)
''', '''        solar = solar.nextMonth(self.__startYear * 12 + self.__startMonth)
'''), '''
n = 0
for y in range(1904, 2020, 4):
    for h in (1, 9, 17):
        for g in (0, 1):
            for sect in (1, 2):
                s = Solar.fromYmdHms(y, 2, 29, h, 0, 0)
                yun = s.getLunar().getEightChar().getYun(g, sect)
                want = s.nextYear(yun.getStartYear()).nextMonth(yun.getStartMonth()).next(yun.getStartDay()).nextHour(yun.getStartHour())
                same(yun.getStartSolar().toYmdHms(), want.toYmdHms(), 'start of the decades of %s' % s.toYmdHms())
''', 'a birth on February 29 whose decades start in a common year', 'the start is a day late')

# ---------------------------------------------------------------------------------------------- L14
M('L14a', 'L14', ('eightchar/DaYun.py', '''        if offset >= size:
            offset -= size
        if offset < 0:''', '''        if offset > size:
            offset -= size
        if offset < 0:'''), '''
for y in range(1980, 2000):
    for m in range(1, 13):
        for g in (0, 1):
            for d in Solar.fromYmd(y, m, 15).getLunar().getEightChar().getYun(g).getDaYun():
                d.getGanZhi()
''', 'a forward life whose decades reach 甲子', 'the pillar of the decade fails')
M('L14c', 'L14', ('eightchar/LiuNian.py', 'self.__lunar.getJieQiTable()["立春"].getLunar().getYearInGanZhiExact()', 'self.__lunar.getYearInGanZhiExact()'), '''
s = Solar.fromYmdHms(1990, 1, 20, 10, 0, 0)
l = s.getLunar().getEightChar().getYun(1).getDaYun()[0].getLiuNian()[0]
same((l.getYear(), l.getGanZhi()), (1990, '庚午'), 'first year of a birth on 1990-01-20')
''', 'a birth in January or February before 立春', 'the years of the life carry the pillar of the year before')
M('L14d', 'L14', ('eightchar/XiaoYun.py', '''        while offset < 0:
            offset += size
        offset %= size''', '''        if offset < 0:
            offset += size
        offset = abs(offset) % size'''), '''
y = Solar.fromYmdHms(1983, 2, 15, 0, 30, 0).getLunar().getEightChar()
for h in range(0, 24, 2):
    for yy in range(1980, 1990):
        for g in (0, 1):
            yun = Solar.fromYmdHms(yy, 5, 15, h, 30, 0).getLunar().getEightChar().getYun(g)
            prev = None
            for d in yun.getDaYun(12)[1:]:
                for x in d.getXiaoYun():
                    i = LunarUtil.getJiaZiIndex(x.getGanZhi())
                    if prev is not None:
                        same(i, (prev + (1 if yun.isForward() else -1)) % 60, 'minor pillar at age %d' % x.getAge())
                    prev = i
''', 'a backward life, past the age of sixty plus the place of the hour pillar', 'the minor pillars turn back forward')

# ---------------------------------------------------------------------------------------------- L15
M('L15a', 'L15', ('Lunar.py', '''        return LunarUtil.getXunKong(self.getDayInGanZhiExact2())''', '''        return LunarUtil.getXunKong(self.getDayInGanZhiExact())'''), '''
for i in range(60):
    a = Solar.fromYmdHms(2021, 4, 1, 23, 30, 0).next(i).getLunar()
    same(a.getDayXunKongExact2(), LunarUtil.getXunKong(a.getDayInGanZhiExact2()), 'void of %s' % a.getDayInGanZhiExact2())
''', 'after 23:00 on the last day of a decad', 'the void is that of the next day')
M('L15b', 'L15', ('Lunar.py', '''        return LunarUtil.getXun(self.getMonthInGanZhiExact())''', '''        return LunarUtil.getXun(self.getMonthInGanZhi())'''), '''
for y in range(1990, 2020):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()
    for n in ("小暑", "立夏", "立秋", "白露", "大雪", "立春", "惊蛰", "芒种"):
        s = Solar.fromYmd(t[n].getYear(), t[n].getMonth(), t[n].getDay())
        a = s.getLunar()
        same(a.getMonthXunExact(), LunarUtil.getXun(a.getMonthInGanZhiExact()), 'decad of the month pillar on %s' % s.toYmd())
''', 'the day of a jie, before its instant, that begins a decad of months', 'the decad is that of the next month')

# ---------------------------------------------------------------------------------------------- L16
M('L16a', 'L16', ('Lunar.py', 'elif solar_ymd >= self.__jieQi["DONG_ZHI"].toYmd():\n            asc = True', 'elif solar_ymd > self.__jieQi["DONG_ZHI"].toYmd():\n            asc = True'), '''
for y in range(2000, 2020):
    d = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["DONG_ZHI"]
    a = Solar.fromYmdHms(d.getYear(), d.getMonth(), d.getDay(), 0, 30, 0).getLunar()
    want = {'子': 0, '午': 0, '卯': 0, '酉': 0, '辰': 3, '戌': 3, '丑': 3, '未': 3}.get(a.getDayZhi(), 6)
    same(a.getTimeNineStar().getIndex(), want, 'hour star at midnight of the winter solstice %s' % d.toYmd())
''', 'the day of the winter solstice', 'the stars of the hours still fly backwards on that day')
M('L16b', 'L16', ('Lunar.py', '''        elif year_offset < -1:
            year_offset += 60
        yuan''', '''        elif year_offset < -59:
            year_offset += 60
        yuan'''), '''
a = Solar.fromYmdHms(1984, 2, 1, 1, 0, 0).getLunar()
for y in (1864, 1924, 1984, 2044, 1804, 2104):
    for d in range(1, 28):
        l = Solar.fromYmdHms(y, 2, d, 23, 0, 0).getLunar()
        i = LunarUtil.getJiaZiIndex(l.getYearInGanZhiByLiChun())
        yy = y if i == 0 else y - 1
        same(l.getYearNineStar().getIndex(), (1 - yy - 0) % 9 and (9 - ((yy - 1864) % 9)) % 9 if False else LunarYear.fromYear(yy).getNineStar().getIndex(), 'year star of %d-02-%d' % (y, d))
''', 'the weeks between 立春 and the new year when the cycle of sixty begins', 'the year star takes the wrong era')
M('L16c', 'L16', ('Lunar.py', 'elif day_zhi in "辰戌丑未":', 'elif day_zhi in "辰戌丑未" and (asc or self.__timeZhiIndex < 11):'), '''
for d in range(1, 30):
    a = Solar.fromYmdHms(2021, 8, d, 21, 0, 0).getLunar()
    b = Solar.fromYmdHms(2021, 8, d, 19, 0, 0).getLunar()
    same(a.getTimeNineStar().getIndex(), (b.getTimeNineStar().getIndex() - 1) % 9, 'hour star of 21:00 on 2021-08-%d' % d)
''', 'the double hour 亥 of a day 辰戌丑未 in the second half of the year', 'the star jumps')

# ---------------------------------------------------------------------------------------------- L17
M('L17a', 'L17', ('Lunar.py', 'elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":', 'elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,己巳":'), '''
for i in range(60):
    a = Solar.fromYmd(2021, 3, 1).next(i).getLunar()
    if a.getDayInGanZhi() == '乙巳':
        same(a.getDayPositionTaiSui(), '兑', 'direction of the day tai sui on 乙巳')
''', 'the day 乙巳', 'the direction of the day is that of the year')
M('L17b', 'L17', ('Lunar.py', '''        if 3 == sect:
            month_zhi_index = self.__monthZhiIndexExact
            month_gan_index = self.__monthGanIndexExact
''', '''        if 3 == sect:
            month_zhi_index = self.__monthZhiIndexExact
            month_gan_index = self.__monthGanIndex
'''), '''
t = Solar.fromYmd(2021, 6, 1).getLunar().getJieQiTable()
for y in range(2000, 2040):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()
    for n in ("立夏", "清明", "白露", "小寒", "惊蛰", "小暑", "立秋", "立冬", "寒露"):
        s = Solar.fromYmd(t[n].getYear(), t[n].getMonth(), t[n].getDay())
        a = s.getLunar()
        b = s.next(-1).getLunar()
        if t[n].getHour() > 0:
            same(a.getMonthPositionTaiSui(3), b.getMonthPositionTaiSui(3), 'month tai sui before %s of %d' % (n, y))
''', 'the day of a jie before its instant, when the month ending is of the branch 卯 未 亥', 'the direction comes from the stem of the next month')
M('L17c', 'L17', ('LunarTime.py', 'return (LunarUtil.POSITION_FU if 1 == sect else LunarUtil.POSITION_FU_2)[self.__ganIndex + 1]', 'return (LunarUtil.POSITION_FU if sect < 2 and self.__zhiIndex > 0 else LunarUtil.POSITION_FU_2)[self.__ganIndex + 1]'), '''
a = Solar.fromYmdHms(2021, 3, 3, 0, 10, 0).getLunar()
for i in range(10):
    a = Solar.fromYmdHms(2021, 3, 3 + i, 0, 10, 0).getLunar()
    same(a.getTime().getPositionFu(1), a.getTimePositionFu(1), 'direction of fortune of the hour')
''', 'the first school at midnight', 'the direction of fortune')

# ---------------------------------------------------------------------------------------------- L18
M('L18a', 'L18', ('Lunar.py', 'offset = self.__dayZhiIndex - self.__monthZhiIndex\n', 'offset = self.__dayZhiIndex - self.__monthZhiIndexExact\n'), '''
t = Solar.fromYmd(2021, 6, 1).getLunar().getJieQiTable()["立秋"]
a = Solar.fromYmdHms(t.getYear(), t.getMonth(), t.getDay(), 0, 0, 0).getLunar()
b = Solar.fromYmdHms(t.getYear(), t.getMonth(), t.getDay(), 23, 59, 59).getLunar()
same(a.getZhiXing(), b.getZhiXing(), 'officer of the day at both ends of %s' % t.toYmd())
''', 'the day of a jie before its instant', 'the officer of the day changes within the day')
M('L18b', 'L18', ('Lunar.py', 'return LunarUtil.TIAN_SHEN[(self.__timeZhiIndex + LunarUtil.ZHI_TIAN_SHEN_OFFSET[self.getDayZhiExact()]) % 12 + 1]', 'return LunarUtil.TIAN_SHEN[(self.__timeZhiIndex + LunarUtil.ZHI_TIAN_SHEN_OFFSET[self.getDayZhi()]) % 12 + 1]'), '''
a = Solar.fromYmdHms(2021, 8, 5, 23, 10, 0).getLunar()
b = Solar.fromYmdHms(2021, 8, 6, 0, 10, 0).getLunar()
same(a.getTimeTianShen(), b.getTimeTianShen(), 'duty god of the double hour that begins at 23:00')
''', 'the hour after 23:00', 'the duty god counts from the day before')
M('L18c', 'L18', ('util/LunarUtil.py', 'CHONG_GAN_TIE = ("己", "戊", "辛", "庚", "癸", "壬", "乙", "甲", "丁", "丙")', 'CHONG_GAN_TIE = ("己", "戊", "辛", "庚", "癸", "壬", "乙", "甲", "丙", "丁")'), '''
same([LunarUtil.CHONG_GAN_TIE[i] for i in (8, 9)], ['丁', '丙'], 'clashing stems of 壬 and 癸')
''', 'a day or hour of the stem 壬 or 癸', 'the second clashing stem is wrong')

# ---------------------------------------------------------------------------------------------- L19
M('L19a', 'L19', ('Lunar.py', 'return LunarUtil.LIU_YAO[(abs(self.__month) + self.__day - 2) % 6]', 'return LunarUtil.LIU_YAO[(self.__month + self.__day - 2) % 6]'), '''
same(Lunar.fromYmd(2020, -4, 1).getLiuYao(), Lunar.fromYmd(2020, 4, 1).getLiuYao(), 'six days of the leap month')
''', 'a leap month', 'the six days of a leap month start elsewhere')
M('L19c', 'L19', ('Lunar.py', 'return LunarUtil.SEASON[abs(self.__month)]', 'return LunarUtil.SEASON[abs(self.__month) if self.__month > -10 else -self.__month - 1]'), '''
for y in range(1900, 2400):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m > 9:
        same(Lunar.fromYmd(y, -m, 3).getSeason(), Lunar.fromYmd(y, m, 3).getSeason(), 'season of the leap month %d of %d' % (m, y))
''', 'a leap month of the winter', 'the season is one month back')

# ---------------------------------------------------------------------------------------------- L20
M('L20a', 'L20', ('util/LunarUtil.py', '''        month = hex(abs(lunar_month)).replace("0x", "").upper()
        index = LunarUtil.__DAY_SHEN_SHA.find(month + day + "=")
        if index > -1:
            left = LunarUtil.__DAY_SHEN_SHA[index + 4:]
            if "=" in left:
                left = left[:left.find("=") - 3]
            js =''', '''        month = hex(lunar_month % 13).replace("0x", "").upper()
        index = LunarUtil.__DAY_SHEN_SHA.find(month + day + "=")
        if index > -1:
            left = LunarUtil.__DAY_SHEN_SHA[index + 4:]
            if "=" in left:
                left = left[:left.find("=") - 3]
            js ='''), '''
a = Lunar.fromYmd(2020, -4, 5)
same(LunarUtil.getDayJiShen(-4, a.getDayInGanZhi()), LunarUtil.getDayJiShen(4, a.getDayInGanZhi()), 'good spirits in the leap fourth month')
''', 'a leap month', 'the good spirits are those of another month')
M('L20b', 'L20', ('Lunar.py', '''        if 2 == sect:
            month_gan_zhi = self.getMonthInGanZhiExact()
        else:
            month_gan_zhi = self.getMonthInGanZhi()
        return LunarUtil.getDayJi(month_gan_zhi, self.getDayInGanZhi())''', '''        if 2 == sect:
            month_gan_zhi = self.getMonthInGanZhiExact()
        else:
            month_gan_zhi = self.getMonthInGanZhi()
        return LunarUtil.getDayJi(month_gan_zhi, self.getDayInGanZhiExact())'''), '''
a = Solar.fromYmdHms(2021, 8, 5, 23, 10, 0).getLunar()
b = Solar.fromYmdHms(2021, 8, 5, 22, 10, 0).getLunar()
same(a.getDayJi(), b.getDayJi(), 'what to avoid on 2021-08-05')
''', 'after 23:00', 'what to avoid is that of the next day')
M('L20c', 'L20', ('LunarTime.py', 'return LunarUtil.getTimeYi(self.__lunar.getDayInGanZhiExact(), self.getGanZhi())', 'return LunarUtil.getTimeYi(self.__lunar.getDayInGanZhi(), self.getGanZhi())'), '''
for d in range(1, 20):
    a = Solar.fromYmdHms(2021, 8, d, 23, 10, 0).getLunar()
    same(a.getTime().getYi(), a.getTimeYi(), 'what to do after 23:00 of 2021-08-%d' % d)
''', 'after 23:00', 'what to do in the double hour is looked up with the wrong day')

# ---------------------------------------------------------------------------------------------- L21
M('L21a', 'L21', ('Lunar.py', 'if li_qiu_solar.isAfter(start):', 'if not li_qiu_solar.isBefore(start):'), '''
for y in range(1900, 2100):
    for off in range(0, 45):
        pass
bad = 0
for y in range(1900, 2100):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立秋"]
    a = Solar.fromYmd(t.getYear(), t.getMonth(), t.getDay()).getLunar()
    if a.getDayGan() == '庚':
        same(a.getFu().toFullString(), '末伏第1天', 'dog day of %s' % t.toYmd())
''', 'a year in which the start of autumn is itself a 庚 day', 'the last dog days begin ten days late')

# ---------------------------------------------------------------------------------------------- L22
M('L22a', 'L22', ('Lunar.py', '''        jq = self.__jieQi["立秋"]
        offset = 4 - jq.getLunar().getDayGanIndex()''', '''        jq = self.__jieQi["立秋"]
        offset = 4 - jq.getLunar().getDayGanIndexExact()'''), '''
n = 0
for y in range(1900, 2100):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立秋"]
    if t.getHour() == 23:
        days = [i for i in range(30, 60) if "秋社" in Solar.fromYmd(t.getYear(), t.getMonth(), t.getDay()).next(i).getLunar().getOtherFestivals()]
        d = Solar.fromYmd(t.getYear(), t.getMonth(), t.getDay()).getLunar().getDayGanIndex()
        same(days, [(4 - d) % 10 + 40], 'days from 立秋 of %d to 秋社' % y)
        n += 1
same(n > 0, True, 'years')
''', 'a year whose 立秋 comes after 23:00 on a 戊 day', 'the autumn sacrifice is ten days off')
M('L22b', 'L22', ('Lunar.py', '''            fs = LunarUtil.OTHER_FESTIVAL[md]
            for f in fs:
                arr.append(f)''', '''            arr = LunarUtil.OTHER_FESTIVAL[md]'''), '''
for i in range(3):
    for y in range(1990, 2030):
        s = Solar.fromYmd(y, 4, 3)
        for k in range(4):
            s.next(k).getLunar().getOtherFestivals()
        s = Solar.fromYmd(y, 3, 10)
        for k in range(20):
            s.next(k).getLunar().getOtherFestivals()
for y in range(1990, 2030):
    fs = Lunar.fromYmd(y, 3, 3).getOtherFestivals() + Lunar.fromYmd(y, 2, 2).getOtherFestivals()
    same(len(fs), len(set(fs)), 'festivals without repeats')
''', 'a history: a day with a fixed festival that is also 寒食 or 春社 or 秋社 was asked before', 'the table of festivals grows')
M('L22c', 'L22', ('Lunar.py', '''        md = "%d-%d" % (self.__month, self.__day)
        if md in LunarUtil.FESTIVAL:''', '''        md = "%d-%d" % (self.__month if self.__month > -10 else -self.__month, self.__day)
        if md in LunarUtil.FESTIVAL:'''), '''
for y in range(1, 10000):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m == 12:
        same('腊八节' in Lunar.fromYmd(y, -12, 8).getFestivals(), False, 'festival in the leap twelfth month of %d' % y)
        break
''', 'a leap twelfth month', 'the festival is listed twice in a year')

# ---------------------------------------------------------------------------------------------- L23
M('L23b', 'L23', ('LunarYear.py', '''        offset = index - Solar.fromJulianDay(self.getMonth(1).getFirstJulianDay()).getLunar().getDayZhiIndex()
        if offset < 0:
            offset += 12''', '''        offset = index - Solar.fromJulianDay(self.getMonths()[2].getFirstJulianDay()).getLunar().getDayZhiIndex()
        if offset < 0:
            offset += 12'''), '''
for y in range(1, 3000):
    ly = LunarYear.fromYear(y)
    first = Lunar.fromYmd(y, 1, 1).getDayZhiIndex()
    same(ly.getZhiShui(), LunarUtil.NUMBER[(4 - first) % 12 + 1] + '龙治水', 'dragons of %d' % y)
''', 'a year after a leap eleventh or twelfth month', 'the sayings count from the wrong month')
M('L16d', 'L16', ('LunarYear.py', 'offset = (62 + yuan * 3 - index) % 9\n        if 0 == offset:\n            offset = 9\n        return NineStar.fromIndex(offset - 1)', 'offset = (62 + yuan * 3 - index) % 9\n        return NineStar.fromIndex(max(offset - 1, 0) if offset or self.__year > 1500 else 8)'), '''
prev = None
for y in range(1501, 1800):
    i = LunarYear.fromYear(y).getNineStar().getIndex()
    if prev is not None:
        same(i, (prev - 1) % 9, 'star of %d' % y)
    prev = i
''', 'a year of the ninth star', 'the star of the year is the first instead of the ninth')

# ---------------------------------------------------------------------------------------------- L24
M('L24a', 'L24', ('LunarMonth.py', '        m = abs(self.__month) % 4\n        if 0 == m:', '        m = self.__month % 4\n        if 0 == m:'), '''
for y in (2017, 2020, 2023, 1984, 2033, 2025):
    m = LunarYear.fromYear(y).getLeapMonth()
    a, b = LunarMonth.fromYm(y, -m).getPositionTaiSui(), LunarMonth.fromYm(y, m).getPositionTaiSui()
    if m % 4 != 2:
        same(a, b, 'tai sui of the leap month %d of %d' % (m, y))
''', 'a leap month of an odd number', 'the direction of the leap month is another')
M('L16e', 'L16', ('LunarMonth.py', '        month_zhi_index = (13 + m) % 12\n', '        month_zhi_index = (1 + self.__index) % 12\n'), '''
for y in (2017, 2020, 2023, 1984, 2025):
    for k in range(1, 13):
        z = (13 + k) % 12
        n = 27 - LunarYear.fromYear(y).getZhiIndex() % 3 * 3 - (3 if z < 2 else 0)
        same(LunarMonth.fromYm(y, k).getNineStar().getIndex(), (n - z) % 9, 'star of month %d of %d' % (k, y))
''', 'the months after a leap month', 'the star of the month is one behind')

# ---------------------------------------------------------------------------------------------- L25
M('L25a', 'L25', ('LunarTime.py', 'self.__ganIndex = (self.__lunar.getDayGanIndexExact() % 5 * 2 + self.__zhiIndex) % 10', 'self.__ganIndex = (self.__lunar.getDayGanIndex() % 5 * 2 + self.__zhiIndex) % 10'), '''
a = Solar.fromYmdHms(2021, 8, 5, 23, 10, 0).getLunar()
same(a.getTime().getGanZhi(), a.getTimeInGanZhi(), 'pillar of the double hour at 23:10')
''', 'after 23:00', 'the stem of the late double hour is that of the early one')
M('L25b', 'L25', ('LunarTime.py', '''        return "%02d:59" % (hour + 1 if hour % 2 != 0 else hour)''', '''        return "%02d:59" % (hour + 1 if hour % 2 != 0 else hour) if hour < 22 else "22:59" if self.__lunar.getMinute() < 59 else "21:59"'''), '''
same(LunarTime.fromYmdHms(2021, 5, 5, 22, 59, 10).getMaxHm(), '22:59', 'end of the double hour of 22:59')
''', 'the last minute before 23:00', 'the double hour ends before its last minute')

# ---------------------------------------------------------------------------------------------- L26
M('L26a', 'L26', ('Foto.py', 'm = LunarMonth.fromYm(self.__lunar.getYear(), self.getMonth())', 'm = LunarMonth.fromYm(self.__lunar.getSolar().getYear(), self.getMonth())'), '''
for y in range(1990, 2030):
    for m in (11, 12):
        f = Foto.fromLunar(Lunar.fromYmd(y, m, 28))
        same(f.isDayZhaiSix(), LunarMonth.fromYm(y, m).getDayCount() != 30, 'fast on the 28th of month %d of %d' % (m, y))
''', 'the 28th of the eleventh or twelfth month, in January or February, when the same month of the next lunar year is longer or shorter', 'the fast of a short month is decided by another month')
M('L26b', 'L26', ('Foto.py', 'md = "%d-%d" % (abs(self.getMonth()), self.getDay())', 'md = "%d-%d" % (self.getMonth(), self.getDay())'), '''
same(len(Foto.fromLunar(Lunar.fromYmd(2020, -4, 8)).getFestivals()), len(Foto.fromLunar(Lunar.fromYmd(2020, 4, 8)).getFestivals()), 'observances in the leap month')
''', 'a leap month', 'observances of leap months are lost')
M('L26c', 'L26', ('util/FotoUtil.py', 'XIU_OFFSET = (11, 13, 15, 17, 19, 21, 24, 0, 2, 4, 7, 9)', 'XIU_OFFSET = (11, 13, 15, 17, 19, 21, 24, 0, 2, 5, 7, 9)'), '''
same(Foto.fromLunar(Lunar.fromYmd(2021, 10, 1)).getXiu(), '心', 'mansion')
''', 'a day of the tenth month', 'the mansion of the Buddhist calendar is off by one in the tenth month')

# ---------------------------------------------------------------------------------------------- L27
M('L27a', 'L27', ('Tao.py', 'return self.__lunar.getDayZhi() == TaoUtil.AN_WU[abs(self.getMonth()) - 1]', 'return self.__lunar.getDayZhi() == TaoUtil.AN_WU[self.getMonth() - 1]'), '''
l = [Lunar.fromYmd(2020, -4, d).getTao().isDayAnWu() for d in range(1, 30)]
w = [Lunar.fromYmd(2020, -4, d).getDayZhi() == TaoUtil.AN_WU[3] for d in range(1, 30)]
same(l, w, 'hidden 戊 days of the leap fourth month of 2020')
''', 'a leap month', 'the hidden 戊 days of a leap month are those of another month')
M('L27b', 'L27', ('Tao.py', '        mz = self.__lunar.getMonthZhi()\n', '        mz = self.__lunar.getMonthZhiExact()\n'), '''
n = 0
for y in range(1900, 2100):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()
    for k in ("立春", "立夏", "立秋", "立冬"):
        s = Solar.fromYmd(t[k].getYear(), t[k].getMonth(), t[k].getDay())
        a, b = s.getLunar(), Solar.fromYmdHms(s.getYear(), s.getMonth(), s.getDay(), 23, 59, 59).getLunar()
        same(a.getTao().isDayTianShe(), b.getTao().isDayTianShe(), '天赦 at both ends of %s' % s.toYmd())
''', 'a day of 天赦 that is the day of a seasonal term', 'the answer changes within the day')
M('L27c', 'L27', ('Tao.py', '        if gz in TaoUtil.BA_HUI:\n            festivals', '        if gz in TaoUtil.BA_HUI and len(festivals) < 3:\n            festivals'), '''
n = 0
for y in range(1900, 2200):
    for md in ((9, 9), (2, 15), (4, 8), (12, 8), (7, 7), (10, 15), (10, 1), (1, 1), (1, 9), (3, 3)):
        t = Lunar.fromYmd(y, md[0], md[1]).getTao()
        if t.isDayBaHui():
            n += 1
            same(TaoUtil.BA_HUI[t.getLunar().getDayInGanZhi()] in [f.getName() for f in t.getFestivals()], True, 'eight meetings listed on %s' % t.toString())
''', 'a day of the eight meetings that has three festivals already', 'the meeting is not listed')

# ---------------------------------------------------------------------------------------------- L28
M('L28a', 'L28', ('Solar.py', '''            for f in SolarUtil.OTHER_FESTIVAL[key]:
                festivals.append(f)
        return festivals''', '''            festivals = SolarUtil.OTHER_FESTIVAL[key]
        return festivals'''), '''
a = Solar.fromYmd(2021, 3, 17).getOtherFestivals()
n = list(a)
a.append('x')
same(Solar.fromYmd(2022, 3, 17).getOtherFestivals(), n, 'festivals of March 17 after a caller changed its list')
''', 'a caller that changes the list it was given, then any later question for that day', 'the shared festival table is handed out')
M('L28c', 'L28', ('LunarYear.py', '''    def getMonthsInYear(self):
        months = []
        for m in self.__months:
            if m.getYear() == self.__year:
                months.append(m)
        return months''', '''    def getMonthsInYear(self):
        if not hasattr(self, "_inYear"):
            self._inYear = [m for m in self.__months if m.getYear() == self.__year]
        return self._inYear'''), '''
a = LunarYear.fromYear(2021).getMonthsInYear()
n = len(a)
a.reverse()
a.pop()
same(len(LunarYear.fromYear(2021).getMonthsInYear()), n, 'months of 2021 after a caller changed its list')
same(LunarMonth.fromYm(2021, 3).next(1).getMonth(), 4, 'the month after the third of 2021')
''', 'a caller that changes the list of months, then any question about the same year', 'the cached year hands out its own list')

# ---------------------------------------------------------------------------------------------- L29
M('L29b', 'L29', ('Lunar.py', 'return Lunar.fromSolar(Solar.fromDate(date))', 'return Lunar.fromSolar(Solar.fromYmdHms(date.year, date.month, date.day, date.hour, date.minute, 0))'), '''
from datetime import datetime
t = Solar.fromYmd(2021, 6, 1).getLunar().getJieQiTable()["立秋"]
d = datetime(t.getYear(), t.getMonth(), t.getDay(), t.getHour(), t.getMinute(), t.getSecond())
same(Lunar.fromDate(d).getMonthInGanZhiExact(), t.getLunar().getMonthInGanZhiExact(), 'exact month pillar at 立秋 from a datetime')
''', 'a datetime within the minute of a term', 'the seconds are dropped')
M('L29c', 'L29', ('Lunar.py', '        return LunarUtil.TIAN_SHEN_TYPE_LUCK[self.getTimeTianShenType()]', '        return LunarUtil.TIAN_SHEN_TYPE_LUCK[self.getTime().getTianShenType() if self.__month > 0 else self.getDayTianShenType()]'), '''
for d in range(1, 25):
    for h in range(24):
        a = Lunar.fromYmdHms(2020, -4, d, h, 0, 0)
        same(a.getTimeTianShenLuck(), a.getTime().getTianShenLuck(), 'luck of the duty god of the hour')
''', 'a leap month', 'the luck of the hour is that of the day')

# ---------------------------------------------------------------------------------------------- more L28
M('L28b', 'L28', ('Tao.py', '''        if md in TaoUtil.FESTIVAL:
            fs = TaoUtil.FESTIVAL[md]
            for f in fs:
                festivals.append(f)
''', '''        if md in TaoUtil.FESTIVAL:
            festivals = TaoUtil.FESTIVAL[md]
'''), '''
a = Lunar.fromYmd(2024, 1, 1)
d = LunarYear.fromYear(2024).getJieQiJulianDays()
w = [f.getName() for f in Tao.fromLunar(Lunar.fromYmd(2020, 1, 9)).getFestivals()]
# a day that has both a festival of its own and one of the eight meetings or terms
seen = {}
for y in range(1900, 2100):
    for m, d in ((1, 1), (1, 15), (3, 3), (5, 5), (7, 7), (7, 15), (9, 9), (10, 15), (11, 11)):
        k = (y, m, d)
        seen[k] = len(Lunar.fromYmd(*k).getTao().getFestivals())
for y in range(1900, 2100, 7):
    for m, d in ((1, 1), (1, 15), (3, 3), (5, 5), (7, 7), (7, 15), (9, 9), (10, 15), (11, 11)):
        same(len(Lunar.fromYmd(y, m, d).getTao().getFestivals()), seen[(y, m, d)], 'festivals of %d-%d-%d asked again' % (y, m, d))
''', 'a day with a festival of its own that is also a term or a meeting day, and any later question for that lunar day', 'the shared table of festivals grows')
M('L28d', 'L28', [('LunarYear.py', '''    YUAN = ("下", "上", "中")
''', '''    YUAN = ("下", "上", "中")

    # 计算用的缓冲区
    __JQ = []
'''), ('LunarYear.py', '''        # 节气
        jq = []
''', '''        # 节气
        jq = LunarYear.__JQ
'''), ('LunarYear.py', '''        fm = -1
        index = -1
        y = prev_year
''', '''        del jq[:]
        fm = -1
        index = -1
        y = prev_year
''')], '''
want = LunarYear.fromYear(2033).getJieQiJulianDays()
old = sys.getrecursionlimit()
n, f = 0, sys._getframe()
while f:
    n, f = n + 1, f.f_back
for k in range(2, 40):
    LunarYear.fromYear(1900)
    try:
        sys.setrecursionlimit(n + k)
        LunarYear.fromYear(1850)
    except RecursionError:
        pass
    finally:
        sys.setrecursionlimit(old)
    same(LunarYear.fromYear(2033).getJieQiJulianDays(), want, 'terms around 2033 after a call that ran out of stack')
''', 'a calculation of a lunar year that fails part-way (stack exhausted), then any other year', 'the leftovers of the failed call shift the terms of the next year')
M('L28e', 'L28', [('SolarMonth.py', '''    def getDays(self):
''', '''    def getDays(self, days=[]):
'''), ('SolarMonth.py', '''        days = []
        d = Solar.fromYmd(self.__year, self.__month, 1)
        days.append(d)
''', '''        if days and days[0].getYear() == self.__year and days[0].getMonth() == self.__month:
            return days
        del days[:]
        d = Solar.fromYmd(self.__year, self.__month, 1)
        days.append(d)
''')], '''
a = SolarMonth.fromYm(2021, 6).getDays()
SolarMonth.fromYm(2021, 7).getDays()
same([x.toYmd() for x in a], ['2021-06-%02d' % d for d in range(1, 31)], 'the list of the days of June kept by a caller')
''', 'a caller that keeps or changes the list, and a question about another month', 'all calls share one list')
M('L28f', 'L28', ('Lunar.py', '''    def __computeJieQi(self, y):
        julian_days = y.getJieQiJulianDays()
        for i in range(0, len(Lunar.JIE_QI_IN_USE)):
            name = Lunar.JIE_QI_IN_USE[i]
            self.__jieQi[name] = Solar.fromJulianDay(julian_days[i])
            self.__jieQiList.append(name)
''', '''    __TERMS = {}

    def __computeJieQi(self, y):
        terms = Lunar.__TERMS
        if terms.get(0) != y.getYear():
            julian_days = y.getJieQiJulianDays()
            terms[0] = y.getYear()
            for i in range(0, len(Lunar.JIE_QI_IN_USE)):
                terms[Lunar.JIE_QI_IN_USE[i]] = Solar.fromJulianDay(julian_days[i])
        for name in Lunar.JIE_QI_IN_USE:
            self.__jieQi[name] = terms[name]
            self.__jieQiList.append(name)
'''), '''
import threading
want = dict((y, Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立夏"].toYmdHms()) for y in (1999, 2000))
sys.setswitchinterval(1e-6)
bad = []


def ask(k):
    for i in range(1500):
        y = 1999 + (i + k) % 2
        g = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()["立夏"].toYmdHms()
        if g != want[y]:
            bad.append(g)
            return


ts = [threading.Thread(target=ask, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
same(bad, [], 'terms asked for by four threads')
''', 'threads that ask for dates of different years at once', 'a date sees terms of another year')

# ---------------------------------------------------------------------------------------------- second round
M('S02c', 'S02', ('Solar.py', '''        if second > 59:
            second -= 60
            minute += 1
''', '''        if second > 59:
            second = 59
'''), '''
for mi in range(60):
    for s in (0, 59):
        a = Solar.fromYmdHms(2021, 5, 31, 7, mi, s)
        same(Solar.fromJulianDay(a.getJulianDay()).toYmdHms(), a.toYmdHms(), 'the instant read back')
''', 'a time of day whose fraction of a minute rounds up to sixty seconds', 'the instant read back is a second early')
M('S08f', 'S08', ('Solar.py', '''                    if 0 == week or 6 == week:
                        work = False
''', '''                    if week % 6 == 0 and (week == 6 or solar.getMonth() != 10 or solar.getYear() != 2000):
                        work = False
'''), '''
same(Solar.fromYmd(2000, 9, 29).next(2, True).toYmd(), '2000-10-03', 'two work days after 2000-09-29')
''', 'a Sunday of October 2000', 'it counts as a work day')
M('S09e', 'S09', ('util/HolidayUtil.py', '''                if not remove:
                    data_in_use += segment
''', '''                if remove:
                    break
                data_in_use += segment
'''), '''
HolidayUtil.fix(None, '20991231~000000000' + '209901010120990101')
same(HolidayUtil.getHoliday(2099, 1, 1) is None, False, '2099-01-01 is not a holiday')
''', 'one correction that removes a day without a record and adds another day after it', 'the rest of the correction is dropped')
M('S01d', 'S01', ('util/SolarUtil.py', '''            for i in range(by + 1, ay):
                days += SolarUtil.getDaysOfYear(i)
''', '''            for i in range(by + 1, ay):
                days += 366 if SolarUtil.isLeapYear(i) else 365
'''), '''
same(Solar.fromYmd(1570, 1, 1).subtract(Solar.fromYmd(1590, 1, 1)), -7295, 'days from 1590-01-01 to 1570-01-01')
''', 'an earlier minus a later date with the whole of 1582 between them', 'the difference counts 1582 as a full year')
M('S04e', 'S04', ('SolarMonth.py', '''        m = self.__month + m % 12 * n
        if m > 12:
            m -= 12
            y += 1
        elif m < 1:
''', '''        m = self.__month + m % 12 * n
        if m > 12:
            m -= 12
            y += 1
        elif m < 0:
'''), '''
same(str(SolarMonth.fromYm(2020, 3).next(-3)), '2019-12', 'three months before March 2020')
''', 'a step back to a December', 'the month is 0')
M('S06d', 'S06', ('Solar.py', '''        m = cm - sm
        if m < 0:
            m += 1440
            days -= 1
''', '''        m = cm - sm
        if m < 0 < days:
            m += 1440
            days -= 1
        elif self.__second < solar.getSecond() and days < 0:
            m -= 0 if m else 1
'''), '''
a, b = Solar.fromYmdHms(2020, 1, 1, 8, 0, 10), Solar.fromYmdHms(2020, 1, 3, 8, 0, 40)
same(a.subtractMinute(b), -2880, 'minutes from 2020-01-03 08:00 to 2020-01-01 08:00')
''', 'the same time of day on an earlier day with the smaller second', 'the difference is a minute more')
M('L09d', 'L09', ('Lunar.py', 'offset = int(noon.getJulianDay()) - 11', 'offset = int(noon.getJulianDay() + (0 if noon.getYear() < 8000 else 0.1 * 9.9999999999)) - 11'), '''
same(Solar.fromYmd(8000, 1, 1).getLunar().getDayGanIndex(), (Solar.fromYmd(7999, 12, 31).getLunar().getDayGanIndex() + 1) % 10, 'stem after the turn of 8000')
same(Solar.fromYmd(9000, 1, 1).getLunar().getDayGanIndex(), (Solar.fromYmd(8999, 12, 31).getLunar().getDayGanIndex() + 1) % 10, 'stem after the turn of 9000')
same(Solar.fromYmd(8500, 3, 1).subtract(Solar.fromYmd(2020, 3, 1)) % 10, (Solar.fromYmd(8500, 3, 1).getLunar().getDayGanIndex() - Solar.fromYmd(2020, 3, 1).getLunar().getDayGanIndex()) % 10, 'stems between 2020 and 8500')
''', 'dates after 8000', 'the day number is rounded up by accident')
M('L11d', 'L11', ('EightChar.py', '''        offset = month_zhi_index + time_zhi_index
        if offset >= 14:
            offset = 26 - offset
        else:
            offset = 14 - offset
        gan_index = (self.__lunar.getYearGanIndexExact() + 1) * 2 + offset
''', '''        offset = month_zhi_index + time_zhi_index
        if offset >= 14:
            offset = 26 - offset
        else:
            offset = 14 - offset
        gan_index = (self.__lunar.getYearGanIndexByLiChun() + 1) * 2 + offset
'''), '''
for y in range(1990, 2030):
    l = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()['立春'].nextHour(-2).getLunar()
    e = l.getEightChar()
    same('甲乙丙丁戊己庚辛壬癸'.index(e.getMingGong()[0]), (l.getYearGanIndexExact() * 2 + 2 + ('寅卯辰巳午未申酉戌亥子丑'.index(e.getMingGong()[1]))) % 10, 'stem of the palace of life at ' + l.getSolar().toYmdHms())
''', 'the day of 立春 before its instant', 'the stem of the palace of life is that of the next year')
M('L11e', 'L11', ('EightChar.py', 'zhi_index = self.__lunar.getMonthZhiIndexExact() + 3', 'zhi_index = self.__lunar.getMonthZhiIndex() + 3'), '''
for y in range(1990, 2030):
    l = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()['清明'].nextHour(-2).getLunar()
    e = l.getEightChar()
    z = '子丑寅卯辰巳午未申酉戌亥'
    same(z.index(e.getTaiYuan()[1]), (z.index(e.getMonthZhi()) + 3) % 12, 'branch of the conception at ' + l.getSolar().toYmdHms())
''', 'the day of a jie before its instant', 'the branch of 胎元 is that of the next month')
M('L12h', 'L12', ('Solar.py', 'if d == 0 and hour == solar_time.getHour():', 'if d == 0 and hour == solar_time.getHour() - solar_time.getHour() % 2 + 1:'), '''
n = 0
for y in range(1900, 2020):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()['清明']
    if t.getHour() % 2 == 0 and t.getHour() > 0:
        s = Solar.fromYmdHms(y, t.getMonth(), t.getDay(), t.getHour(), 59, 59)
        e = s.getLunar().getEightChar()
        r = [x.toYmd() for x in Solar.fromBaZi(e.getYear(), e.getMonth(), e.getDay(), e.getTime(), 2)]
        same(s.toYmd() in r, True, 'birth in the double hour of a term in ' + str(y))
''', 'a jie in the middle hour of the double hour, and a birth after it within that double hour', 'the birth after it is not found')
M('L13e', 'L13', ('eightchar/Yun.py', '''        solar = solar.nextYear(self.__startYear)
        solar = solar.nextMonth(self.__startMonth)
''', '''        solar = solar.nextMonth(self.__startMonth)
        solar = solar.nextYear(self.__startYear)
'''), '''
for y in (1992, 1996, 2000, 2004, 2008):
    for d in range(28, 32):
        for m in (1, 3, 5, 8, 10, 12):
            for g in (0, 1):
                s = Solar.fromYmdHms(y, m, d, 10, 0, 0)
                u = s.getLunar().getEightChar().getYun(g)
                w = s.nextYear(u.getStartYear()).nextMonth(u.getStartMonth()).next(u.getStartDay()).nextHour(u.getStartHour())
                same(u.getStartSolar().toYmdHms(), w.toYmdHms(), 'start of the decades for ' + s.toYmdHms())
''', 'a birth late in a month whose start months lead to February', 'the start is a day early or late')
M('L21d', 'L21', ('Lunar.py', 'add = 6 - xia_zhi.getLunar().getDayGanIndex()', 'add = 6 - xia_zhi.getLunar().getDayGanIndexExact()'), '''
for y in range(1900, 2100):
    t = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()['夏至']
    d = Solar.fromYmd(t.getYear(), t.getMonth(), t.getDay())
    n = 0
    while True:
        if d.getLunar().getDayGan() == '庚':
            n += 1
            if n == 3:
                break
        d = d.next(1)
    f = d.getLunar().getFu()
    same(f is not None and f.toFullString(), '初伏第1天', 'dog days of ' + d.toYmd())
''', 'a summer solstice after 23:00', 'the dog days begin a wrong day')
M('L23f', 'L23', ('LunarYear.py', '''        offset = index - Solar.fromJulianDay(self.getMonth(1).getFirstJulianDay()).getLunar().getDayGanIndex()
''', '''        offset = index - Solar.fromJulianDay(self.__months[3 if self.__months[2].isLeap() or self.__months[2].getMonth() == 12 else 2].getFirstJulianDay()).getLunar().getDayGanIndex()
'''), '''
bad = []
for y in list(range(1, 300)) + list(range(600, 800)) + [2034, 2263, 3359]:
    ly = LunarYear.fromYear(y)
    l = Solar.fromJulianDay(ly.getMonth(1).getFirstJulianDay()).getLunar()
    n = 1
    while l.getDayGan() != '甲':
        l = l.next(1)
        n += 1
    if ly.getJiaTian() != '甲田%s分' % '零一二三四五六七八九十'[n]:
        bad.append(y)
same(bad, [], 'years with a wrong 甲田')
''', 'a year whose table begins with other months (the calendar reforms of the first century)', 'the saying counts from another month')
M('L24d', 'L24', ('LunarMonth.py', '''        return "%d年%s%s月(%d天)" % (self.__year, ("闰" if self.isLeap() else ""), LunarUtil.MONTH[abs(self.__month)], self.__dayCount)
''', '''        return "%d年%s%s月(%d天)" % (self.__year, ("闰" if self.isLeap() and self.__month > -12 else ""), LunarUtil.MONTH[abs(self.__month)], self.__dayCount)
'''), '''
same(LunarYear.fromYear(3358).getMonth(-12).toString()[:6], '3358年闰', 'text of the leap twelfth month of 3358')
''', 'a leap twelfth month', 'its text lacks the leap mark')

# ---------------------------------------------------------------------------------------------- kept answers and shortcuts
M('L28g', 'L28', [('Solar.py', '''        self.__second = second

    @staticmethod
    def fromDate(date):''', '''        self.__second = second
        self.__lunar = None

    @staticmethod
    def fromDate(date):'''), ('Solar.py', '''        return Lunar.fromSolar(self)
''', '''        if self.__lunar is None:
            self.__lunar = Lunar.fromSolar(self)
        return self.__lunar
''')], '''
s = Solar.fromYmdHms(1988, 2, 15, 23, 30, 0)
want = s.getLunar().getEightChar().toString()
s.getLunar().getEightChar().setSect(1)
same(s.getLunar().getEightChar().getSect(), 2, 'school of a chart asked for anew')
same(s.getLunar().getEightChar().toString(), want, 'chart of 1988-02-15 23:30')
''', 'a caller that changes the school of the chart of a lunar date, then asks the same solar object for its lunar date again', 'the lunar date handed out before is handed out again, changed')
M('L28h', 'L28', [('util/LunarUtil.py', '''        for i in range(0, len(LunarUtil.JIA_ZI)):
            if LunarUtil.JIA_ZI[i] == gan_zhi:
                return i
        return -1
''', '''        if LunarUtil.JIA_ZI_INDEX is None:
            LunarUtil.JIA_ZI_INDEX = {}
            for i in range(0, len(LunarUtil.JIA_ZI)):
                LunarUtil.JIA_ZI_INDEX[LunarUtil.JIA_ZI[i]] = i
        return LunarUtil.JIA_ZI_INDEX.get(gan_zhi, -1)
'''), ('util/LunarUtil.py', '''    @staticmethod
    def getJiaZiIndex(gan_zhi):''', '''    JIA_ZI_INDEX = None

    @staticmethod
    def getJiaZiIndex(gan_zhi):''')], '''
import threading
# another thread asks while the first one has only begun to build the index
real = LunarUtil.JIA_ZI
seen = []


class Slow(tuple):
    def __getitem__(self, i):
        if i == 5 and not seen:
            seen.append(None)
            t = threading.Thread(target=lambda: seen.append(LunarUtil.getJiaZiIndex('癸亥')))
            t.start()
            t.join(20)
        return tuple.__getitem__(self, i)


LunarUtil.JIA_ZI = Slow(real)
LunarUtil.getJiaZiIndex('甲子')
LunarUtil.JIA_ZI = real
if not seen:
    seen = [None, LunarUtil.getJiaZiIndex('癸亥')]
same(seen[1], 59, 'index of 癸亥 asked by another thread')
''', 'two threads that ask for the first time at once', 'the second thread sees a half-built index of the sixty pillars')
M('S03d', 'S03', ('Solar.py', '''        return Solar(date.year, date.month, date.day, date.hour, date.minute, date.second)
''', '''        solar = Solar(date.year, date.month, date.day, date.hour, date.minute, date.second)
        if date.microsecond >= 999500:
            # 毫秒四舍五入进位
            j = Solar.fromJulianDay(solar.getJulianDay() + 1 / 86400.0)
            return j
        return solar
'''), '''
from datetime import datetime
same(Solar.fromDate(datetime(2024, 12, 31, 23, 59, 59, 999999)).toYmdHms(), '2024-12-31 23:59:59', 'the last microsecond of 2024')
''', 'a datetime in the last half millisecond of a second', 'the instant is a second later')
M('L04c', 'L04', ('Lunar.py', '''        self.__solar = Solar.fromYmdHms(noon.getYear(), noon.getMonth(), noon.getDay(), hour, minute, second)
''', '''        self.__solar = Solar.fromYmdHms(noon.getYear(), noon.getMonth(), noon.getDay(), hour % 24, minute, second)
'''), '''
for f in (lambda: Lunar.fromYmdHms(2020, 1, 1, 24, 0, 0), lambda: LunarTime.fromYmdHms(2020, 1, 1, -1, 30, 0)):
    try:
        x = f()
    except Exception:
        continue
    same(str(x), 'an error', 'a lunar date at an hour that does not exist')
''', 'an hour of 24 or below 0', 'a lunar date at an hour that does not exist is built')
M('L04d', 'L04', ('Lunar.py', '''        if lunar_day > days:
''', '''        if lunar_day > days and not (30 == lunar_day and lunar_month < 0):
'''), '''
bad = []
for y in range(1900, 2100):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m > 0 and LunarMonth.fromYm(y, -m).getDayCount() == 29:
        try:
            bad.append(Lunar.fromYmd(y, -m, 30).getSolar().toYmd())
        except Exception:
            pass
same(bad, [], 'days 30 of leap months of 29 days')
''', 'day 30 of a leap month of 29 days', 'a date that does not exist is built')
M('S05d', 'S05', [('SolarMonth.py', '''        weeks = []
        week = SolarWeek.fromYmd(self.__year, self.__month, 1, start)
''', '''        weeks = []
        if self.__weeks is not None and (self.__weeks[0].getFirstDay().getMonth() == self.__month) == (Solar.fromYmd(self.__year, self.__month, 1).getWeek() == start):
            return list(self.__weeks)
        week = SolarWeek.fromYmd(self.__year, self.__month, 1, start)
'''), ('SolarMonth.py', '''                break
        return weeks
''', '''                break
        self.__weeks = weeks
        return list(weeks)
'''), ('SolarMonth.py', '''        self.__month = month

''', '''        self.__month = month
        self.__weeks = None

''')], '''
m = SolarMonth.fromYm(2022, 5)
m.getWeeks(1)
same([w.getFirstDay().toYmd() for w in m.getWeeks(3)], ['2022-04-27', '2022-05-04', '2022-05-11', '2022-05-18', '2022-05-25'], 'weeks of 2022-05 that begin on Wednesdays')
''', 'the same month asked for weeks that begin on one weekday, then on another', 'the weeks are those of the first question')
M('L13f', 'L13', [('EightChar.py', '''        return Yun(self, gender, sect)
''', '''        key = gender + sect
        if key not in self.__yun:
            self.__yun[key] = Yun(self, gender, sect)
        return self.__yun[key]
'''), ('EightChar.py', '''        self.__sect = 2
        self.__lunar = lunar
''', '''        self.__sect = 2
        self.__lunar = lunar
        self.__yun = {}
''')], '''
def chart():
    return Solar.fromYmdHms(1988, 3, 15, 10, 0, 0).getLunar().getEightChar()


e = chart()
e.getYun(1, 1)
same(e.getYun(0, 2).getGender(), 0, 'sex of the decades')
same(e.getYun(0, 2).getStartSolar().toYmdHms(), chart().getYun(0, 2).getStartSolar().toYmdHms(), 'start of the decades of the same chart')
''', 'the same chart asked for a man in the first school, then for a woman in the second', 'the decades are those of the man')
M('L28i', 'L28', [('LunarYear.py', '''            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
                y = LunarYear(lunar_year)
                LunarYear.__CACHE_YEAR = y
            else:
                y = LunarYear.__CACHE_YEAR
''', '''            y = LunarYear.__CACHE_YEAR.get(lunar_year)
            if y is None:
                if len(LunarYear.__CACHE_YEAR) >= 64:
                    LunarYear.__CACHE_YEAR.clear()
                y = LunarYear.__new__(LunarYear)
                LunarYear.__CACHE_YEAR[lunar_year] = y
                y.__init__(lunar_year)
'''), ('LunarYear.py', '''    __CACHE_YEAR = None
''', '''    __CACHE_YEAR = {}
''')], '''
real = ShouXingUtil.qiAccurate2
calls = []


def broken(*a, **k):
    calls.append(1)
    if len(calls) == 9:
        raise MemoryError('out of memory')
    return real(*a, **k)


ShouXingUtil.qiAccurate2 = broken
try:
    LunarYear.fromYear(1987)
except MemoryError:
    pass
ShouXingUtil.qiAccurate2 = real
try:
    n = len(LunarYear.fromYear(1987).getMonths())
except Exception as e:
    n = repr(e)
same(n, 15, 'months of 1987 after a calculation that failed')
''', 'a calculation of a year that fails part-way, then the same year again', 'the half-built year is kept')
M('L12k', 'L12', [('Solar.py', '''        end_year = datetime.now().year
''', '''        end_year = Solar.__END_YEAR
'''), ('Solar.py', '''    J2000 = 2451545
''', '''    J2000 = 2451545
    # 查找的结束年
    __END_YEAR = datetime.now().year
''')], '''
import datetime as d
import lunar_python.Solar as module


class Later(d.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2061, 1, 1)


old = getattr(sys.modules['lunar_python.Solar'], 'datetime', None)
sys.modules['lunar_python.Solar'].datetime = Later
c = Solar.fromYmdHms(2060, 5, 17, 10, 30, 0).getLunar().getEightChar()
same([s.toYmd() for s in Solar.fromBaZi(c.getYear(), c.getMonth(), c.getDay(), c.getTime(), 2, 2050)], ['2060-05-17'], 'search for a birth of 2060 when the clock shows 2061')
''', 'a process that runs over the turn of the year, then a birth of the new year', 'births of the new year are not found')
M('L12l', 'L12', ('Solar.py', '''        while y <= end_year:
''', '''        while y < end_year:
'''), '''
import datetime as d
y = d.datetime.now().year
c = Solar.fromYmdHms(y, 5, 17, 10, 30, 0).getLunar().getEightChar()
same([s.toYmd() for s in Solar.fromBaZi(c.getYear(), c.getMonth(), c.getDay(), c.getTime(), 2, y - 3)], ['%d-05-17' % y], 'search for a birth of this year')
''', 'a birth of the present year', 'it is not found')
RACE = '''
import threading


def race(f, g, at):
    """f(), and before its at-th line inside the library g() in another thread."""
    left, out = [at], []

    def tr(frame, event, arg):
        if 'lunar_python' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                t = threading.Thread(target=lambda: out.append(g()), daemon=True)
                sys.settrace(None)
                t.start()
                t.join(0.3)
                sys.settrace(tr)
        return tr
    sys.settrace(tr)
    try:
        r = f()
    finally:
        sys.settrace(None)
    return r, left[0] > 0
'''
M('L28j', 'L28', [('util/LunarUtil.py', '''        arr = []
        day = LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi))
        time = LunarUtil.__hex(LunarUtil.getJiaZiIndex(time_gan_zhi))
        index = LunarUtil.__TIME_YI_JI.find(day + time + "=")
        if index > -1:
            left = LunarUtil.__TIME_YI_JI[index + 5:]
            if "=" in left:
                left = left[:left.find("=") - 4]
            ys = left[:left.find(",")]
            for i in range(0, len(ys), 2):
                arr.append(LunarUtil.__YI_JI[int(ys[i:i + 2], 16)])
        if len(arr) < 1:
            arr.append("无")
        return arr
''', '''        # 共用缓冲，避免反复分配
        arr = LunarUtil.__BUFFER
        del arr[:]
        day = LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi))
        time = LunarUtil.__hex(LunarUtil.getJiaZiIndex(time_gan_zhi))
        index = LunarUtil.__TIME_YI_JI.find(day + time + "=")
        if index > -1:
            left = LunarUtil.__TIME_YI_JI[index + 5:]
            if "=" in left:
                left = left[:left.find("=") - 4]
            ys = left[:left.find(",")]
            for i in range(0, len(ys), 2):
                arr.append(LunarUtil.__YI_JI[int(ys[i:i + 2], 16)])
        if len(arr) < 1:
            arr.append("无")
        return arr[:]
'''), ('util/LunarUtil.py', '''    BASE_MONTH_ZHI_INDEX = 2
''', '''    BASE_MONTH_ZHI_INDEX = 2
    __BUFFER = []
''')], RACE + '''
f = lambda: LunarUtil.getTimeYi('甲子', '甲子')
want = f()
at = 1
while True:
    got, end = race(f, lambda: LunarUtil.getTimeYi('乙丑', '丙子'), at)
    same(got, want, 'what to do at the hour 甲子 of a day 甲子, asked by two threads at once')
    if end:
        break
    at += 1
''', 'two threads that ask what to do in an hour at the same time', 'the answer mixes both questions')
M('L28k', 'L28', [('SolarWeek.py', '''        solar = Solar.fromYmd(self.__year, self.__month, self.__day)
        prev = solar.getWeek() - self.__start
        if prev < 0:
            prev += 7
        return solar.next(-prev)
''', '''        key = (self.__year, self.__month, self.__day, self.__start)
        if SolarWeek.LAST_KEY != key:
            solar = Solar.fromYmd(self.__year, self.__month, self.__day)
            prev = solar.getWeek() - self.__start
            if prev < 0:
                prev += 7
            SolarWeek.LAST_KEY = key
            SolarWeek.LAST_DAY = solar.next(-prev)
        return SolarWeek.LAST_DAY
'''), ('SolarWeek.py', '''    def __init__(self''', '''    LAST_KEY = None
    LAST_DAY = None

    def __init__(self''')], RACE + '''
a, b = SolarWeek.fromYmd(2022, 5, 17, 1), SolarWeek.fromYmd(1999, 12, 31, 0)
f = lambda: a.getFirstDay().toYmd()
at = 1
while True:
    got, end = race(f, lambda: b.getFirstDay(), at)
    same(got, '2022-05-16', 'first day of the week of 2022-05-17, asked by two threads at once')
    b.getFirstDay()
    if end:
        break
    at += 1
''', 'two threads that ask for weeks at the same time', 'the first day is that of the other week')
M('S09h', 'S09', [('util/HolidayUtil.py', '''        if month == 0:
            arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
        else:
            arr = HolidayUtil.__findHolidaysForward(y + HolidayUtil.__padding(month))
        return arr
''', '''        key = y.replace("-", "") if month == 0 else y + HolidayUtil.__padding(month)
        arr = HolidayUtil.__FOUND.get(key)
        if arr is None:
            arr = HolidayUtil.__findHolidaysForward(key)
            HolidayUtil.__FOUND[key] = arr
        return arr[:]
'''), ('util/HolidayUtil.py', '''            HolidayUtil.__IN_USE = HolidayUtil.__fixed(names, data)
''', '''            HolidayUtil.__IN_USE = HolidayUtil.__fixed(names, data)
            HolidayUtil.__FOUND.clear()
'''), ('util/HolidayUtil.py', '''    __LOCK = threading.Lock()
''', '''    __LOCK = threading.Lock()
    # 已查找过的月份和年份，修正后清空
    __FOUND = {}
''')], RACE + '''
at = 1
while True:
    got, end = race(lambda: len(HolidayUtil.getHolidays(2077, 5)), lambda: HolidayUtil.fix(None, '207705013020770501'), at)
    if end:
        break
    same(len(HolidayUtil.getHolidays(2077, 5)), 1, 'holidays of 2077-05 after a correction that another thread looked up during')
    HolidayUtil.fix(None, '20770501~000000000')
    at += 1
''', 'a look-up of a month that has begun when another thread corrects it', 'the month keeps the records it had before the correction')
M('S09i', 'S09', ('util/HolidayUtil.py', '''            segment = data[:HolidayUtil.__SIZE]
            day = segment[:8]
            remove = HolidayUtil.__TAG_REMOVE == segment[8:9]
''', '''            segment = data[:HolidayUtil.__SIZE]
            day = segment[:8]
            remove = segment[8:].startswith(HolidayUtil.__TAG_REMOVE) or segment[8:9] > "w"
'''), '''
N = list(HolidayUtil.NAMES) + ['节%d' % i for i in range(80)]
HolidayUtil.fix(N, '20500102' + chr(48 + 75) + '120500101')
same(HolidayUtil.getHoliday('2050-01-02') is None, False, '2050-01-02 is without its record')
''', 'a correction with a name past the seventieth', 'the day is removed')
