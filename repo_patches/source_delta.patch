From a5dcb162f9af222abb4f9254c49f9baefb092354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/26] fix: reject solar days greater than 31 (the check
 tested the month instead of the day)

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index d3be6b0..ede06c1 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -19,7 +19,7 @@ class Solar:
                 raise Exception("wrong solar year %d month %d day %d" % (year, month, day))
         if month < 1 or month > 12:
             raise Exception("wrong month %d" % month)
-        if day < 1 or month > 31:
+        if day < 1 or day > 31:
             raise Exception("wrong day %d" % day)
         if hour < 0 or hour > 23:
             raise Exception("wrong hour %d" % hour)
-- 
2.43.0


From c571b0b5e7b67e662fc0eb9d077972e37066a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 02/26] fix: carry a julian day rounded up to midnight into the
 next calendar day

---
 lunar_python/Solar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index ede06c1..b2d4e93 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -74,8 +74,7 @@ class Solar:
             minute -= 60
             hour += 1
         if hour > 23:
-            hour -= 24
-            day += 1
+            return Solar(year, month, day, hour - 24, minute, second).next(1)
         return Solar(year, month, day, hour, minute, second)
 
     @staticmethod
-- 
2.43.0


From 40d2c87a1c089f4599b7b4b2243e22d27611c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 03/26] fix: LunarTime.getNineStar always raised TypeError, use
 the nine star of the hour of its lunar date

---
 lunar_python/LunarTime.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/lunar_python/LunarTime.py b/lunar_python/LunarTime.py
index 98716ac..7b54ce7 100644
--- a/lunar_python/LunarTime.py
+++ b/lunar_python/LunarTime.py
@@ -1,5 +1,4 @@
 # -*- coding: utf-8 -*-
-from . import NineStar
 from .util import LunarUtil
 
 
@@ -109,24 +108,7 @@ class LunarTime:
         return LunarUtil.getTimeJi(self.__lunar.getDayInGanZhiExact(), self.getGanZhi())
 
     def getNineStar(self):
-        solar_ymd = self.__lunar.getSolar().toYmd()
-        jie_qi = self.__lunar.getJieQiTable()
-        asc = False
-        if jie_qi["冬至"] <= solar_ymd < jie_qi["夏至"]:
-            asc = True
-        start = 7 if asc else 3
-        day_zhi = self.__lunar.getDayZhi()
-        if day_zhi in "子午卯酉":
-            start = 1 if asc else 9
-        elif day_zhi in "辰戌丑未":
-            start = 4 if asc else 6
-        index = start + self.__zhiIndex - 1 if asc else start - self.__zhiIndex - 1
-
-        if index > 8:
-            index -= 9
-        if index < 0:
-            index += 9
-        return NineStar.fromIndex(index)
+        return self.__lunar.getTimeNineStar()
 
     def getGanIndex(self):
         return self.__ganIndex
-- 
2.43.0


From 232caba85981a1d69a9ce7865c83365c29180231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/26] fix: count the first partial week of a month that
 begins before the configured first weekday

---
 lunar_python/util/SolarUtil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/util/SolarUtil.py b/lunar_python/util/SolarUtil.py
index 5d608b6..0b1af4c 100644
--- a/lunar_python/util/SolarUtil.py
+++ b/lunar_python/util/SolarUtil.py
@@ -252,7 +252,10 @@ class SolarUtil:
         :return: 天数
         """
         from .. import Solar
-        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + Solar.fromYmd(year, month, 1).getWeek() - start) * 1.0 / len(SolarUtil.WEEK)))
+        offset = Solar.fromYmd(year, month, 1).getWeek() - start
+        if offset < 0:
+            offset += len(SolarUtil.WEEK)
+        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + offset) * 1.0 / len(SolarUtil.WEEK)))
 
     @staticmethod
     def getDaysBetween(ay: int, am: int, ad: int, by: int, bm: int, bd: int):
-- 
2.43.0


From c95f6c811f6a482738d95534f9c874e2c80ca4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/26] fix: number the weeks of October 1582 by the days that
 exist

---
 lunar_python/SolarWeek.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 7f24a18..d1071b6 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -60,7 +60,8 @@ class SolarWeek:
         offset = Solar.fromYmd(self.__year, self.__month, 1).getWeek() - self.__start
         if offset < 0:
             offset += 7
-        return int(ceil((self.__day + offset) * 1.0 / 7))
+        days = SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) - SolarUtil.getDaysInYear(self.__year, self.__month, 1) + 1
+        return int(ceil((days + offset) * 1.0 / 7))
 
     def getIndexInYear(self):
         """
-- 
2.43.0


From 04f300ecbe5a1b5aba4a0f1fd70eab2b95263f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/26] fix: release the lunar year cache lock when building a
 year fails

---
 lunar_python/LunarYear.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a4f7bf2..27feb0a 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -41,13 +41,12 @@ class LunarYear:
 
     @staticmethod
     def fromYear(lunar_year):
-        LunarYear.__lock.acquire()
-        if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
-            y = LunarYear(lunar_year)
-            LunarYear.__CACHE_YEAR = y
-        else:
-            y = LunarYear.__CACHE_YEAR
-        LunarYear.__lock.release()
+        with LunarYear.__lock:
+            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
+                y = LunarYear(lunar_year)
+                LunarYear.__CACHE_YEAR = y
+            else:
+                y = LunarYear.__CACHE_YEAR
         return y
 
     def compute(self):
-- 
2.43.0


From e9d9633668962212041414e30a23d4ecb32645a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 07/26] fix: step lunar months through the months of their own
 year so that the result does not depend on the path

---
 lunar_python/LunarMonth.py | 65 ++++++++++----------------------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/lunar_python/LunarMonth.py b/lunar_python/LunarMonth.py
index 3cf414f..8a916fb 100644
--- a/lunar_python/LunarMonth.py
+++ b/lunar_python/LunarMonth.py
@@ -122,52 +122,19 @@ class LunarMonth:
         :param n: 月数
         :return: 阴历月
         """
-        if 0 == n:
-            return LunarMonth.fromYm(self.__year, self.__month)
-        elif n > 0:
-            rest = n
-            ny = self.__year
-            iy = ny
-            im = self.__month
-            index = 0
-            months = LunarYear.fromYear(ny).getMonths()
-            while True:
-                size = len(months)
-                for i in range(0, size):
-                    m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
-                        index = i
-                        break
-                more = size - index - 1
-                if rest < more:
-                    break
-                rest -= more
-                last_month = months[size - 1]
-                iy = last_month.getYear()
-                im = last_month.getMonth()
-                ny += 1
-                months = LunarYear.fromYear(ny).getMonths()
-            return months[index + rest]
-        else:
-            rest = -n
-            ny = self.__year
-            iy = ny
-            im = self.__month
-            index = 0
-            months = LunarYear.fromYear(ny).getMonths()
-            while True:
-                size = len(months)
-                for i in range(0, size):
-                    m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
-                        index = i
-                        break
-                if rest <= index:
-                    break
-                rest -= index
-                first_month = months[0]
-                iy = first_month.getYear()
-                im = first_month.getMonth()
-                ny -= 1
-                months = LunarYear.fromYear(ny).getMonths()
-            return months[index - rest]
+        year = self.__year
+        months = LunarYear.fromYear(year).getMonthsInYear()
+        index = n
+        for i in range(0, len(months)):
+            if months[i].getMonth() == self.__month:
+                index += i
+                break
+        while index < 0:
+            year -= 1
+            months = LunarYear.fromYear(year).getMonthsInYear()
+            index += len(months)
+        while index >= len(months):
+            index -= len(months)
+            year += 1
+            months = LunarYear.fromYear(year).getMonthsInYear()
+        return months[index]
-- 
2.43.0


From 58c2ddde2463c77092f49f671aab0da6fc735c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 08/26] fix: derive the Buddhist year from the lunar year, also
 when the lunar year begins before the solar year

---
 lunar_python/Foto.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/Foto.py b/lunar_python/Foto.py
index aa31ede..2e62564 100644
--- a/lunar_python/Foto.py
+++ b/lunar_python/Foto.py
@@ -29,11 +29,7 @@ class Foto:
         return self.__lunar
 
     def getYear(self):
-        sy = self.__lunar.getSolar().getYear()
-        y = sy - Foto.DEAD_YEAR
-        if sy == self.__lunar.getYear():
-            y += 1
-        return y
+        return self.__lunar.getYear() - Foto.DEAD_YEAR + 1
 
     def getMonth(self):
         return self.__lunar.getMonth()
-- 
2.43.0


From e3c2bce061b2795098c515de0efd407aff50923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 09/26] fix: year pillar of lunar years that begin before their
 solar year

---
 lunar_python/Lunar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 7ad6a7d..70b21f2 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -99,6 +99,12 @@ class Lunar:
             if solar_ymd_hms >= li_chun_ymd_hms:
                 g_exact += 1
                 z_exact += 1
+        else:
+            # 阴历年份大于阳历年份，尚未到阴历年份的立春
+            g -= 1
+            z -= 1
+            g_exact -= 1
+            z_exact -= 1
 
         self.__yearGanIndex = year_gan_index
         self.__yearZhiIndex = year_zhi_index
-- 
2.43.0


From cb33eac3785d639edd992fc290c5508120ab474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 10/26] fix: renaming a solar term resets whether it is a jie
 or a qi

---
 lunar_python/JieQi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lunar_python/JieQi.py b/lunar_python/JieQi.py
index 24250e2..bba5082 100644
--- a/lunar_python/JieQi.py
+++ b/lunar_python/JieQi.py
@@ -27,6 +27,8 @@ class JieQi:
         """
         from . import Lunar
         self.__name = name
+        self.__jie = False
+        self.__qi = False
         for i in range(0, len(Lunar.JIE_QI)):
             if name == Lunar.JIE_QI[i]:
                 if i % 2 == 0:
-- 
2.43.0


From d52eda7ea8b484def4f39dab8f904b317cd3fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 11/26] fix: the current solar term carries the instant of the
 term, as the current jie and qi do

---
 lunar_python/Lunar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 70b21f2..fb78027 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -1099,7 +1099,7 @@ class Lunar:
         for key in self.__jieQi:
             d = self.__jieQi[key]
             if d.getYear() == self.__solar.getYear() and d.getMonth() == self.__solar.getMonth() and d.getDay() == self.__solar.getDay():
-                return JieQi(self.__convertJieQi(key), self.__solar)
+                return JieQi(self.__convertJieQi(key), d)
         return None
 
     def getCurrentJie(self):
-- 
2.43.0


From 596dc002b0887ea2a3b57e79e9e4c117027d138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/26] fix: wrong character in the sexagenary days of the day
 tai sui position

---
 lunar_python/Lunar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index fb78027..0404087 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -456,11 +456,11 @@ class Lunar:
         return LunarUtil.POSITION_DESC[self.getMonthPositionTaiSui(sect)]
 
     def __getDayPositionTaiSui(self, day_in_gan_zhi, year_zhi_index):
-        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,已巳":
+        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,己巳":
             p = "震"
-        elif day_in_gan_zhi in "丙子,丁丑,戊寅,已卯,庚辰,辛巳":
+        elif day_in_gan_zhi in "丙子,丁丑,戊寅,己卯,庚辰,辛巳":
             p = "离"
-        elif day_in_gan_zhi in "戊子,已丑,庚寅,辛卯,壬辰,癸巳":
+        elif day_in_gan_zhi in "戊子,己丑,庚寅,辛卯,壬辰,癸巳":
             p = "中"
         elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":
             p = "兑"
-- 
2.43.0


From 32f36df7090f8741cca2a698b6868ed25e6d3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 13/26] fix: years before 1000 matched the holidays of later
 years

---
 lunar_python/util/HolidayUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index f7043b5..2311db6 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -100,7 +100,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -109,7 +109,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidays(year, month=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -118,7 +118,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidaysByTarget(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysBackward(y.replace("-", ""))
         else:
-- 
2.43.0


From cf12cff77f4e8e42792f0c263af3d6d8041951a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 14/26] fix: look up every matching holiday record, also when
 the records are not adjacent

---
 lunar_python/util/HolidayUtil.py | 75 ++++++++------------------------
 1 file changed, 18 insertions(+), 57 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 2311db6..7f14d5f 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -32,71 +32,32 @@ class HolidayUtil:
         return Holiday(day, name, work, target)
 
     @staticmethod
-    def __buildHolidayBackward(s):
-        size = len(s)
-        day = s[size - 18:size - 10]
-        name = HolidayUtil.__NAMES_IN_USE[ord(s[size - 10:size - 9]) - HolidayUtil.__ZERO]
-        work = ord(s[size - 9:size - 8]) == HolidayUtil.__ZERO
-        target = s[size - 8:]
-        from .. import Holiday
-        return Holiday(day, name, work, target)
-
-    @staticmethod
-    def __findForward(key):
-        start = HolidayUtil.__DATA_IN_USE.find(key)
-        if start < 0:
-            return None
-        right = HolidayUtil.__DATA_IN_USE[start:]
-        n = len(right) % HolidayUtil.__SIZE
-        if n > 0:
-            right = right[n:]
-        while not right.startswith(key) and len(right) >= HolidayUtil.__SIZE:
-            right = right[HolidayUtil.__SIZE:]
-        return right
+    def __findIndexes(key, offset):
+        """
+        查找从每条数据的指定偏移位置开始匹配的数据
+        :param key: 年月日
+        :param offset: 偏移位置，0为当天年月日，10为节假日当天年月日
+        :return: 数据的起始下标列表
+        """
+        indexes = []
+        i = HolidayUtil.__DATA_IN_USE.find(key)
+        while i > -1:
+            if i % HolidayUtil.__SIZE == offset:
+                indexes.append(i - offset)
+            i = HolidayUtil.__DATA_IN_USE.find(key, i + 1)
+        return indexes
 
     @staticmethod
-    def __findBackward(key):
-        start = HolidayUtil.__DATA_IN_USE.rfind(key)
-        if start < 0:
-            return None
-        key_size = len(key)
-        left = HolidayUtil.__DATA_IN_USE[0:start + key_size]
-        size = len(left)
-        n = size % HolidayUtil.__SIZE
-        if n > 0:
-            left = left[0:size - n]
-        size = len(left)
-        while size - key_size != left.rfind(key) and size >= HolidayUtil.__SIZE:
-            left = left[0:size - HolidayUtil.__SIZE]
-            size = len(left)
-        return left
+    def __findHolidays(key, offset):
+        return [HolidayUtil.__buildHolidayForward(HolidayUtil.__DATA_IN_USE[i:i + HolidayUtil.__SIZE]) for i in HolidayUtil.__findIndexes(key, offset)]
 
     @staticmethod
     def __findHolidaysForward(key):
-        arr = []
-        s = HolidayUtil.__findForward(key)
-        if s is None:
-            return arr
-        while s.startswith(key):
-            arr.append(HolidayUtil.__buildHolidayForward(s))
-            s = s[HolidayUtil.__SIZE:]
-        return arr
+        return HolidayUtil.__findHolidays(key, 0)
 
     @staticmethod
     def __findHolidaysBackward(key):
-        arr = []
-        s = HolidayUtil.__findBackward(key)
-        if s is None:
-            return arr
-        size = len(s)
-        key_size = len(key)
-
-        while size - key_size == s.rfind(key):
-            arr.append(HolidayUtil.__buildHolidayBackward(s))
-            s = s[0:size - HolidayUtil.__SIZE:]
-            size = len(s)
-        arr.reverse()
-        return arr
+        return HolidayUtil.__findHolidays(key, 10)
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-- 
2.43.0


From 778694a7d50a326a38e5754e148ee0ff3379fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 15/26] fix: holiday corrections replace the record of their
 day whatever names are in use

---
 lunar_python/util/HolidayUtil.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 7f14d5f..a33bbff 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -117,24 +117,15 @@ class HolidayUtil:
             HolidayUtil.__NAMES_IN_USE = names
         if data is None:
             return
-        append = ""
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
             day = segment[:8]
             remove = HolidayUtil.__TAG_REMOVE == segment[8:9]
-            holiday = HolidayUtil.getHoliday(day)
-            if holiday is None:
+            indexes = HolidayUtil.__findIndexes(day, 0)
+            if len(indexes) < 1:
                 if not remove:
-                    append += segment
+                    HolidayUtil.__DATA_IN_USE += segment
             else:
-                name_index = -1
-                for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
-                    if HolidayUtil.__NAMES_IN_USE[i] == holiday.getName():
-                        name_index = i
-                        break
-                if name_index > -1:
-                    old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
-                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+                i = indexes[0]
+                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:i] + ("" if remove else segment) + HolidayUtil.__DATA_IN_USE[i + HolidayUtil.__SIZE:]
             data = data[HolidayUtil.__SIZE:]
-        if len(append) > 0:
-            HolidayUtil.__DATA_IN_USE += append
-- 
2.43.0


From 886e1a48cb392da3e9c25d547350de550e5e753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 16/26] fix: stepping weeks back into October 1582 starts from
 the last day of that month

---
 lunar_python/SolarWeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index d1071b6..35a3187 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -153,7 +153,7 @@ class SolarWeek:
                             week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                             week_month = week.getMonth()
                         else:
-                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()))
+                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), 1).next(SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()) - 1)
                             week = SolarWeek.fromYmd(solar.getYear(), solar.getMonth(), solar.getDay(), self.__start)
                     month = week_month
                 n -= 1 if plus else -1
-- 
2.43.0


From f823f550aebdf6514ef4931f7d87998ac7fee41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 17/26] fix: order solar terms by date and not by text, so that
 December 9999 finds the terms of the year 10000

---
 lunar_python/Lunar.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 0404087..a39a023 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -115,9 +115,23 @@ class Lunar:
         self.__yearGanIndexExact = (g_exact + 10 if g_exact < 0 else g_exact) % 10
         self.__yearZhiIndexExact = (z_exact + 12 if z_exact < 0 else z_exact) % 12
 
+    @staticmethod
+    def __toYmd(solar):
+        """
+        用于比较先后的年月日，公元9999年12月的节气交接可能在10000年，不能按字符串比较
+        """
+        return solar.getYear(), solar.getMonth(), solar.getDay()
+
+    @staticmethod
+    def __toYmdHms(solar):
+        """
+        用于比较先后的年月日时分秒
+        """
+        return solar.getYear(), solar.getMonth(), solar.getDay(), solar.getHour(), solar.getMinute(), solar.getSecond()
+
     def __computeMonth(self):
-        ymd = self.__solar.toYmd()
-        time = self.__solar.toYmdHms()
+        ymd = Lunar.__toYmd(self.__solar)
+        time = Lunar.__toYmdHms(self.__solar)
         size = len(Lunar.JIE_QI_IN_USE)
 
         # 序号：大雪以前-3，大雪到小寒之间-2，小寒到立春之间-1，立春之后0
@@ -125,8 +139,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            symd = ymd if start is None else start.toYmd()
-            if symd <= ymd < end.toYmd():
+            symd = ymd if start is None else Lunar.__toYmd(start)
+            if symd <= ymd < Lunar.__toYmd(end):
                 break
             start = end
             index += 1
@@ -139,8 +153,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            stime = time if start is None else start.toYmdHms()
-            if stime <= time < end.toYmdHms():
+            stime = time if start is None else Lunar.__toYmdHms(start)
+            if stime <= time < Lunar.__toYmdHms(end):
                 break
             start = end
             index += 1
@@ -861,7 +875,7 @@ class Lunar:
         return self.__getMonthNineStar(year_zhi_index, month_zhi_index)
 
     def getDayNineStar(self):
-        solar_ymd = self.__solar.toYmd()
+        solar_ymd = Lunar.__toYmd(self.__solar)
         dong_zhi = self.__jieQi["冬至"]
         dong_zhi2 = self.__jieQi["DONG_ZHI"]
         xia_zhi = self.__jieQi["夏至"]
@@ -874,17 +888,17 @@ class Lunar:
             solar_shun_bai = dong_zhi.next(60 - dong_zhi_index)
         else:
             solar_shun_bai = dong_zhi.next(-dong_zhi_index)
-        solar_shun_bai_ymd = solar_shun_bai.toYmd()
+        solar_shun_bai_ymd = Lunar.__toYmd(solar_shun_bai)
         if dong_zhi_index2 > 29:
             solar_shun_bai2 = dong_zhi2.next(60 - dong_zhi_index2)
         else:
             solar_shun_bai2 = dong_zhi2.next(-dong_zhi_index2)
-        solar_shun_bai_ymd2 = solar_shun_bai2.toYmd()
+        solar_shun_bai_ymd2 = Lunar.__toYmd(solar_shun_bai2)
         if xia_zhi_index > 29:
             solar_ni_zi = xia_zhi.next(60 - xia_zhi_index)
         else:
             solar_ni_zi = xia_zhi.next(-xia_zhi_index)
-        solar_ni_zi_ymd = solar_ni_zi.toYmd()
+        solar_ni_zi_ymd = Lunar.__toYmd(solar_ni_zi)
         offset = 0
         if solar_shun_bai_ymd <= solar_ymd < solar_ni_zi_ymd:
             offset = self.__solar.subtract(solar_shun_bai) % 9
@@ -1047,13 +1061,13 @@ class Lunar:
             for cond in conditions:
                 filters.add(cond)
         is_filter = len(filters) > 0
-        today = self.__solar.toYmd() if whole_day else self.__solar.toYmdHms()
+        today = Lunar.__toYmd(self.__solar) if whole_day else Lunar.__toYmdHms(self.__solar)
         for key in self.JIE_QI_IN_USE:
             jq = self.__convertJieQi(key)
             if is_filter and not filters.__contains__(jq):
                 continue
             solar = self.__jieQi[key]
-            day = solar.toYmd() if whole_day else solar.toYmdHms()
+            day = Lunar.__toYmd(solar) if whole_day else Lunar.__toYmdHms(solar)
             if forward:
                 if day <= today:
                     continue
@@ -1061,7 +1075,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = Lunar.__toYmd(near) if whole_day else Lunar.__toYmdHms(near)
                     if day < near_day:
                         name = jq
                         near = solar
@@ -1072,7 +1086,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = Lunar.__toYmd(near) if whole_day else Lunar.__toYmdHms(near)
                     if day > near_day:
                         name = jq
                         near = solar
-- 
2.43.0


From e027467061b64f2bf6d154b6da0b161c106e8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 18/26] fix: the start of the decades reads the time of a solar
 term in the year 10000

---
 lunar_python/eightchar/Yun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/eightchar/Yun.py b/lunar_python/eightchar/Yun.py
index a5c6ffb..6162980 100644
--- a/lunar_python/eightchar/Yun.py
+++ b/lunar_python/eightchar/Yun.py
@@ -38,8 +38,8 @@ class Yun:
             minutes -= day * 12
             hour = minutes * 2
         else:
-            end_time_zhi_index = 11 if end.getHour() == 23 else LunarUtil.getTimeZhiIndex(end.toYmdHms()[11: 16])
-            start_time_zhi_index = 11 if start.getHour() == 23 else LunarUtil.getTimeZhiIndex(start.toYmdHms()[11: 16])
+            end_time_zhi_index = 11 if end.getHour() == 23 else LunarUtil.getTimeZhiIndex(end.toYmdHms()[-8: -3])
+            start_time_zhi_index = 11 if start.getHour() == 23 else LunarUtil.getTimeZhiIndex(start.toYmdHms()[-8: -3])
             # 时辰差
             hour_diff = end_time_zhi_index - start_time_zhi_index
             day_diff = end.subtract(start)
-- 
2.43.0


From a37f4feefa4de24970f7c8030d76a6f1ebd73786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 19/26] fix: searching births by eight characters reads the
 solar terms of the year itself, also when its lunar new year falls in the
 year before

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index b2d4e93..d22f80f 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -117,7 +117,7 @@ class Solar:
         while y <= end_year:
             if y >= start_year:
                 # 立春为寅月的开始
-                jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
+                jie_qi_table = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
                 if solar_time.getYear() >= base_year:
-- 
2.43.0


From c5d339e10e0564e5f0bf747c0f7d32ce0976113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 20/26] fix: day nine star keeps going back from the previous
 summer solstice until the turn after the winter solstice

---
 lunar_python/Lunar.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index a39a023..f34c332 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -907,7 +907,15 @@ class Lunar:
         elif solar_ymd >= solar_shun_bai_ymd2:
             offset = self.__solar.subtract(solar_shun_bai2) % 9
         elif solar_ymd < solar_shun_bai_ymd:
-            offset = (8 + solar_shun_bai.subtract(self.__solar)) % 9
+            from . import LunarYear
+            # 顺白之前，仍由上一年夏至的逆子逆推
+            xia_zhi = Solar.fromJulianDay(LunarYear.fromYear(self.__solar.getYear() - 1).getJieQiJulianDays()[13])
+            xia_zhi_index = (dong_zhi_index - dong_zhi.subtract(xia_zhi)) % 60
+            if xia_zhi_index > 29:
+                solar_ni_zi = xia_zhi.next(60 - xia_zhi_index)
+            else:
+                solar_ni_zi = xia_zhi.next(-xia_zhi_index)
+            offset = 8 - (self.__solar.subtract(solar_ni_zi) % 9)
         return NineStar.fromIndex(offset)
 
     def getTimeNineStar(self):
-- 
2.43.0


From 0e610cfabfd48e4cc3f5619a2b2a9bb9ac8479b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 21/26] fix: New Year's Eve of 236, whose twelfth month has 28
 days

---
 lunar_python/Lunar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index f34c332..0f3d39f 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -673,7 +673,7 @@ class Lunar:
         md = "%d-%d" % (self.__month, self.__day)
         if md in LunarUtil.FESTIVAL:
             fs.append(LunarUtil.FESTIVAL[md])
-        if abs(self.__month) == 12 and self.__day >= 29 and self.__year != self.next(1).getYear():
+        if abs(self.__month) == 12 and self.__day >= 28 and self.__year != self.next(1).getYear():
             fs.append("除夕")
         return fs
 
-- 
2.43.0


From db622f1eef732bee3c08131a06442dfcc3500bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 22/26] fix: a caller changing the month or term list of a
 lunar year no longer changes the cached year

---
 lunar_python/LunarYear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index 27feb0a..e3ecf29 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -177,10 +177,10 @@ class LunarYear:
         return months
 
     def getMonths(self):
-        return self.__months
+        return list(self.__months)
 
     def getJieQiJulianDays(self):
-        return self.__jieQiJulianDays
+        return list(self.__jieQiJulianDays)
 
     def getLeapMonth(self):
         """
-- 
2.43.0


From ed1735db2d852de691d9aa2549d86863289de6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 23/26] fix: a caller changing the list of hidden stems no
 longer changes the shared table

---
 lunar_python/EightChar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lunar_python/EightChar.py b/lunar_python/EightChar.py
index d1dbc6a..7bd5eef 100644
--- a/lunar_python/EightChar.py
+++ b/lunar_python/EightChar.py
@@ -70,7 +70,7 @@ class EightChar:
         获取年柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getYearZhi())
+        return list(LunarUtil.ZHI_HIDE_GAN.get(self.getYearZhi()))
 
     def getYearWuXing(self):
         """
@@ -154,7 +154,7 @@ class EightChar:
         获取月柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getMonthZhi())
+        return list(LunarUtil.ZHI_HIDE_GAN.get(self.getMonthZhi()))
 
     def getMonthWuXing(self):
         """
@@ -217,7 +217,7 @@ class EightChar:
         获取日柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getDayZhi())
+        return list(LunarUtil.ZHI_HIDE_GAN.get(self.getDayZhi()))
 
     def getDayWuXing(self):
         """
@@ -280,7 +280,7 @@ class EightChar:
         获取时柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getTimeZhi())
+        return list(LunarUtil.ZHI_HIDE_GAN.get(self.getTimeZhi()))
 
     def getTimeWuXing(self):
         """
-- 
2.43.0


From 4205a4b87eaf3af7a53220ed272a9dcb8852c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 24/26] fix: a caller changing the table or list of solar terms
 no longer changes the lunar date

---
 lunar_python/Lunar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 0f3d39f..8097f38 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -935,10 +935,10 @@ class Lunar:
         return NineStar.fromIndex(index % 9)
 
     def getJieQiTable(self):
-        return self.__jieQi
+        return self.__jieQi.copy()
 
     def getJieQiList(self):
-        return self.__jieQiList
+        return self.__jieQiList[:]
 
     def getTimeGanIndex(self):
         return self.__timeGanIndex
-- 
2.43.0


From 054caa66c820dc2e4185d54de83157c5f5b34ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:55 +0000
Subject: [PATCH 25/26] fix: a holiday correction is seen whole or not at all
 by other threads, and none is lost

---
 lunar_python/util/HolidayUtil.py | 37 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index a33bbff..c42bb5b 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import threading
 
 
 class HolidayUtil:
@@ -12,8 +13,9 @@ class HolidayUtil:
     NAMES = ("元旦节", "春节", "清明节", "劳动节", "端午节", "中秋节", "国庆节", "国庆中秋", "抗战胜利日")
     __DATA = "200112290020020101200112300020020101200201010120020101200201020120020101200201030120020101200202091020020212200202101020020212200202121120020212200202131120020212200202141120020212200202151120020212200202161120020212200202171120020212200202181120020212200204273020020501200204283020020501200205013120020501200205023120020501200205033120020501200205043120020501200205053120020501200205063120020501200205073120020501200209286020021001200209296020021001200210016120021001200210026120021001200210036120021001200210046120021001200210056120021001200210066120021001200210076120021001200301010120030101200302011120030201200302021120030201200302031120030201200302041120030201200302051120030201200302061120030201200302071120030201200302081020030201200302091020030201200304263020030501200304273020030501200305013120030501200305023120030501200305033120030501200305043120030501200305053120030501200305063120030501200305073120030501200309276020031001200309286020031001200310016120031001200310026120031001200310036120031001200310046120031001200310056120031001200310066120031001200310076120031001200401010120040101200401171020040122200401181020040122200401221120040122200401231120040122200401241120040122200401251120040122200401261120040122200401271120040122200401281120040122200405013120040501200405023120040501200405033120040501200405043120040501200405053120040501200405063120040501200405073120040501200405083020040501200405093020040501200410016120041001200410026120041001200410036120041001200410046120041001200410056120041001200410066120041001200410076120041001200410096020041001200410106020041001200501010120050101200501020120050101200501030120050101200502051020050209200502061020050209200502091120050209200502101120050209200502111120050209200502121120050209200502131120050209200502141120050209200502151120050209200504303020050501200505013120050501200505023120050501200505033120050501200505043120050501200505053120050501200505063120050501200505073120050501200505083020050501200510016120051001200510026120051001200510036120051001200510046120051001200510056120051001200510066120051001200510076120051001200510086020051001200510096020051001200512310020060101200601010120060101200601020120060101200601030120060101200601281020060129200601291120060129200601301120060129200601311120060129200602011120060129200602021120060129200602031120060129200602041120060129200602051020060129200604293020060501200604303020060501200605013120060501200605023120060501200605033120060501200605043120060501200605053120060501200605063120060501200605073120060501200609306020061001200610016120061001200610026120061001200610036120061001200610046120061001200610056120061001200610066120061001200610076120061001200610086020061001200612300020070101200612310020070101200701010120070101200701020120070101200701030120070101200702171020070218200702181120070218200702191120070218200702201120070218200702211120070218200702221120070218200702231120070218200702241120070218200702251020070218200704283020070501200704293020070501200705013120070501200705023120070501200705033120070501200705043120070501200705053120070501200705063120070501200705073120070501200709296020071001200709306020071001200710016120071001200710026120071001200710036120071001200710046120071001200710056120071001200710066120071001200710076120071001200712290020080101200712300120080101200712310120080101200801010120080101200802021020080206200802031020080206200802061120080206200802071120080206200802081120080206200802091120080206200802101120080206200802111120080206200802121120080206200804042120080404200804052120080404200804062120080404200805013120080501200805023120080501200805033120080501200805043020080501200806074120080608200806084120080608200806094120080608200809135120080914200809145120080914200809155120080914200809276020081001200809286020081001200809296120081001200809306120081001200810016120081001200810026120081001200810036120081001200810046120081001200810056120081001200901010120090101200901020120090101200901030120090101200901040020090101200901241020090125200901251120090125200901261120090125200901271120090125200901281120090125200901291120090125200901301120090125200901311120090125200902011020090125200904042120090404200904052120090404200904062120090404200905013120090501200905023120090501200905033120090501200905284120090528200905294120090528200905304120090528200905314020090528200909276020091001200910016120091001200910026120091001200910036120091001200910046120091001200910055120091003200910065120091003200910075120091003200910085120091003200910105020091003201001010120100101201001020120100101201001030120100101201002131120100213201002141120100213201002151120100213201002161120100213201002171120100213201002181120100213201002191120100213201002201020100213201002211020100213201004032120100405201004042120100405201004052120100405201005013120100501201005023120100501201005033120100501201006124020100616201006134020100616201006144120100616201006154120100616201006164120100616201009195020100922201009225120100922201009235120100922201009245120100922201009255020100922201009266020101001201010016120101001201010026120101001201010036120101001201010046120101001201010056120101001201010066120101001201010076120101001201010096020101001201101010120110101201101020120110101201101030120110101201101301020110203201102021120110203201102031120110203201102041120110203201102051120110203201102061120110203201102071120110203201102081120110203201102121020110203201104022020110405201104032120110405201104042120110405201104052120110405201104303120110501201105013120110501201105023120110501201106044120110606201106054120110606201106064120110606201109105120110912201109115120110912201109125120110912201110016120111001201110026120111001201110036120111001201110046120111001201110056120111001201110066120111001201110076120111001201110086020111001201110096020111001201112310020120101201201010120120101201201020120120101201201030120120101201201211020120123201201221120120123201201231120120123201201241120120123201201251120120123201201261120120123201201271120120123201201281120120123201201291020120123201203312020120404201204012020120404201204022120120404201204032120120404201204042120120404201204283020120501201204293120120501201204303120120501201205013120120501201205023020120501201206224120120623201206234120120623201206244120120623201209295020120930201209305120120930201210016120121001201210026120121001201210036120121001201210046120121001201210056120121001201210066120121001201210076120121001201210086020121001201301010120130101201301020120130101201301030120130101201301050020130101201301060020130101201302091120130210201302101120130210201302111120130210201302121120130210201302131120130210201302141120130210201302151120130210201302161020130210201302171020130210201304042120130404201304052120130404201304062120130404201304273020130501201304283020130501201304293120130501201304303120130501201305013120130501201306084020130612201306094020130612201306104120130612201306114120130612201306124120130612201309195120130919201309205120130919201309215120130919201309225020130919201309296020131001201310016120131001201310026120131001201310036120131001201310046120131001201310056120131001201310066120131001201310076120131001201401010120140101201401261020140131201401311120140131201402011120140131201402021120140131201402031120140131201402041120140131201402051120140131201402061120140131201402081020140131201404052120140405201404062120140405201404072120140405201405013120140501201405023120140501201405033120140501201405043020140501201405314120140602201406014120140602201406024120140602201409065120140908201409075120140908201409085120140908201409286020141001201410016120141001201410026120141001201410036120141001201410046120141004201410056120141001201410066120141001201410076120141001201410116020141001201501010120150101201501020120150101201501030120150101201501040020150101201502151020150219201502181120150219201502191120150219201502201120150219201502211120150219201502221120150219201502231120150219201502241120150219201502281020150219201504042120150405201504052120150405201504062120150405201505013120150501201505023120150501201505033120150501201506204120150620201506214120150620201506224120150620201509038120150903201509048120150903201509058120150903201509068020150903201509265120150927201509275120150927201510016120151001201510026120151001201510036120151001201510046120151004201510056120151001201510066120151001201510076120151001201510106020151001201601010120160101201601020120160101201601030120160101201602061020160208201602071120160208201602081120160208201602091120160208201602101120160208201602111120160208201602121120160208201602131120160208201602141020160208201604022120160404201604032120160404201604042120160404201604303120160501201605013120160501201605023120160501201606094120160609201606104120160609201606114120160609201606124020160609201609155120160915201609165120160915201609175120160915201609185020160915201610016120161001201610026120161001201610036120161001201610046120161001201610056120161001201610066120161001201610076120161001201610086020161001201610096020161001201612310120170101201701010120170101201701020120170101201701221020170128201701271120170128201701281120170128201701291120170128201701301120170128201701311120170128201702011120170128201702021120170128201702041020170128201704012020170404201704022120170404201704032120170404201704042120170404201704293120170501201704303120170501201705013120170501201705274020170530201705284120170530201705294120170530201705304120170530201709306020171001201710016120171001201710026120171001201710036120171001201710045120171004201710056120171001201710066120171001201710076120171001201710086120171001201712300120180101201712310120180101201801010120180101201802111020180216201802151120180216201802161120180216201802171120180216201802181120180216201802191120180216201802201120180216201802211120180216201802241020180216201804052120180405201804062120180405201804072120180405201804082020180405201804283020180501201804293120180501201804303120180501201805013120180501201806164120180618201806174120180618201806184120180618201809225120180924201809235120180924201809245120180924201809296020181001201809306020181001201810016120181001201810026120181001201810036120181001201810046120181001201810056120181001201810066120181001201810076120181001201812290020190101201812300120190101201812310120190101201901010120190101201902021020190205201902031020190205201902041120190205201902051120190205201902061120190205201902071120190205201902081120190205201902091120190205201902101120190205201904052120190405201904062120190405201904072120190405201904283020190501201905013120190501201905023120190501201905033120190501201905043120190501201905053020190501201906074120190607201906084120190607201906094120190607201909135120190913201909145120190913201909155120190913201909296020191001201910016120191001201910026120191001201910036120191001201910046120191001201910056120191001201910066120191001201910076120191001201910126020191001202001010120200101202001191020200125202001241120200125202001251120200125202001261120200125202001271120200125202001281120200125202001291120200125202001301120200125202001311120200125202002011120200125202002021120200125202004042120200404202004052120200404202004062120200404202004263020200501202005013120200501202005023120200501202005033120200501202005043120200501202005053120200501202005093020200501202006254120200625202006264120200625202006274120200625202006284020200625202009277020201001202010017120201001202010026120201001202010036120201001202010046120201001202010056120201001202010066120201001202010076120201001202010086120201001202010106020201001202101010120210101202101020120210101202101030120210101202102071020210212202102111120210212202102121120210212202102131120210212202102141120210212202102151120210212202102161120210212202102171120210212202102201020210212202104032120210404202104042120210404202104052120210404202104253020210501202105013120210501202105023120210501202105033120210501202105043120210501202105053120210501202105083020210501202106124120210614202106134120210614202106144120210614202109185020210921202109195120210921202109205120210921202109215120210921202109266020211001202110016120211001202110026120211001202110036120211001202110046120211001202110056120211001202110066120211001202110076120211001202110096020211001202201010120220101202201020120220101202201030120220101202201291020220201202201301020220201202201311120220201202202011120220201202202021120220201202202031120220201202202041120220201202202051120220201202202061120220201202204022020220405202204032120220405202204042120220405202204052120220405202204243020220501202204303120220501202205013120220501202205023120220501202205033120220501202205043120220501202205073020220501202206034120220603202206044120220603202206054120220603202209105120220910202209115120220910202209125120220910202210016120221001202210026120221001202210036120221001202210046120221001202210056120221001202210066120221001202210076120221001202210086020221001202210096020221001202212310120230101202301010120230101202301020120230101202301211120230122202301221120230122202301231120230122202301241120230122202301251120230122202301261120230122202301271120230122202301281020230122202301291020230122202304052120230405202304233020230501202304293120230501202304303120230501202305013120230501202305023120230501202305033120230501202305063020230501202306224120230622202306234120230622202306244120230622202306254020230622202309295120230929202309306120231001202310016120231001202310026120231001202310036120231001202310046120231001202310056120231001202310066120231001202310076020231001202310086020231001202312300120240101202312310120240101202401010120240101202402041020240210202402101120240210202402111120240210202402121120240210202402131120240210202402141120240210202402151120240210202402161120240210202402171120240210202402181020240210202404042120240404202404052120240404202404062120240404202404072020240404202404283020240501202405013120240501202405023120240501202405033120240501202405043120240501202405053120240501202405113020240501202406084120240610202406094120240610202406104120240610202409145020240917202409155120240917202409165120240917202409175120240917202409296020241001202410016120241001202410026120241001202410036120241001202410046120241001202410056120241001202410066120241001202410076120241001202410126020241001202501010120250101202501261020250129202501281120250129202501291120250129202501301120250129202501311120250129202502011120250129202502021120250129202502031120250129202502041120250129202502081020250129202504042120250404202504052120250404202504062120250404202504273020250501202505013120250501202505023120250501202505033120250501202505043120250501202505053120250501202505314120250531202506014120250531202506024120250531202509287020251001202510017120251001202510027120251001202510037120251001202510047120251001202510057120251001202510067120251001202510077120251001202510087120251001202510117020251001"
 
-    __NAMES_IN_USE = NAMES
-    __DATA_IN_USE = __DATA
+    # 使用中的名称和数据，总是整体替换，使查找不受同时进行的修正影响
+    __IN_USE = (NAMES, __DATA)
+    __LOCK = threading.Lock()
 
     def __init__(self):
         pass
@@ -23,33 +25,35 @@ class HolidayUtil:
         return ("0" if n < 10 else "") + str(n)
 
     @staticmethod
-    def __buildHolidayForward(s):
+    def __buildHolidayForward(names, s):
         day = s[0:8]
-        name = HolidayUtil.__NAMES_IN_USE[ord(s[8:9]) - HolidayUtil.__ZERO]
+        name = names[ord(s[8:9]) - HolidayUtil.__ZERO]
         work = ord(s[9:10]) == HolidayUtil.__ZERO
         target = s[10:18]
         from .. import Holiday
         return Holiday(day, name, work, target)
 
     @staticmethod
-    def __findIndexes(key, offset):
+    def __findIndexes(data, key, offset):
         """
         查找从每条数据的指定偏移位置开始匹配的数据
+        :param data: 数据
         :param key: 年月日
         :param offset: 偏移位置，0为当天年月日，10为节假日当天年月日
         :return: 数据的起始下标列表
         """
         indexes = []
-        i = HolidayUtil.__DATA_IN_USE.find(key)
+        i = data.find(key)
         while i > -1:
             if i % HolidayUtil.__SIZE == offset:
                 indexes.append(i - offset)
-            i = HolidayUtil.__DATA_IN_USE.find(key, i + 1)
+            i = data.find(key, i + 1)
         return indexes
 
     @staticmethod
     def __findHolidays(key, offset):
-        return [HolidayUtil.__buildHolidayForward(HolidayUtil.__DATA_IN_USE[i:i + HolidayUtil.__SIZE]) for i in HolidayUtil.__findIndexes(key, offset)]
+        names, data = HolidayUtil.__IN_USE
+        return [HolidayUtil.__buildHolidayForward(names, data[i:i + HolidayUtil.__SIZE]) for i in HolidayUtil.__findIndexes(data, key, offset)]
 
     @staticmethod
     def __findHolidaysForward(key):
@@ -113,19 +117,26 @@ class HolidayUtil:
         :param data: 需要修正或追加的节假日数据，每18位表示1天依次排列，格式：当天年月日YYYYMMDD(8位)+节假日名称下标(1位)+调休标识(1位)+节假日当天YYYYMMDD(8位)。例：202005023120200501代表2020-05-02为劳动节放假，对应节假日为2020-05-01
         :return:
         """
+        with HolidayUtil.__LOCK:
+            HolidayUtil.__IN_USE = HolidayUtil.__fixed(names, data)
+
+    @staticmethod
+    def __fixed(names, data):
+        names_in_use, data_in_use = HolidayUtil.__IN_USE
         if names is not None:
-            HolidayUtil.__NAMES_IN_USE = names
+            names_in_use = names
         if data is None:
-            return
+            return names_in_use, data_in_use
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
             day = segment[:8]
             remove = HolidayUtil.__TAG_REMOVE == segment[8:9]
-            indexes = HolidayUtil.__findIndexes(day, 0)
+            indexes = HolidayUtil.__findIndexes(data_in_use, day, 0)
             if len(indexes) < 1:
                 if not remove:
-                    HolidayUtil.__DATA_IN_USE += segment
+                    data_in_use += segment
             else:
                 i = indexes[0]
-                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:i] + ("" if remove else segment) + HolidayUtil.__DATA_IN_USE[i + HolidayUtil.__SIZE:]
+                data_in_use = data_in_use[:i] + ("" if remove else segment) + data_in_use[i + HolidayUtil.__SIZE:]
             data = data[HolidayUtil.__SIZE:]
+        return names_in_use, data_in_use
-- 
2.43.0


From 1e4cf16ca1f119cda4fc7456378718f5d18961c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:58 +0000
Subject: [PATCH 26/26] fix: the names of holidays do not change with the list
 a caller passed

---
 lunar_python/util/HolidayUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index c42bb5b..418596c 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -124,7 +124,7 @@ class HolidayUtil:
     def __fixed(names, data):
         names_in_use, data_in_use = HolidayUtil.__IN_USE
         if names is not None:
-            names_in_use = names
+            names_in_use = tuple(names)
         if data is None:
             return names_in_use, data_in_use
         while len(data) >= HolidayUtil.__SIZE:
-- 
2.43.0

