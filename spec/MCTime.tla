---- MODULE MCTime ----
EXTENDS Time
QYears == {1, 1400, 1600, 1601, 1602, 1604, 1700, 1800, 1899, 1900, 1969, 1970, 1972, 2000, 2001, 2024, 2038, 2100, 2400, 9999, 10000, 30828, 60055, 60056, 60057, 120000}
TYears == {1, 1599, 1600, 1601, 1602, 1603, 1604, 1605, 1699, 1700, 1701, 1704, 1800, 1896, 1900, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2096, 2100, 2104, 2399, 2400, 2401, 9999, 10000, 30828, 60040, 60055, 60056, 60057, 100000, 999999}
====
