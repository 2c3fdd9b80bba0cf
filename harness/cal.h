// Reference civil calendar (proleptic Gregorian), used as oracle.
#pragma once
namespace ref {
    inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    inline int dim(int y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
    // days from civil (Howard Hinnant), 1970-01-01 -> 0 ; y >= 0
    inline long days(long y, int m, int d) { y -= m <= 2; long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
    inline long excel(long y, int m, int d) { return days(y, m, d) + 25569; }
    // branch-free variants (keep symbolic execution on one path)
    inline int dim2(int y, int m) { int l = (int)((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))); return 30 + ((0x15AA >> m) & 1) - (m == 2) * (2 - l); }
    inline long excel2(long y0, long m, long d) { long y = y0 - (m <= 2), mp = m + 9 - 12 * (m > 2), doy = (153 * mp + 2) / 5 + d - 1; return 365 * y + y / 4 - y / 100 + y / 400 + doy - 719468 + 25569; }
}
