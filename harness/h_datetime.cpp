// Every representable day, compared with a calendar that is counted one day at a time.
#include "common.h"
#include <ply-runtime/time/DateTime.h>
typedef __int128 i128;
static const s64 DAY = 86400000000ll;
static bool leap(long y) { long r = ((y % 400) + 400) % 400; return r % 4 == 0 && (r % 100 != 0 || r == 0); }
struct Cal { // a day, counted
    long y; int m, d, w; long n; // n = days since 1970-01-01
    void next() {
        static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        n++; w = (w + 1) % 7;
        if (++d > len[m - 1] + (m == 2 && leap(y))) { d = 1; if (++m > 12) { m = 1; y++; } }
    }
};
static const s64 MIN = std::numeric_limits<s64>::min(), MAX = std::numeric_limits<s64>::max();
static void one(const Cal& c, s64 t) { // t: microseconds into the day
    i128 e = (i128) c.n * DAY + t;
    if (e < MIN || e > MAX) return;
    s64 us = (s64) e;
    DateTime k = DateTime::fromEpochMicroseconds(us);
    long s = (long) (t / 1000000);
    bool ok = k.year == c.y && k.month == c.m && k.day == c.d && k.weekday == c.w && k.hour == s / 3600 && k.minute == s / 60 % 60 && k.second == s % 60 && k.microseconds == t % 1000000 && !k.timeZoneHour && !k.timeZoneMinute;
    s64 back = k.toEpochMicroseconds();
    mc::step();
    if (ok && back == us) return;
    mc::casef("time %lld", (long long) us);
    MC_LOG("%lld us is %ld-%02d-%02d, day %d of the week, %lld us into the day", (long long) us, c.y, c.m, c.d, c.w, (long long) t);
    MC_CHECK(ok, "%lld us became %d-%02d-%02d (weekday %d) %02d:%02d:%02d.%06u", (long long) us, k.year, k.month, k.day, k.weekday, k.hour, k.minute, k.second, k.microseconds);
    MC_CHECK(back == us, "%lld us converts back to %lld", (long long) us, (long long) back);
}
// 1970-01-01 is a Thursday; 400 years are 146097 days, a whole number of weeks.
static const int LO = -732, HI = 730; // cycles holding every representable day
static Cal cycle(int i) { Cal c{1970 + 400l * i, 1, 1, 4, 146097l * i}; return c; }
static void days() {
    int i = choose(HI - LO + 1) + LO;
    MC_LOG("years %d to %d", 1970 + 400 * i, 1970 + 400 * i + 399);
    Cal c = cycle(i);
    bool any = false;
    for (int k = 0; k < 146097; k++) {
        one(c, 0);
        one(c, DAY - 1);
        if (mc::pick(0, 1)) { one(c, 1); one(c, DAY / 2); one(c, 999999); one(c, 1000000); one(c, DAY - 1000000); }
        any = any || (c.n >= -106751992 && c.n <= 106751991);
        c.next();
    }
    MC_CHECK(c.y == 1970 + 400l * (i + 1) && c.m == 1 && c.d == 1 && c.w == 4, "the calendar was miscounted");
    if (any) { mc::nontrivial(); mc::state(hstr(std::to_string(i))); }
}
// every second of some days, with the microseconds around it
static void seconds() {
    static const long pick[] = {0, -1, 1, 58, 59, 60, 10956, 11016, 11017, 11322, -719468, -719469, -719528, -25509, 2932896, -106751991, 106751990, -106751992, 106751991, 47541};
    long day = pick[choose(20)];
    int hour = choose(24);
    long i = day >= 0 ? day / 146097 : -((-day + 146096) / 146097);
    Cal c = cycle((int) i);
    while (c.n < day) c.next();
    MC_LOG("%ld-%02d-%02d, hour %d", c.y, c.m, c.d, hour);
    for (int s = hour * 3600; s < hour * 3600 + 3600; s++)
        for (int u : {0, 1, 9, 99, 500000, 999998, 999999}) one(c, s * 1000000ll + u);
    mc::nontrivial(); mc::state(hstr(std::to_string(day * 24 + hour)));
}
// the first and last representable times, one by one
static void ends() {
    int k = choose(2);
    Cal c = cycle(k ? HI - 2 : LO + 1);
    long day = k ? 106751991 : -106751992;
    while (c.n < day) c.next();
    i128 base = (i128) day * DAY;
    s64 t0 = (s64) ((i128) (k ? MAX : MIN) - base);
    for (int j = 0; j < 100000; j++) one(c, k ? t0 - j : t0 + j);
    mc::nontrivial(); mc::state(k);
}
MC_SCENARIOS = {
    {"days", days, 0, "the first and last microsecond of every representable day"},
    {"seconds", seconds, 0, "every second of twenty days, with seven microseconds in each"},
    {"ends", ends, 0, "100000 times at either end of the range"},
    MC_END};
