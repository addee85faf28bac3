// T01 times and durations: text made from a time point or a duration says
// exactly which one it was, text is read back to the time it says, and
// calendar arithmetic lands on the right day, in every zone.
#include <ctime>
#include <chrono>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr_chrono.hh"
#include "cmdr11/cmdr_var_t.hh"

using pbt::Case;
using pbt::Src;

namespace {
  namespace chr = cmdr::chrono;
  using iom     = chr::iom;
  using Fl      = iom::fmtflags;
  using Sys     = std::chrono::system_clock;
  using NS      = std::chrono::nanoseconds;

  char const *const ZONES[] = {"UTC", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "AKST9AKDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"};
  std::string zone(Src &s) {
    std::string z = ZONES[s.in(0, 6)];
    setenv("TZ", z.c_str(), 1);
    tzset();
    return z;
  }
  long long const GIGA = 1000000000LL;
  // seconds since the epoch, 1903 .. 2233, edges of days, months and daylight saving more often
  long long secs(Src &s) {
    long long t;
    switch (s.in(0, 5)) {
      case 0: t = s.integer(-3, 3); break;
      case 1: t = s.integer(-2114380800LL, 8300000000LL); break;
      case 2: t = s.integer(0, 2000000000LL); break;
      case 3: t = 1615705200 + s.integer(-10000, 10000); break;   // 2021-03-14 spring
      case 4: t = 1636264800 + s.integer(-10000, 10000); break;   // 2021-11-07 autumn
      default: t = s.integer(0, 25000) * 86400 + s.integer(-5, 5); break;
    }
    return t;
  }
  long long frac(Src &s) {
    switch (s.in(0, 4)) {
      case 0: return 0;
      case 1: return GIGA - 1;
      case 2: return s.integer(0, 999) * 1000000;
      case 3: return s.integer(0, 999) * 1000000 + s.integer(0, 2) * 1000 + s.integer(0, 9);
      default: return s.integer(0, GIGA - 1);
    }
  }
  std::string digits(long long v, int n) {
    char b[40];
    snprintf(b, sizeof b, "%0*lld", n, v);
    return b;
  }
  std::tm broken(long long sec, bool gmt) {
    std::time_t t = (std::time_t) sec;
    std::tm tm{};
    if (gmt) gmtime_r(&t, &tm);
    else
      localtime_r(&t, &tm);
    return tm;
  }
  std::string text(std::tm const &tm, char const *f) {
    char b[200];
    return std::string(b, strftime(b, sizeof b, f, &tm));
  }

  // ----------------------------------------------- text of a time point
  void format(Src &s, Case &c) {
    auto z         = zone(s);
    long long sec  = secs(s), fr = frac(s);
    Sys::time_point tp{std::chrono::duration_cast<Sys::duration>(NS(sec * GIGA + fr))};
    iom::set_flags(Fl::clear);
    bool gmt = true;
    int res  = 6;
    std::string how;
    // a stream is told how to show times as it goes
    std::ostringstream os;
    for (auto n = s.in(0, 4); n > 0; n--) {
      bool op = s.coin();
      Fl f;
      switch (s.in(0, 5)) {
        case 0: f = Fl::ms; res = 3; how += "ms "; break;
        case 1: f = Fl::us; res = 6; how += "us "; break;
        case 2: f = Fl::ns; res = 9; how += "ns "; break;
        case 3: f = Fl::gmt; gmt = true; how += "gmt "; break;
        case 4: f = Fl::local; gmt = false; how += "local "; break;
        default: f = Fl::clear; gmt = true, res = 6; how += "clear "; break;
      }
      if (op) os << f;
      else
        iom::set_flags(f);
    }
    static char const *const FORMS[] = {"%Y-%m-%d %H:%M:%S", "%F %T", "%d/%m/%y %H.%M.%S", "%T", "day %j of %Y, %A", "%Y%m%dT%H%M%S%z"};
    char const *form                 = FORMS[s.in(0, 5)];
    auto tail = [&](int r) { return (r == 9 ? "," : ".") + digits(fr, 9).substr(0, (std::size_t) r); };
    auto want = [&](bool g, char const *f) { return text(broken(sec, g), f) + tail(res); };
    c.note(z + " " + std::to_string(sec) + "s+" + std::to_string(fr) + "ns " + how + form);
    c.label(gmt ? "gmt" : "local");
    c.label("digits-" + std::to_string(res));
    if (sec < 0) c.label("before-1970");
    c.nontrivial = fr != 0 && (sec < 0 || !gmt || res != 6);

    PBT_EQ(chr::format_time_point(tp, form), want(gmt, form), "format_time_point");
    {
      auto was = iom::flags();
      PBT_EQ(chr::format_time_point_to_local(tp, form), want(false, form), "format_time_point_to_local");
      PBT_CHECK(was == iom::flags(), "format_time_point_to_local changed how times are shown");
    }
    char fill = s.coin() ? ' ' : '*';
    os << std::setfill(fill) << std::setw(0);
    os << "<" << std::setw(3) << 7 << ">";
    chr::serialize_time_point(os, tp, form);
    os << "<" << std::setw(3) << 7 << ">";
    os << tp << "<" << std::setw(3) << 7 << ">";
    std::string pad = std::string("<") + fill + fill + "7>";
    PBT_EQ(os.str(), pad + want(gmt, form) + pad + want(gmt, "%F %T") + pad, "writing to a stream with other text around");
    { // the clock, read now
      auto b = Sys::to_time_t(Sys::now());
      auto k = chr::clock::now();
      auto e = Sys::to_time_t(Sys::now());
      std::ostringstream ok;
      ok << std::setfill(fill);
      k.serialize(ok, form);
      PBT_EQ(ok.fill(), fill, "the fill character after a clock was written");
      auto ns   = (long long) k.in_nsec();
      auto tail = "." + digits(ns, 9).substr(0, (std::size_t) res);
      auto got  = ok.str();
      if (b == e) PBT_EQ(got, text(broken(b, gmt), form) + tail, "a clock");
      PBT_EQ((long long) k.nsec(), ns % 1000, "nsec() of a clock");
      b        = Sys::to_time_t(Sys::now());
      auto now = chr::format_time_point(form), there = chr::format_time_point_to_local(form);
      e        = Sys::to_time_t(Sys::now());
      if (b == e) {
        auto f1 = text(broken(b, gmt), form), f2 = text(broken(b, false), form);
        PBT_EQ(now.substr(0, now.size() - 1 - (std::size_t) res), f1, "format_time_point of now");
        PBT_EQ(there.substr(0, there.size() - 1 - (std::size_t) res), f2, "format_time_point_to_local of now");
      }
    }
    std::tm tm = broken(sec, gmt);
    PBT_EQ(chr::format_tm(&tm, form), text(tm, form), "format_tm");
    std::ostringstream o2;
    o2 << tm << "|" << &tm;
    PBT_EQ(o2.str(), text(tm, "%F %T") + "|" + text(tm, "%F %T"), "writing a std::tm");
    {
      iom::saver sv;
      auto was = iom::flags();
      {
        iom::saver inner;
        iom::set_flags(Fl::ns), iom::set_flags(Fl::local);
      }
      PBT_CHECK(was == iom::flags(), "a saver did not restore how times are shown");
    }
    iom::set_flags(Fl::clear);
  }

  // ------------------------------------------------- text to time points
  struct Form {
    char const *f;
    bool date, time;
  };
  Form const FORMS[] = {{"%Y-%m-%d %H:%M:%S", true, true}, {"%Y/%m/%d %H:%M:%S", true, true}, {"%Y-%m-%d", true, false}, {"%Y/%m/%d", true, false}, {"%H:%M:%S", false, true}};
  void parse(Src &s, Case &c) {
    auto z        = zone(s);
    long long sec = secs(s);
    std::tm tm    = broken(sec, false);
    auto const &f = FORMS[s.in(0, 4)];
    auto str      = text(tm, f.f);
    c.note(z + " " + std::to_string(sec) + " '" + str + "'");
    c.label(f.f);
    c.nontrivial = f.date && f.time && tm.tm_isdst >= 0 && (tm.tm_mon > 0 || tm.tm_mday > 1);
    // 1. whatever the text says, the time it becomes says too
    auto before = Sys::to_time_t(Sys::now());
    auto tp     = chr::parse_datetime(str.c_str());
    auto after  = Sys::to_time_t(Sys::now());
    std::tm got = broken((long long) Sys::to_time_t(tp), false);
    if (f.date) { // clocks may jump over a time of day on some dates: then it is not in `str`
      PBT_EQ(text(got, "%Y-%m-%d"), text(tm, "%Y-%m-%d"), "date of parse_datetime(\"" << str << "\") in " << z);
      if (f.time) PBT_EQ(text(got, "%H:%M:%S"), text(tm, "%H:%M:%S"), "time of parse_datetime(\"" << str << "\") in " << z);
    } else {
      std::tm b = broken((long long) before, false), a = broken((long long) after, false);
      if (a.tm_mday == b.tm_mday) {
        PBT_EQ(text(got, "%Y-%m-%d"), text(b, "%Y-%m-%d"), "a time of day alone is one of today");
        std::tm there = b; // unless the clocks jump over it today
        there.tm_hour = tm.tm_hour, there.tm_min = tm.tm_min, there.tm_sec = tm.tm_sec, there.tm_isdst = -1;
        std::mktime(&there);
        PBT_EQ(text(got, "%H:%M:%S"), text(there, "%H:%M:%S"), "time of parse_datetime(\"" << str << "\")");
      }
    }
    // 2. no time in the text
    static char const *const JUNK[] = {"", "yesterday", "x2021-01-01", "-", "now", ":12", "//", ":::"};
    char const *junk               = JUNK[s.in(0, 7)];
    PBT_CHECK(chr::duration_is_zero(chr::parse_datetime(junk)), "parse_datetime(\"" << junk << "\") finds a time");
    // 3. the first form which fits; what it does not mention stays
    std::tm base{};
    base.tm_year = 70 + (int) s.in(0, 100), base.tm_mon = (int) s.in(0, 11), base.tm_mday = 1 + (int) s.in(0, 27);
    base.tm_hour = (int) s.in(0, 23), base.tm_min = (int) s.in(0, 59), base.tm_sec = (int) s.in(0, 59);
    base.tm_isdst = -1;
    std::tm t2    = base;
    bool ok       = chr::try_parse_by(t2, str, "%Y/%m/%d %H:%M:%S", "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S");
    PBT_CHECK(ok, "try_parse_by(\"" << str << "\") found no form");
    auto same = [&](std::tm const &x, std::tm const &y, std::tm const &d) {
      std::tm w = d; // the expected one
      if (f.date) w.tm_year = y.tm_year, w.tm_mon = y.tm_mon, w.tm_mday = y.tm_mday;
      if (f.time) w.tm_hour = y.tm_hour, w.tm_min = y.tm_min, w.tm_sec = y.tm_sec;
      PBT_EQ(text(x, "%Y-%m-%d %H:%M:%S"), text(w, "%Y-%m-%d %H:%M:%S"), "try_parse_by/try_parse(\"" << str << "\")");
    };
    same(t2, tm, base);
    t2 = base;
    PBT_CHECK(!chr::try_parse_by(t2, junk, "%H:%M:%S"), "try_parse_by(\"" << junk << "\") finds a time");
    PBT_EQ(text(t2, "%Y-%m-%d %H:%M:%S"), text(base, "%Y-%m-%d %H:%M:%S"), "try_parse_by without success leaves the time alone");
    t2 = base;
    PBT_CHECK(chr::try_parse(t2, str, f.f), "try_parse(\"" << str << "\")");
    same(t2, tm, base);
    // 4. to and from broken-down times
    auto p = Sys::from_time_t((std::time_t) sec);
    std::tm l = chr::time_point_2_tm(p), g = chr::time_point_2_tm<Sys, true>(p);
    PBT_EQ(text(l, "%F %T"), text(tm, "%F %T"), "time_point_2_tm");
    PBT_EQ(text(g, "%F %T"), text(broken(sec, true), "%F %T"), "time_point_2_tm<GMT>");
    PBT_EQ(text(chr::time_t_2_tm((time_t) sec), "%F %T"), text(tm, "%F %T"), "time_t_2_tm");
    PBT_EQ(text(chr::time_t_2_tm<Sys, true>((time_t) sec), "%F %T"), text(broken(sec, true), "%F %T"), "time_t_2_tm<GMT>");
    PBT_EQ((long long) Sys::to_time_t(chr::tm_2_time_point(l)), sec, "a time point through a std::tm");
    PBT_EQ((long long) Sys::to_time_t(chr::tm_2_time_point(&l)), sec, "a time point through a std::tm");
  }

  // ---------------------------------------------------------- calendar
  long long days_from_civil(long long y, int m, int d) {
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    long long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
  }
  std::string civil(long long z) {
    z += 719468;
    long long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp + (mp < 10 ? 3 : -9);
    return digits(y + (m <= 2), 4) + "-" + digits(m, 2) + "-" + digits(d, 2);
  }
  void calendar(Src &s, Case &c) {
    auto z        = zone(s);
    long long sec = secs(s);
    std::tm tm    = broken(sec, false);
    long long y   = tm.tm_year + 1900;
    int m         = tm.tm_mon + 1;
    c.note(z + " " + text(tm, "%F %T"));
    {
      int off   = 1 + (int) s.in(0, 30);
      int delta = 1 + (int) s.in(0, 15);
      long long ny = y + (m - 1 + delta) / 12;
      int nm       = (m - 1 + delta) % 12 + 1;
      auto want    = civil(days_from_civil(ny, nm, 1) - off);
      std::tm r    = chr::last_day_at_this_month(tm, off, delta);
      PBT_EQ(text(r, "%Y-%m-%d"), want, "last day " << off << " of month +" << delta << " of " << text(tm, "%F %T") << " in " << z);
      auto p = chr::last_day_at_this_month_in_time_point(tm, off, delta);
      PBT_EQ(text(broken((long long) Sys::to_time_t(p), false), "%Y-%m-%d"), want, "last_day_at_this_month_in_time_point");
      auto this_month = [&](int o) { return civil(days_from_civil(y + m / 12, m % 12 + 1, 1) - o); };
      PBT_EQ(text(chr::last_day_at_this_month(tm), "%Y-%m-%d"), this_month(1), "last day of the month of " << text(tm, "%F %T"));
      PBT_EQ(text(chr::last_day_at_this_month(tm, off), "%Y-%m-%d"), this_month(off), "last day " << off << " of the month of " << text(tm, "%F %T"));
      int mday = 1 + (int) s.in(0, 27);
      PBT_EQ(text(chr::last_day_at_this_month(tm, off, delta, mday), "%Y-%m-%d"), civil(days_from_civil(ny, nm, 1) + mday - 1 - off), "last day " << off << " of month +" << delta << " from day " << mday << " of " << text(tm, "%F %T"));
      PBT_EQ(text(broken((long long) Sys::to_time_t(chr::last_day_at_this_month_in_time_point(tm, off)), false), "%Y-%m-%d"), this_month(off), "last day " << off << " of the month of " << text(tm, "%F %T"));
      c.nontrivial = (m - 1 + delta) >= 12 || off > 28;
    }
    { // there are no such days: nothing changes
      int off = s.coin() ? -(int) s.in(0, 400) : 367 + (int) s.in(0, 400);
      std::tm t = tm;
      auto same = std::mktime(&t);
      PBT_EQ((long long) Sys::to_time_t(chr::last_day_at_this_year_in_time_point(tm, off)), (long long) same, "last day " << off << " of the year of " << text(tm, "%F %T"));
      PBT_EQ(text(chr::last_day_at_this_year(tm, off), "%F %T"), text(tm, "%F %T"), "last day " << off << " of the year");
      if (off > 0) off -= 335;
      PBT_EQ((long long) Sys::to_time_t(chr::last_day_at_this_month_in_time_point(tm, off)), (long long) same, "last day " << off << " of the month of " << text(tm, "%F %T"));
      PBT_EQ(text(chr::last_day_at_this_month(tm, off), "%F %T"), text(tm, "%F %T"), "last day " << off << " of the month");
    }
    {
      int off   = 1 + (int) s.in(0, 365);
      auto want = civil(days_from_civil(y + 1, 1, 1) - off);
      PBT_EQ(text(chr::last_day_at_this_year(tm, off), "%Y-%m-%d"), want, "last day " << off << " of the year of " << text(tm, "%F %T") << " in " << z);
      PBT_EQ(text(broken((long long) Sys::to_time_t(chr::last_day_at_this_year_in_time_point(tm, off)), false), "%Y-%m-%d"), want, "last day " << off << " of the year of " << text(tm, "%F %T"));
      PBT_EQ(text(chr::last_day_at_this_year(tm), "%Y-%m-%d"), civil(days_from_civil(y + 1, 1, 1) - 1), "last day of the year of " << text(tm, "%F %T"));
      PBT_EQ(text(broken((long long) Sys::to_time_t(chr::last_day_at_this_year_in_time_point(tm)), false), "%Y-%m-%d"), civil(days_from_civil(y + 1, 1, 1) - 1), "last day of the year of " << text(tm, "%F %T"));
    }
    {
      long long other = s.coin() ? sec + s.integer(-100000, 100000) : secs(s);
      auto a = broken(sec, false), b = broken(other, false);
      auto key  = [](std::tm const &t) { return t.tm_year * 1000 + t.tm_yday; };
      int want  = key(a) == key(b) ? 0 : key(a) < key(b) ? -1 : 1;
      auto got  = chr::compare_date_part(Sys::from_time_t((time_t) sec), Sys::from_time_t((time_t) other));
      PBT_EQ((int) got, want, "compare_date_part of " << text(a, "%F %T") << " and " << text(b, "%F %T") << " in " << z);
      if (want == 0 && sec != other) c.label("same-day");
    }
  }

  // ---------------------------------------------------------- durations
  // reads a duration's text back, by the places of its units
  bool read_back(std::string const &str, long long &ns) {
    std::size_t i = 0;
    bool neg      = false;
    if (i < str.size() && str[i] == '-') neg = true, i++;
    ns         = 0;
    int stage  = 0;
    bool first = true;
    auto digit = [&] { return i < str.size() && isdigit((unsigned char) str[i]); };
    while (i < str.size()) {
      if (str[i] == ':') {
        i++;
        continue;
      }
      std::vector<std::pair<long long, int>> groups;
      while (digit()) {
        std::size_t b = i;
        while (digit()) i++;
        groups.push_back({std::stoll(str.substr(b, i - b)), (int) (i - b)});
        if (i + 1 < str.size() && str[i] == '.') i++;
        else
          break;
      }
      if (groups.empty()) return false;
      std::size_t b = i;
      while (i < str.size() && isalpha((unsigned char) str[i])) i++;
      auto unit = str.substr(b, i - b);
      long long u;
      int at;
      if (unit == "y") u = 365LL * 86400 * GIGA, at = 1;
      else if (unit == "d")
        u = 86400LL * GIGA, at = 2;
      else if (unit == "h")
        u = 3600LL * GIGA, at = 3;
      else if (unit == "m")
        u = 60LL * GIGA, at = 4;
      else if (unit == "s")
        u = GIGA, at = 5;
      else if (unit == "ms")
        u = 1000000, at = 6;
      else if (unit == "us")
        u = 1000, at = 7;
      else if (unit == "ns")
        u = 1, at = 8;
      else
        return false;
      if (at <= stage) return false;
      stage = at;
      if (groups.size() > 1 && at < 6) return false;
      static const long long LIMIT[] = {0, 1LL << 62, 365, 24, 60, 60, 1000, 1000, 1000};
      if (groups[0].first >= LIMIT[at]) return false;           // as much as possible in the larger units
      if (groups[0].first == 0 && first && i < str.size()) return false; // no leading zeros
      first = false;
      for (std::size_t g = 0; g < groups.size(); g++) {
        if (g && groups[g].second != 3) return false; // a fraction has all its places
        if (u == 0) return false;
        ns += groups[g].first * u;
        u /= 1000;
      }
    }
    if (neg) ns = -ns;
    return true;
  }
  void durations(Src &s, Case &c) {
    long long ns;
    switch (s.in(0, 4)) {
      case 0: ns = s.integer(-2000, 2000000); break;
      case 1: ns = s.integer(0, 99999) * GIGA; break;
      case 2: ns = s.integer(0, 3) * 365 * 86400 * GIGA + s.integer(0, 2) * 86400 * GIGA + s.integer(0, 2) * 3600 * GIGA + s.integer(0, 2) * 60 * GIGA + s.integer(0, 2) * GIGA + s.integer(0, 2) * 1000000 + s.integer(0, 2) * 1000 + s.integer(0, 2); break;
      case 3: ns = s.integer(-4000000000000000000LL, 4000000000000000000LL); break;
      default: ns = s.integer(0, 999) * (s.coin() ? 1000000 : 1) * (s.coin() ? 1000 : 1); break;
    }
    NS d(ns);
    auto str = chr::format_duration(d);
    c.note(std::to_string(ns) + "ns -> " + str);
    c.label(ns < 0 ? "negative" : ns < 1000000 ? "tiny" : ns < 86400 * GIGA ? "hours" : "long");
    c.nontrivial = ns % 1000000 != 0 && std::llabs(ns) > 1000000;
    long long back = 0;
    PBT_CHECK(read_back(str, back), "the text \"" << str << "\" of " << ns << " ns is no duration");
    PBT_EQ(back, ns, "the text of " << ns << " ns is \"" << str << "\"");
    char fill = s.coin() ? ' ' : '*';
    std::ostringstream os;
    os << std::setfill(fill) << d << "|" << std::setw(3) << 7;
    PBT_EQ(os.str(), str + "|" + fill + fill + "7", "writing a duration to a stream with other text around");
    // other units: the same text for the same length
    auto us = std::chrono::duration_cast<std::chrono::microseconds>(d);
    PBT_EQ(chr::format_duration(us), chr::format_duration(NS(us)), "a duration in microseconds");
    auto sc = std::chrono::duration_cast<std::chrono::seconds>(d);
    PBT_EQ(chr::format_duration(sc), chr::format_duration(NS(sc)), "a duration in seconds");
    using Ldm = std::chrono::duration<double, std::ratio<60>>;
    double k  = (double) s.integer(0, 4000) / 4.0;
    PBT_EQ(chr::format_duration(Ldm(k)), chr::format_duration(NS((long long) (k * 60) * GIGA)), "a duration of " << k << " min");
    // held by an option value, a duration of any unit is shown as the same text
    if (s.chance(1, 8)) {
      using namespace std::chrono;
      auto shown = [&](auto const &x, std::string const &want, char const *unit) {
        std::ostringstream vs;
        vs << cmdr::vars::variable(x);
        PBT_EQ(vs.str(), want, "an option value which is a duration in " << unit);
        PBT_EQ(cmdr::vars::variable(x).as_string(), want, "the text of an option value which is a duration in " << unit);
      };
      shown(d, str, "nanoseconds");
      shown(us, chr::format_duration(NS(us)), "microseconds");
      auto ms = duration_cast<milliseconds>(d);
      shown(ms, chr::format_duration(NS(ms)), "milliseconds");
      shown(sc, chr::format_duration(NS(sc)), "seconds");
      auto mi = duration_cast<minutes>(d);
      shown(mi, chr::format_duration(NS(mi)), "minutes");
      auto ho = duration_cast<hours>(d);
      shown(ho, chr::format_duration(NS(ho)), "hours");
      auto sixty = chr::format_duration(NS((long long) (k * 60) * GIGA)), one = chr::format_duration(NS((long long) (k * 4) * GIGA));
      shown(duration<long double, std::ratio<60>>(k), sixty, "long double minutes");
      shown(duration<double, std::ratio<60>>(k), sixty, "double minutes");
      shown(duration<long double>(k * 4), one, "long double seconds");
      auto near = [&](auto const &x, char const *unit) { // to the precision of the type
        std::ostringstream vs;
        vs << cmdr::vars::variable(x);
        long long got = 0, want = (long long) (duration<double>(x).count() * 1e9);
        PBT_CHECK(read_back(vs.str(), got) && std::llabs(got - want) <= want / 1000000 + 1000, "an option value which is a duration in " << unit << " of " << want << " ns is shown as " << vs.str());
      };
      near(duration<float, std::ratio<60>>((float) k), "float minutes");
      near(duration<float>((float) k * 4), "float seconds");
    }
    // broken down, the parts add up
    {
      using namespace std::chrono;
      auto t = chr::detail::break_down_durations<hours, minutes, seconds, milliseconds, microseconds, nanoseconds>(d);
      NS sum = std::get<0>(t) + std::get<1>(t) + std::get<2>(t) + std::get<3>(t) + std::get<4>(t) + std::get<5>(t);
      PBT_EQ((long long) sum.count(), ns, "broken down, " << ns << " ns add up");
      PBT_CHECK(std::llabs(std::get<1>(t).count()) < 60 && std::llabs(std::get<2>(t).count()) < 60 && std::llabs(std::get<3>(t).count()) < 1000 && std::llabs(std::get<4>(t).count()) < 1000 && std::llabs(std::get<5>(t).count()) < 1000, "broken down, a part of " << ns << " ns overflows");
    }
    // measured spans
    if (s.chance(1, 20)) {
      int calls = 0;
      bool good = false;
      bool tell = s.coin();
      std::ostringstream cap;
      auto *old = std::cout.rdbuf(cap.rdbuf());
      {
        chr::high_res_duration hrd([&](std::chrono::high_resolution_clock::duration x) {
          calls++;
          good = x.count() >= 0;
          return tell;
        });
      }
      std::cout.rdbuf(old);
      PBT_EQ(calls, 1, "a measured span is reported once");
      PBT_CHECK(good, "a measured span is negative");
      PBT_EQ(cap.str().substr(0, 8), std::string(tell ? "It took " : ""), "the printed line");
    }
  }

  pbt::Reg r1({"T01", "format", "a fraction of a second, and not just the default way to show it in 1970 or later", 200000, 1600000, format});
  pbt::Reg r2({"T01", "parse", "a full date and time", 120000, 960000, parse});
  pbt::Reg r3({"T01", "calendar", "the year changes on the way or the offset passes the start of the month", 120000, 960000, calendar});
  pbt::Reg r4({"T01", "durations", "more than a millisecond and not a whole number of them", 200000, 1600000, durations});
} // namespace
PBT_MAIN()
