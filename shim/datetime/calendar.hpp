/** Minimal stand-in for the ggdatetime library (not installable offline).
 *
 * Only what /repo's sources use. Written from the documented meaning of that
 * library's API; it is part of the trusted base of the checks that need it
 * (see /verif/DESIGN.md, "Shim").
 */
#ifndef VERIF_SHIM_DATETIME_CALENDAR_HPP
#define VERIF_SHIM_DATETIME_CALENDAR_HPP

#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <stdexcept>

namespace dso {

constexpr const double SEC_PER_DAY = 86400e0;
constexpr const double DAYS_IN_JULIAN_CENT = 36525e0;
constexpr const double DAYS_IN_JULIAN_YEAR = 365.25e0;

enum class DateTimeDifferenceType {
  FractionalDays,
  FractionalSeconds,
  FractionalYears
};

#define VERIF_INT_WRAP(NAME, T)                                                \
  class NAME {                                                                 \
    T v;                                                                       \
                                                                               \
  public:                                                                      \
    typedef T underlying_type;                                                 \
    explicit constexpr NAME(T i = 0) noexcept : v(i) {}                        \
    constexpr T as_underlying_type() const noexcept { return v; }              \
    constexpr bool operator==(const NAME &o) const noexcept {                  \
      return v == o.v;                                                         \
    }                                                                          \
    constexpr bool operator<(const NAME &o) const noexcept { return v < o.v; } \
  }
VERIF_INT_WRAP(year, int);
VERIF_INT_WRAP(month, int);
VERIF_INT_WRAP(day_of_month, int);
VERIF_INT_WRAP(day_of_year, int);
VERIF_INT_WRAP(hours, int);
VERIF_INT_WRAP(minutes, int);
#undef VERIF_INT_WRAP

class seconds {
  long v;

public:
  typedef long underlying_type;
  static constexpr std::int64_t per_second = 1;
  explicit constexpr seconds(long i = 0) noexcept : v(i) {}
  constexpr long as_underlying_type() const noexcept { return v; }
};
class nanoseconds {
  std::int64_t v;

public:
  typedef std::int64_t underlying_type;
  static constexpr std::int64_t per_second = 1000000000LL;
  explicit constexpr nanoseconds(std::int64_t i = 0) noexcept : v(i) {}
  constexpr std::int64_t as_underlying_type() const noexcept { return v; }
};

struct FractionalSeconds {
  double v;
  explicit constexpr FractionalSeconds(double d = 0e0) noexcept : v(d) {}
  constexpr double seconds() const noexcept { return v; }
};
struct FractionalDays {
  double v;
  explicit constexpr FractionalDays(double d = 0e0) noexcept : v(d) {}
  constexpr double days() const noexcept { return v; }
};
struct FractionalYears {
  double v;
  explicit constexpr FractionalYears(double d = 0e0) noexcept : v(d) {}
  constexpr double years() const noexcept { return v; }
};

namespace shim {
/* civil date <-> MJD (proleptic Gregorian), after H. Hinnant */
constexpr long days_from_civil(long y, unsigned m, unsigned d) noexcept {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400);
  const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + static_cast<long>(doe) - 719468;
}
constexpr long civil_to_mjd(int y, int m, int d) noexcept {
  return days_from_civil(y, (unsigned)m, (unsigned)d) + 40587L;
}
inline void mjd_to_civil(long mjd, int &y, int &m, int &d) noexcept {
  long z = mjd - 40587L + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = static_cast<unsigned>(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const long yy = static_cast<long>(yoe) + era * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1);
  m = (int)(mp < 10 ? mp + 3 : mp - 9);
  y = (int)(yy + (m <= 2));
}
inline bool valid_date(int y, int m, int d) noexcept {
  if (m < 1 || m > 12 || d < 1)
    return false;
  const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  return d <= len[m - 1] + (m == 2 && leap);
}
} /* namespace shim */

class ymd_date {
  year y;
  month m;
  day_of_month d;

public:
  constexpr ymd_date(year iy = year(0), month im = month(1),
                     day_of_month id = day_of_month(1)) noexcept
      : y(iy), m(im), d(id) {}
  constexpr year yr() const noexcept { return y; }
  constexpr month mn() const noexcept { return m; }
  constexpr day_of_month dm() const noexcept { return d; }
};

class modified_julian_day {
  long v;

public:
  typedef long underlying_type;
  explicit constexpr modified_julian_day(long i = 0) noexcept : v(i) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr modified_julian_day
  operator+(const modified_julian_day &o) const noexcept {
    return modified_julian_day(v + o.v);
  }
  constexpr bool operator==(const modified_julian_day &o) const noexcept {
    return v == o.v;
  }
  ymd_date to_ymd() const noexcept {
    int y, m, d;
    shim::mjd_to_civil(v, y, m, d);
    return ymd_date(year(y), month(m), day_of_month(d));
  }
};

/** TAI-UTC since 1972, keyed by the MJD at 0h UTC of the first day */
inline int dat(modified_julian_day mjd) noexcept {
  struct {
    long mjd;
    int dat;
  } const tab[] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13},
                   {42413, 14}, {42778, 15}, {43144, 16}, {43509, 17},
                   {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21},
                   {45516, 22}, {46247, 23}, {47161, 24}, {47892, 25},
                   {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29},
                   {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33},
                   {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int r = 10;
  for (const auto &e : tab)
    if (mjd.as_underlying_type() >= e.mjd)
      r = e.dat;
  return r;
}

template <DateTimeDifferenceType D> struct shim_diff;

/** a date split in integral MJD and fractional seconds of day */
class TwoPartDate;
class TwoPartDateUTC;

template <DateTimeDifferenceType DT> struct shim_diff_make;
template <> struct shim_diff_make<DateTimeDifferenceType::FractionalDays> {
  static constexpr FractionalDays make(double d, double s) noexcept {
    return FractionalDays(d + s / SEC_PER_DAY);
  }
};
template <> struct shim_diff_make<DateTimeDifferenceType::FractionalSeconds> {
  static constexpr FractionalSeconds make(double d, double s) noexcept {
    return FractionalSeconds(d * SEC_PER_DAY + s);
  }
};
template <> struct shim_diff_make<DateTimeDifferenceType::FractionalYears> {
  static constexpr FractionalYears make(double d, double s) noexcept {
    return FractionalYears((d + s / SEC_PER_DAY) / DAYS_IN_JULIAN_YEAR);
  }
};

class TwoPartDate {
  long mjd_{0};
  double sec_{0};

  constexpr void normalize() noexcept {
    while (sec_ >= SEC_PER_DAY) {
      sec_ -= SEC_PER_DAY;
      ++mjd_;
    }
    while (sec_ < 0e0) {
      sec_ += SEC_PER_DAY;
      --mjd_;
    }
  }

public:
  constexpr TwoPartDate() noexcept {}
  explicit constexpr TwoPartDate(
      long m, FractionalSeconds s = FractionalSeconds{0e0}) noexcept
      : mjd_(m), sec_(s.v) {
    normalize();
  }
  static constexpr TwoPartDate j2000_mjd() noexcept {
    return TwoPartDate(51544, FractionalSeconds{43200e0});
  }
  static constexpr TwoPartDate min() noexcept { return TwoPartDate(-678957); }
  static constexpr TwoPartDate max() noexcept { return TwoPartDate(2973119); }
  constexpr int imjd() const noexcept { return (int)mjd_; }
  constexpr double as_mjd() const noexcept { return mjd_ + sec_ / SEC_PER_DAY; }
  constexpr FractionalSeconds seconds() const noexcept {
    return FractionalSeconds(sec_);
  }
  constexpr FractionalDays fractional_days() const noexcept {
    return FractionalDays(sec_ / SEC_PER_DAY);
  }
  template <typename S> constexpr double sec_of_day() const noexcept {
    return sec_ * S::per_second;
  }
  constexpr double julian_date() const noexcept {
    return 2400000.5e0 + as_mjd();
  }
  constexpr double jcenturies_sinceJ2000() const noexcept {
    return ((mjd_ - 51544L) + (sec_ - 43200e0) / SEC_PER_DAY) /
           DAYS_IN_JULIAN_CENT;
  }
  template <DateTimeDifferenceType DT>
  constexpr auto diff(const TwoPartDate &o) const noexcept {
    return shim_diff_make<DT>::make((double)(mjd_ - o.mjd_), sec_ - o.sec_);
  }
  constexpr TwoPartDate add_seconds(FractionalSeconds s) const noexcept {
    return TwoPartDate(mjd_, FractionalSeconds{sec_ + s.v});
  }
  constexpr bool operator==(const TwoPartDate &o) const noexcept {
    return mjd_ == o.mjd_ && sec_ == o.sec_;
  }
  constexpr bool operator!=(const TwoPartDate &o) const noexcept {
    return !(*this == o);
  }
  constexpr bool operator<(const TwoPartDate &o) const noexcept {
    return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && sec_ < o.sec_);
  }
  constexpr bool operator>(const TwoPartDate &o) const noexcept {
    return o < *this;
  }
  constexpr bool operator<=(const TwoPartDate &o) const noexcept {
    return !(o < *this);
  }
  constexpr bool operator>=(const TwoPartDate &o) const noexcept {
    return !(*this < o);
  }
  inline TwoPartDateUTC tt2utc() const noexcept;
  TwoPartDate tt2tai() const noexcept {
    return add_seconds(FractionalSeconds{-32.184e0});
  }
  inline TwoPartDate tt2ut1(double dut1) const noexcept;
};

class TwoPartDateUTC {
  long mjd_{0};
  double sec_{0};

public:
  constexpr TwoPartDateUTC() noexcept {}
  explicit constexpr TwoPartDateUTC(
      long m, FractionalSeconds s = FractionalSeconds{0e0}) noexcept
      : mjd_(m), sec_(s.v) {}
  constexpr int imjd() const noexcept { return (int)mjd_; }
  constexpr FractionalSeconds seconds() const noexcept {
    return FractionalSeconds(sec_);
  }
  TwoPartDate utc2tt() const noexcept {
    return TwoPartDate(
        mjd_, FractionalSeconds{sec_ + dat(modified_julian_day(mjd_)) +
                                32.184e0});
  }
};

inline TwoPartDateUTC TwoPartDate::tt2utc() const noexcept {
  const TwoPartDate tai = tt2tai();
  /* day of UTC: the last one that starts at or before this instant */
  long m = tai.mjd_;
  double s = tai.sec_ - dat(modified_julian_day(m));
  if (s < 0e0) {
    --m;
    s = tai.sec_ + SEC_PER_DAY - dat(modified_julian_day(m));
  }
  return TwoPartDateUTC(m, FractionalSeconds{s});
}

inline TwoPartDate TwoPartDate::tt2ut1(double dut1) const noexcept {
  const TwoPartDateUTC utc = tt2utc();
  return TwoPartDate(utc.imjd(),
                     FractionalSeconds{utc.seconds().v + dut1});
}

typedef TwoPartDate MjdEpoch;

/** a date with integral (sub-)seconds of day */
template <typename S> class datetime {
  long mjd_{0};
  std::int64_t s_{0};
  static constexpr std::int64_t day = 86400LL * S::per_second;

  constexpr void normalize() noexcept {
    std::int64_t k = s_ / day;
    if (s_ % day < 0)
      --k;
    mjd_ += (long)k;
    s_ -= k * day;
  }

public:
  constexpr datetime() noexcept {}
  constexpr datetime(modified_julian_day m, S s) noexcept
      : mjd_(m.as_underlying_type()), s_(s.as_underlying_type()) {
    normalize();
  }
  datetime(year y, month m, day_of_month d, hours h, minutes mi, S s) {
    const int iy = y.as_underlying_type(), im = m.as_underlying_type(),
              id = d.as_underlying_type();
    if (!shim::valid_date(iy, im, id))
      throw std::out_of_range("[ERROR] Invalid date\n");
    mjd_ = shim::civil_to_mjd(iy, im, id);
    s_ = (h.as_underlying_type() * 3600LL + mi.as_underlying_type() * 60LL) *
             S::per_second +
         s.as_underlying_type();
    normalize();
  }
  datetime(year y, day_of_year d) noexcept
      : mjd_(shim::civil_to_mjd(y.as_underlying_type(), 1, 1) +
             d.as_underlying_type() - 1) {}
  static constexpr datetime min() noexcept {
    return datetime(modified_julian_day(-678957), S(0));
  }
  static constexpr datetime max() noexcept {
    return datetime(modified_julian_day(2973119), S(0));
  }
  constexpr modified_julian_day imjd() const noexcept {
    return modified_julian_day(mjd_);
  }
  constexpr S sec() const noexcept { return S(s_); }
  constexpr double fmjd() const noexcept { return mjd_ + (double)s_ / day; }
  template <typename R> constexpr datetime add_seconds(R r) const noexcept {
    return datetime(imjd(), S(s_ + r.as_underlying_type() *
                                       (S::per_second / R::per_second)));
  }
  constexpr datetime gps2tt() const noexcept {
    return datetime(imjd(),
                    S(s_ + (std::int64_t)(51184LL * (S::per_second / 1000))));
  }
  template <DateTimeDifferenceType DT>
  constexpr auto diff(const datetime &o) const noexcept {
    return shim_diff_make<DT>::make((double)(mjd_ - o.mjd_),
                                    (double)(s_ - o.s_) / S::per_second);
  }
  constexpr bool operator==(const datetime &o) const noexcept {
    return mjd_ == o.mjd_ && s_ == o.s_;
  }
  constexpr bool operator!=(const datetime &o) const noexcept {
    return !(*this == o);
  }
  constexpr bool operator<(const datetime &o) const noexcept {
    return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && s_ < o.s_);
  }
  constexpr bool operator>(const datetime &o) const noexcept {
    return o < *this;
  }
  constexpr bool operator<=(const datetime &o) const noexcept {
    return !(o < *this);
  }
  constexpr bool operator>=(const datetime &o) const noexcept {
    return !(*this < o);
  }
};
template <typename S> using Datetime = datetime<S>;

/* ---- reading/writing ---------------------------------------------------- */
enum class YMDFormat { YYYYMMDD, YYYYDDMM, YYYYDDD, DDMMYYYY };
enum class HMSFormat { HHMMSS, HHMM, HHMMSSF };

/** "YYYY?MM?DD HH?MM?SS[.fff]"; throws on anything else; end set after it */
template <YMDFormat F, HMSFormat H, typename S>
Datetime<S> from_char(const char *str, const char **end = nullptr) {
  auto bad = []() { throw std::runtime_error("[ERROR] Failed to read date\n"); };
  auto digits = [&](const char *&p, int maxn) {
    while (*p == ' ')
      ++p;
    int n = 0, v = 0;
    while (n < maxn && *p >= '0' && *p <= '9') {
      v = v * 10 + (*p - '0');
      ++p;
      ++n;
    }
    if (!n)
      bad();
    return v;
  };
  auto sep = [&](const char *&p) {
    if (*p == '-' || *p == '/' || *p == ':' || *p == ' ' || *p == 'T')
      ++p;
    else
      bad();
  };
  const char *p = str;
  const int y = digits(p, 4);
  sep(p);
  const int m = digits(p, 2);
  sep(p);
  const int d = digits(p, 2);
  sep(p);
  const int h = digits(p, 2);
  sep(p);
  const int mi = digits(p, 2);
  sep(p);
  const int s = digits(p, 2);
  std::int64_t frac = 0, w = S::per_second;
  if (*p == '.') {
    ++p;
    while (*p >= '0' && *p <= '9') {
      w /= 10;
      frac += w * (*p - '0');
      ++p;
    }
  }
  if (h > 23 || mi > 59 || s > 60)
    bad();
  if (end)
    *end = p;
  return Datetime<S>(year(y), month(m), day_of_month(d), hours(h), minutes(mi),
                     S(s * S::per_second + frac));
}

template <YMDFormat F>
char *to_char(const ymd_date &t, char *buf, char delim = '/') {
  char tmp[64];
  std::snprintf(tmp, sizeof(tmp), "%04d%c%02d%c%02d",
                t.yr().as_underlying_type(), delim, t.mn().as_underlying_type(),
                delim, t.dm().as_underlying_type());
  std::memcpy(buf, tmp, 10);
  return buf;
}
template <YMDFormat F, HMSFormat H, typename S>
char *to_char(const datetime<S> &t, char *buf) {
  int y, m, d;
  shim::mjd_to_civil(t.imjd().as_underlying_type(), y, m, d);
  const double s = (double)t.sec().as_underlying_type() / S::per_second;
  std::sprintf(buf, "%04d/%02d/%02d %02d:%02d:%012.9f", y, m, d, (int)(s / 3600),
               ((int)s % 3600) / 60, s - 60 * (int)(s / 60));
  return buf;
}
template <YMDFormat F, HMSFormat H>
char *to_char(const TwoPartDate &t, char *buf) {
  int y, m, d;
  shim::mjd_to_civil(t.imjd(), y, m, d);
  const double s = t.seconds().v;
  std::sprintf(buf, "%04d/%02d/%02d %02d:%02d:%012.9f", y, m, d, (int)(s / 3600),
               ((int)s % 3600) / 60, s - 60 * (int)(s / 60));
  return buf;
}

} /* namespace dso */

#endif
