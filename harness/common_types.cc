#include "common_types.h"
#include <arki/types/area.h>
#include <arki/types/assigneddataset.h>
#include <arki/types/bbox.h>
#include <arki/types/level.h>
#include <arki/types/note.h>
#include <arki/types/origin.h>
#include <arki/types/proddef.h>
#include <arki/types/product.h>
#include <arki/types/quantity.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/source.h>
#include <arki/types/task.h>
#include <arki/types/timerange.h>
#include <arki/types/value.h>
#include <arki/types/values.h>

using namespace arki;
using namespace arki::types;

namespace vh {

const std::vector<TypeCode> item_codes{TYPE_ORIGIN,  TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_REFTIME,
                                       TYPE_AREA,    TYPE_PRODDEF, TYPE_RUN,   TYPE_TASK,      TYPE_QUANTITY};

std::unique_ptr<Type> dec_string(TypeCode code, const std::string& s) { return types::decodeString(code, s); }

static unsigned num(Rng& r, unsigned max, bool ext)
{
    if (!ext)
        return r.below(3);
    switch (r.below(8))
    {
        case 0:  return 0;
        case 1:  return max;
        case 2:  return max - 1;
        case 3:  return std::min(max, 127u + r.below(3));
        case 4:  return std::min(max, 255u + r.below(3));
        case 5:  return r.below(4);
        case 6:  return std::min(max, 32767u + r.below(3));
        default: return max == 0xffffffffu ? (unsigned)r.next() : r.below(max + 1);
    }
}

std::string gen_word(Rng& r, unsigned maxlen, bool special)
{
    static const char plain[] = "abcXYZ019_-.";
    static const char spec[]  = "ab \"'\\=:/[]{}#;!%@\t\xc3\xa8<>|&~$*+?^";
    std::string s;
    unsigned n = 1 + r.below(maxlen);
    for (unsigned i = 0; i < n; ++i)
        if (special && r.chance(40))
            s += spec[r.below(sizeof(spec) - 1)];
        else
            s += plain[r.below(sizeof(plain) - 1)];
    // Text forms do not keep spaces at the ends
    if (isspace((unsigned char)s.front()))
        s.front() = 'w';
    if (isspace((unsigned char)s.back()))
        s.back() = 'w';
    return s;
}

Time gen_time(Rng& r, bool wide)
{
    if (!wide)
        return add_seconds(Time(2007, 12, 30, 0, 0, 0), r.below(12) * 21600);
    int y = r.chance(50) ? 2000 + r.below(30) : (r.chance(20) ? (r.chance(50) ? 1 : 9999) : 1 + r.below(9999));
    int m = 1 + r.below(12);
    static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int dm = days[m - 1];
    if (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)))
        dm = 29;
    int d = r.chance(20) ? dm : (r.chance(20) ? 1 : 1 + r.below(dm));
    if (r.chance(20))
        return Time(y, m, d, 0, 0, 0);
    if (r.chance(20))
        return Time(y, m, d, 23, 59, 59);
    return Time(y, m, d, r.below(24), r.below(60), r.below(60));
}

static std::string time_text(const Time& t)
{
    char buf[64];
    snprintf(buf, 64, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
    return buf;
}

static ValueBag gen_bag(Rng& r, bool ext, bool allow_empty)
{
    values::ValueBagBuilder b;
    unsigned n = ext ? r.below(5) : 1 + r.below(2);
    if (!allow_empty && n == 0)
        n = 1;
    static const char* keys[] = {"lat", "lon", "tod", "x", "latfirst", "name", "a", "zz"};
    for (unsigned i = 0; i < n; ++i)
    {
        std::string k = ext && r.chance(20) ? gen_word(r, 6, false) : keys[r.below(ext ? 8 : 2)];
        if (r.chance(60))
        {
            int v;
            if (!ext)
                v = r.below(3);
            else
                switch (r.below(6))
                {
                    case 0:  v = 2147483647; break;
                    case 1:  v = -2147483647; break;
                    case 2:  v = (int)r.range(-34, 34); break;
                    case 3:  v = (int)r.range(-70000, 70000); break;
                    case 4:  v = 0; break;
                    default: v = (int)(int32_t)(r.next() | 1); break;
                }
            b.add(k, v);
        }
        else if (!ext)
            b.add(k, std::string(r.below(2) ? "foo" : "bar"));
        else
            switch (r.below(6))
            {
                case 0:  b.add(k, std::to_string((int)r.range(-50, 500))); break; // a string which looks like a number
                case 1:  b.add(k, std::string()); break;
                case 2:  b.add(k, std::string(63, 'y')); break;
                case 3:  b.add(k, gen_word(r, 20, true)); break;
                case 4:  b.add(k, cat(gen_word(r, 5, false), ", ", gen_word(r, 5, false))); break;
                default: b.add(k, gen_word(r, 12, false)); break;
            }
    }
    return b.build();
}

static const unsigned char time_units[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};

std::unique_ptr<Type> gen_value(Rng& r, TypeCode code, bool ext)
{
    auto sw = [&](bool special) { return ext ? gen_word(r, 12, special) : std::string(r.below(2) ? "foo" : "bar"); };
    switch (code)
    {
        case TYPE_ORIGIN:
            switch (r.below(4))
            {
                case 0:  return Origin::createGRIB1(num(r, 255, ext), num(r, 255, ext), num(r, 255, ext));
                case 1:  return Origin::createGRIB2(num(r, 65535, ext), num(r, 65535, ext), num(r, 255, ext),
                                                    num(r, 255, ext), num(r, 255, ext));
                case 2:  return Origin::createBUFR(num(r, 255, ext), num(r, 255, ext));
                default: return Origin::createODIMH5(sw(false), sw(false), sw(false));
            }
        case TYPE_PRODUCT:
            switch (r.below(5))
            {
                case 0:  return Product::createGRIB1(num(r, 255, ext), num(r, 255, ext), num(r, 255, ext));
                case 1:  return Product::createGRIB2(num(r, 65535, ext), num(r, 255, ext), num(r, 255, ext),
                                                     num(r, 255, ext), r.chance(50) ? 4 : num(r, 255, ext),
                                                     r.chance(50) ? 255 : num(r, 255, ext));
                case 2:
                    if (r.chance(50))
                        return Product::createBUFR(num(r, 255, ext), num(r, 255, ext), num(r, 255, ext));
                    return Product::createBUFR(num(r, 255, ext), num(r, 255, ext), num(r, 255, ext),
                                               gen_bag(r, ext, true));
                case 3:  return Product::createODIMH5(sw(false), sw(false));
                default: return Product::createVM2(num(r, 100000, ext));
            }
        case TYPE_LEVEL:
            switch (r.below(4))
            {
                case 0: {
                    static const unsigned char t[] = {1, 100, 101, 102, 103, 105, 106, 109, 111, 112, 20, 160, 200, 204, 8, 108, 119, 120};
                    unsigned char ty = t[r.below(ext ? sizeof(t) : 4)];
                    switch (Level::GRIB1_type_vals(ty))
                    {
                        case 0:  return Level::createGRIB1(ty);
                        case 1:  return Level::createGRIB1(ty, num(r, 65535, ext));
                        default: return Level::createGRIB1(ty, num(r, 255, ext), num(r, 255, ext));
                    }
                }
                case 1:
                    return Level::createGRIB2S(num(r, 255, ext), num(r, 255, ext), num(r, 0xffffffffu, ext));
                case 2:
                    return Level::createGRIB2D(num(r, 255, ext), num(r, 255, ext), num(r, 0xffffffffu, ext),
                                               num(r, 255, ext), num(r, 255, ext), num(r, 0xffffffffu, ext));
                default: {
                    auto d = [&] { return ext ? ((int)r.range(-99999, 99999)) / (r.chance(50) ? 10.0 : 1000.0) : r.below(3) / 2.0; };
                    double a = d();
                    if (r.chance(50))
                        return Level::createODIMH5(a);
                    return Level::createODIMH5(a, d());
                }
            }
        case TYPE_TIMERANGE:
            switch (r.below(4))
            {
                case 0: {
                    static const unsigned char t[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 51, 113, 114, 115, 116, 117,
                                                      118, 119, 123, 124, 125, 128, 129, 130, 131, 77};
                    unsigned char ty = t[r.below(ext ? sizeof(t) : 5)];
                    unsigned char un = time_units[r.below(ext ? sizeof(time_units) : 2)];
                    bool use1, use2;
                    timerange::GRIB1::arg_significance(ty, use1, use2);
                    unsigned p1 = use1 ? num(r, 255, ext) : 0;
                    unsigned p2 = use2 || ty == 10 ? num(r, 255, ext) : 0;
                    return Timerange::createGRIB1(ty, un, p1, p2);
                }
                case 1: {
                    auto s = [&]() -> long {
                        if (!ext)
                            return r.below(3);
                        long v = num(r, 0x7fffffff, true);
                        return r.chance(30) ? -v : v;
                    };
                    unsigned ty = num(r, 255, ext), un = time_units[r.below(ext ? sizeof(time_units) : 2)];
                    long p1     = s();
                    return Timerange::createGRIB2(ty, un, p1, s());
                }
                case 2: {
                    static const timerange::TimedefUnit u[] = {
                        timerange::UNIT_MINUTE,  timerange::UNIT_HOUR,   timerange::UNIT_DAY,
                        timerange::UNIT_MONTH,   timerange::UNIT_YEAR,   timerange::UNIT_DECADE,
                        timerange::UNIT_NORMAL,  timerange::UNIT_CENTURY, timerange::UNIT_3HOURS,
                        timerange::UNIT_6HOURS,  timerange::UNIT_12HOURS, timerange::UNIT_SECOND};
                    auto unit = [&] {
                        if (ext && r.chance(15))
                            return timerange::UNIT_MISSING;
                        return u[r.below(ext ? 12 : 2)];
                    };
                    auto len = [&](timerange::TimedefUnit un) -> unsigned {
                        if (un == timerange::UNIT_MISSING)
                            return 0;
                        // No more than 20 years, so that conversion to seconds fits
                        return !ext ? r.below(3) * (un == timerange::UNIT_MINUTE ? 60 : 1) : num(r, 7300, true);
                    };
                    auto su = unit();
                    if (r.chance(50))
                        return Timerange::createTimedef(len(su), su);
                    auto tu = unit();
                    return Timerange::createTimedef(len(su), su, ext ? num(r, 254, true) : r.below(3), len(tu), tu);
                }
                default:
                    return Timerange::createBUFR(ext ? 1 + num(r, 40000, true) : 1 + r.below(3),
                                                 time_units[r.below(ext ? sizeof(time_units) : 2)]);
            }
        case TYPE_REFTIME: return Reftime::createPosition(gen_time(r, ext));
        case TYPE_AREA:
            switch (r.below(3))
            {
                case 0:  return area::GRIB::create(gen_bag(r, ext, true));
                case 1:  return area::ODIMH5::create(gen_bag(r, ext, true));
                default: return area::VM2::create(num(r, 100000, ext));
            }
        case TYPE_PRODDEF: return Proddef::createGRIB(gen_bag(r, ext, true));
        case TYPE_RUN:     return Run::createMinute(ext ? r.below(24) : r.below(2), ext ? r.below(60) : 0);
        case TYPE_TASK:    return Task::create(sw(true));
        case TYPE_QUANTITY: {
            std::set<std::string> v;
            unsigned n = 1 + r.below(ext ? 6 : 2);
            for (unsigned i = 0; i < n; ++i)
                v.insert(sw(false));
            return Quantity::create(v);
        }
        case TYPE_NOTE: return Note::create(gen_time(r, ext), ext && r.chance(10) ? gen_word(r, 300, true) : sw(true));
        case TYPE_ASSIGNEDDATASET:
            return dec_string(TYPE_ASSIGNEDDATASET, cat(sw(false), " as ", sw(false), " imported on ", time_text(gen_time(r, ext))));
        case TYPE_VALUE: return Value::create(sw(true));
        case TYPE_SOURCE: {
            auto fmt = r.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5,
                               DataFormat::NETCDF, DataFormat::JPEG});
            switch (r.below(3))
            {
                case 0: return Source::createInline(fmt, ext ? (r.chance(10) ? 0x123456789ull : r.next() % 1000000) : r.below(3));
                case 1: return Source::createURL(fmt, "http://localhost/" + sw(false));
                default:
                    return Source::createBlobUnlocked(fmt, "/tmp/base" + sw(false), sw(false),
                                                      ext ? (r.chance(20) ? 0x723456789abull : r.next() % 1000000)
                                                          : r.below(3),
                                                      ext ? (r.chance(20) ? 0x23456789abull : r.next() % 1000000)
                                                          : r.below(3));
            }
        }
        default: throw std::runtime_error("cannot generate type");
    }
}

std::string gen_value_text(Rng& rng, TypeCode code, bool ext) { return gen_value(rng, code, ext)->to_string(); }

} // namespace vh
