#pragma once
// Sort specifications, with an independent comparison
#include "common.h"
#include <arki/types/reftime.h>

namespace vh {
using namespace arki;

struct SortSpec
{
    std::string text;
    int interval = 0; // 0 none, 1 minute .. 5 year
    std::vector<std::pair<std::string, bool>> keys; // name, reverse
};

inline SortSpec gen_sort(Rng& rng)
{
    SortSpec s;
    static const char* ints[] = {"", "minute", "hour", "day", "month", "year"};
    if (rng.chance(45))
        s.interval = rng.range(1, 5);
    std::vector<std::string> names = {"reftime", "origin", "product", "level", "timerange", "area", "proddef", "run", "task", "quantity"};
    rng.shuffle(names);
    int n = rng.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        bool rev = rng.chance(35);
        s.keys.emplace_back(names[i], rev);
        s.text += cat(i ? "," : "", rev ? "-" : rng.chance(20) ? "+" : "", names[i]);
    }
    if (s.interval)
        s.text = cat(ints[s.interval], ":", s.text);
    return s;
}

inline long long interval_id(const Time& t, int interval)
{
    switch (interval)
    {
        case 1:  return to_secs(t) / 60;
        case 2:  return to_secs(t) / 3600;
        case 3:  return to_secs(t) / 86400;
        case 4:  return t.ye * 12 + t.mo - 1;
        case 5:  return t.ye;
        default: return 0;
    }
}

/// Compare as the sort specification says: -1, 0 or 1
inline int sort_cmp(const SortSpec& s, const Metadata& a, const Metadata& b)
{
    for (auto& k : s.keys)
    {
        auto code = types::parseCodeName(k.first);
        auto x = a.get(code), y = b.get(code);
        int c;
        if (!x && !y)
            c = 0;
        else if (!x)
            c = -1;
        else if (!y)
            c = 1;
        else
            c = x->compare(*y);
        if (c)
            return k.second ? -c : c;
    }
    return 0;
}

inline Time rt_of(const Metadata& md) { return md.get<types::reftime::Position>()->get_Position(); }

} // namespace vh
