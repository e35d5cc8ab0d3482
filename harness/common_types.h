#pragma once
#include "common.h"
#include <arki/types/bundle.h>

namespace vh {

/// Types which describe a data item, and can be stored in an index
extern const std::vector<arki::TypeCode> item_codes;

std::unique_ptr<arki::types::Type> dec_string(arki::TypeCode code, const std::string& s);
/// Text form of a random value. Values come from a small pool when pool > 0, else from the whole range
std::string gen_value_text(Rng& rng, arki::TypeCode code, bool extremes);
std::unique_ptr<arki::types::Type> gen_value(Rng& rng, arki::TypeCode code, bool extremes);
/// Random time, years 1..9999 when wide
Time gen_time(Rng& rng, bool wide);
std::string gen_word(Rng& rng, unsigned maxlen, bool special);

} // namespace vh
