// Shared helpers for checks that only need FUtils and FMath.
#ifndef FCU_H
#define FCU_H
#include "FUtils/FUtils.h"
#include "FUtils/FUString.h"
#include "FUtils/FUStringConversion.h"
#include "pbt.h"
#include <execinfo.h>
#include <sanitizer/common_interface_defs.h>

// Library assertions ("programmer's error") are counted instead of stopping the process; checks whose inputs
// respect every documented precondition require the count to stay at zero.
namespace fcu {
    inline unsigned& asserts() { static unsigned n = 0; return n; }
    inline std::string& first_assert() { static std::string s; return s; }
    inline std::string where() {
        void* f[24]; int n = backtrace(f, 24); std::string out; int kept = 0;
        for (int i = 0; i < n && kept < 3; ++i) {
            char b[400]; __sanitizer_symbolize_pc(f[i], "%f at %s:%l", b, sizeof b);
            std::string s = b;
            if (s.find("/c++/") != std::string::npos || s.find("FUAssert.cpp") != std::string::npos || s.find("fcu.h") != std::string::npos || s.find("std_function") != std::string::npos || s.find("std::") == 0 || s.find("backtrace") != std::string::npos) continue;
            if (kept++) out += " < ";
            out += s;
        }
        return out;
    }
    inline void install() {
        static FUAssertion::FUAssertCallback cb = [](auto) { if (!asserts()++) first_assert() = where(); return (decltype(std::declval<FUAssertion::FUAssertCallback>()(0))) 0; };
        FUAssertion::SetAssertionFailedCallback(&cb);
    }
    inline void reset_asserts() { asserts() = 0; first_assert().clear(); }
    inline void no_asserts(const char* what) {
        if (asserts()) { std::string m = first_assert(); reset_asserts(); pbt::fail(pbt::cat("library assertion failed during ", what, ": ", m)); }
    }
}
#endif
