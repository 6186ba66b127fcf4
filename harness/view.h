#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include "num.h"

namespace num {
inline std::string statusInfo() { return pgbn::Status::getInstance()->getInfo(); }
inline std::string infoOf(pgbn::Enum e) { return pgbn::Status::getInfo(e); }

// A view whose bytes end right where the accessible memory ends or are followed by digits: nothing beyond it may be looked at.
struct View {
    std::string s;
    std::string store;
    char * page = nullptr;
    pgbn::StringArg get(Case & c, const std::string & x) {
        static char * const guard = [] {
            size_t ps = (size_t)sysconf(_SC_PAGESIZE);
            char * p = (char *)mmap(nullptr, 17 * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(p + 16 * ps, ps, PROT_NONE);
            return p + 16 * ps;
        }();
        switch (x.size() < 60000 ? c.draw(2) : 0) {
        case 0: store = x; return pgbn::StringArg(store.data(), store.size());
        case 1: store = x + "17zZ-+0"; return pgbn::StringArg(store.data(), x.size());
        default: std::memcpy(guard - x.size(), x.data(), x.size()); return pgbn::StringArg(guard - x.size(), x.size());
        }
    }
};
}  // namespace num
