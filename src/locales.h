// Locales in which more or other bytes are letters, digits group and the
// decimal point is a comma, made by CMakeLists.txt for engines with the
// definition LOCALES. Nothing of the library may depend on them.
#pragma once
#include <clocale>
#include <cstdlib>
#include <locale>

#include "pbt.h"

namespace locales {

// switches the C and perhaps the C++ locale of the process for its lifetime
struct Scope {
  explicit Scope(pbt::Source& s, uint64_t oneIn) {
    if (!s.chance(1, oneIn)) return;
#ifdef VP_LOCALES
    static const int once = setenv("LOCPATH", VP_LOCALES, 1);
    (void)once;
#endif
    static const char* names[] = {"de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "de_DE.UTF-8"};
    const char* name = names[s.draw(4)];
    const bool cpp = s.coin();
    if (!setlocale(LC_ALL, name)) return;
    on = true;
    if (cpp) {
      try {
        std::locale::global(std::locale(name));
      } catch (const std::exception&) {
      }
    }
    PBT_NOTE(s, "locale " << name << (cpp ? " globally" : ""));
    s.cls(std::string("locale ") + name);
  }
  Scope(const Scope&) = delete;
  ~Scope() {
    if (!on) return;
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
  }
  bool on = false;
};

}  // namespace locales
