// The string templates the library uses, instantiated here so that they carry
// the same instrumentation as the library (libstdc++.so's copies do not).
#include <string>
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
