// Bodies of the std::string members that libstdc++ keeps in its shared library.
#include <string>
#include <stdexcept>
template class std::basic_string<char>;
