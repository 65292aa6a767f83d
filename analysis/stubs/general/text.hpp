#pragma once
#include <mfem.hpp>
namespace mfem { void skip_comment_lines(std::istream&, const char); std::string to_padded_string(int, int); std::string to_string(int); int to_int(const std::string&); void filter_dos(std::string&); }
