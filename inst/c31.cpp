#include <string>
#include <vector>
#include "data/string/algorithm.h"
int vp_edit(const std::string &a, const std::string &b) { return pfi::data::string::edit_distance(a, b); }
int vp_lcs(const std::string &a, const std::string &b) { return pfi::data::string::longest_common_subsequence(a, b); }
