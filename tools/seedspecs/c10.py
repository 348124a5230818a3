prop='C38'
edits=[('ip-any-network.hpp', 'auto strict = iword == 0;\n    iword = 0;', 'auto strict = iword == 0;')]
needs='two networks read from one stream, only the first with the non-strict manipulator'
breaks='the second is read non-strictly too'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
#include <sstream>
int main() { std::istringstream s("10.0.0.1/8 10.0.0.1/8"); ip_network a, b; s >> non_strict >> a; s >> b; return !s.fail(); }
'''
