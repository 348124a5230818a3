#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import checks
H = 'include/ipaddress/'
P = []
def p(id, title, statement, over, q, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files], mechanism=[dict(name=n, where=H + w) for n, w in mech], observe_at=list(observe) or ['return values and error codes of the public API'], hook_needed=None)))
I = ['inputs']; IC = ['inputs', 'configurations']
p('C01', 'IPv4 text is accepted exactly when it is four decimal octets',
  'Parsing text as an IPv4 address succeeds exactly when the text is four dot-separated decimal numbers 0..255 of one to three digits without leading zeros, and then yields that address. Every other text is rejected, a rejected parse yields the zero address, and the reported error names a fault the text really has.',
  I, 'every text of every length', 'the tests sample about forty strings; the accepted language has 2^32 members and the rejected one is unbounded',
  ['base-v4.hpp', 'ip-address-base.hpp', 'errors.hpp'], [('octet parser', 'base-v4.hpp'), ('error codes', 'errors.hpp')])
p('C02', 'IPv4 text output is canonical and parses back to the same address',
  'The text of any IPv4 address is its four octets in decimal without leading zeros, joined by dots, whatever format is asked for. Parsing that text gives the same address back, and the wide, UTF-8, UTF-16 and UTF-32 texts have the same characters.',
  I, 'all 2^32 addresses, every format, every string type', 'tests format a few dozen addresses',
  ['base-v4.hpp', 'ip-address-base.hpp'], [('formatter', 'base-v4.hpp'), ('wide conversions', 'ip-address-base.hpp')])
p('C03', 'IPv6 text is accepted exactly when it is an RFC 4291 form, with the right value',
  'Parsing text as an IPv6 address succeeds exactly when it is a valid RFC 4291 form: eight groups of one to four hex digits, or fewer with one double colon standing for one or more zero groups, the last two groups optionally written as a dotted IPv4 address, optionally followed by % and a scope of 1 to 16 characters without %, /, spaces or control whitespace or NUL. The resulting 128 bits and scope are the ones written.',
  I, 'every text of every length', 'the tests sample about a hundred strings out of an exponential grammar',
  ['base-v6.hpp', 'ipv6-address.hpp'], [('splitting into parts', 'base-v6.hpp'), ('group parser', 'base-v6.hpp'), ('scope parser', 'ipv6-address.hpp')])
p('C04', 'IPv6 text output is canonical in each format',
  'The full format writes eight 4-digit lower-case groups; the compact format drops leading zeros in each group; the compressed (default) format also replaces the longest run of two or more zero groups, the first on ties, by a double colon. A scope is appended after %, and every string type yields the same characters.',
  I, 'all 2^128 addresses, every format, every scope', 'tests format a few dozen addresses',
  ['base-v6.hpp', 'ipv6-address.hpp', 'ip-address-base.hpp'], [('formatter', 'base-v6.hpp')])
p('C05', 'IPv6 text in any format parses back to the same address and scope',
  'For every IPv6 address, with or without a scope, in each of the three formats, parsing the text that the library writes for it yields an address equal to the original, with the same 128 bits and the same scope.',
  I, 'all 2^128 addresses times all scopes times three formats', 'tests round-trip a few dozen addresses',
  ['base-v6.hpp', 'ipv6-address.hpp'], [('formatter', 'base-v6.hpp'), ('parser', 'base-v6.hpp')])
p('C06', 'Throwing and error-code overloads agree',
  'For every input, the overload that throws and the overload that reports an error code agree: one throws exactly when the other reports an error, with the same code, and otherwise both return the same value. A successful call leaves the error code at no_error even when the caller passed in a stale one, and the exception thrown is the documented class.',
  I, 'every input to parsing, network construction, subnets, supernet, exclude and scope setting', 'tests check the two overloads on the same few samples and never start from a stale code',
  ['ip-address-base.hpp', 'ip-network-base.hpp', 'errors.hpp'], [('raise_error', 'errors.hpp'), ('overload pairs', 'ip-network-base.hpp')])
p('C07', 'All character types give the same result for the same text',
  'Parsing the same ASCII text given as char, wchar_t, char8_t, char16_t or char32_t, as an array, string or string view, gives the same value and the same error code. Text with other characters gives the same value and error code in UTF-8, UTF-16, UTF-32 and wchar_t.',
  IC, 'every text', 'the tests repeat a handful of literals per character type',
  ['unicode.hpp', 'ip-address-base.hpp', 'ip-network-base.hpp', 'fixed-string.hpp'], [('code point readers', 'unicode.hpp')])
p('C08', 'Malformed or non-ASCII Unicode text never parses as an address',
  'Text in UTF-8, UTF-16 or UTF-32 that contains malformed or overlong sequences, unpaired surrogates or out-of-range code points is never accepted as an address or network, and reading it never looks past the end of the text. Well-formed non-ASCII characters are rejected as unexpected symbols in the address part.',
  IC, 'every sequence of code units', 'tests hold one or two malformed sequences per encoding',
  ['unicode.hpp', 'fixed-string.hpp'], [('utf8/utf16 decoding', 'unicode.hpp')])
p('C09', 'Parsing arbitrary bytes is memory-safe, defined and terminating',
  'Parsing any byte sequence of any length as an address or network, in any character type, reads only the given range, performs no undefined operation and terminates.',
  IC, 'every byte sequence and length', 'tests run well-formed or mildly broken text without sanitizers',
  ['base-v4.hpp', 'base-v6.hpp', 'ip-network-base.hpp', 'unicode.hpp', 'fixed-string.hpp'], [('bounds tests in the readers', 'unicode.hpp'), ('fixed buffers', 'base-v6.hpp')])
p('C10', 'Network text is accepted exactly when it is address[/prefix or mask]',
  'Parsing text as a network succeeds exactly when it is a valid address optionally followed by one slash and a prefix length within range or, for IPv4, a contiguous netmask or hostmask; without it the prefix is the full width. In strict mode host bits are an error; otherwise they are cleared. The result has exactly the written prefix length and the bits of the masked address.',
  I, 'every text and both strict modes', 'the tests sample some dozens of strings',
  ['ip-network-base.hpp', 'base-v4.hpp', 'base-v6.hpp'], [('netmask parser', 'base-v4.hpp'), ('network parser', 'ip-network-base.hpp')])
p('C11', 'Network text round-trips',
  'The text of a network is its network address, a slash and its prefix length in decimal, and parsing it gives an equal network back, for every network without a scope, format and string type.',
  I, 'all addresses times all prefix lengths times formats', 'tests use a few dozen networks',
  ['ip-network-base.hpp'], [('to_string', 'ip-network-base.hpp')])
p('C12', 'Integer and byte conversions are exact inverses in network byte order',
  'Conversion of an address to bytes, to an integer and back is lossless: the bytes are the address in network order, the integer is their big-endian value, and construction from either gives the same address on every path.',
  I, 'all 2^32 and 2^128 values', 'tests convert a few dozen values',
  ['ipv4-address.hpp', 'ipv6-address.hpp', 'endian.hpp', 'byte-array.hpp'], [('from_uint/to_uint', 'base-v6.hpp'), ('byte order helpers', 'endian.hpp')])
p('C13', 'Address comparison is a total order by value, consistent with equality and hash',
  'Addresses compare as their numeric value, then by scope for IPv6: exactly one of less, equal, greater holds, the order is transitive, all six operators and the three-way operator agree, and equal addresses have equal hashes, in every language mode.',
  IC, 'all pairs and triples of addresses with scopes', 'tests compare a few pairs; transitivity and trichotomy are never tested with scopes',
  ['ipv4-address.hpp', 'ipv6-address.hpp', 'ip-address-base.hpp'], [('comparison operators', 'ip-address-base.hpp'), ('less', 'ipv6-address.hpp'), ('hash', 'base-v6.hpp')])
p('C14', 'IPv4 classification predicates match the registered ranges',
  'Each IPv4 predicate (multicast, private, global, reserved, loopback, link-local, unspecified) is true exactly on the documented IANA blocks; global is the negation of private except that the shared block 100.64.0.0/10 is neither.',
  I, 'all 2^32 addresses', 'tests probe a few addresses around block edges',
  ['ipv4-address.hpp', 'base-v4.hpp'], [('range comparisons', 'ipv4-address.hpp')])
p('C15', 'IPv6 classification predicates match the registered ranges',
  'Each IPv6 predicate (multicast, private, global, reserved, loopback, link-local, site-local, unspecified) is true exactly on the documented blocks, global being the negation of private; private and global, and no other predicate, follow the embedded IPv4 address for IPv4-mapped addresses.',
  I, 'all 2^128 addresses', 'tests probe a few addresses around block edges',
  ['ipv6-address.hpp', 'base-v6.hpp'], [('range comparisons', 'ipv6-address.hpp')])
p('C16', 'Embedded IPv4 addresses are extracted only from their own prefixes',
  'ipv4_mapped, sixtofour and teredo return a value exactly for addresses in ::ffff:0:0/96, 2002::/16 and 2001::/32, and the value is the embedded IPv4 address (for teredo, the server and the bit-inverted client).',
  I, 'all 2^128 addresses', 'tests probe about ten addresses',
  ['ipv6-address.hpp'], [('ipv4_mapped, sixtofour, teredo', 'ipv6-address.hpp')])
p('C17', 'A scope id holds exactly the text it was given',
  'A scope id set to valid text returns that text, is numeric exactly when the text is a decimal number that fits in 32 bits and then returns that number, compares by its text, and survives copies; invalid or oversized text is rejected and leaves the address unchanged. Changing the scope never changes the address bits.',
  I, 'every scope text up to 16 characters, every 32-bit number', 'tests try about ten scope strings',
  ['ipv6-address.hpp'], [('scope parsing', 'ipv6-address.hpp')])
p('C18', 'Reverse-DNS pointer names are exact',
  'reverse_pointer is the four octets in decimal in reverse order followed by .in-addr.arpa for IPv4, and the 32 hex digits in reverse order joined by dots followed by .ip6.arpa for IPv6.',
  I, 'all addresses', 'tests try a handful of addresses',
  ['base-v4.hpp', 'base-v6.hpp'], [('ip_reverse_pointer', 'base-v4.hpp')])
p('C19', 'The version-independent address behaves as the address it holds',
  'Parsing text as a version-independent address yields the IPv4 parse if it is valid, else the IPv6 parse; every query on it equals the same query on the held address; conversions to the held version give that address and to the other version nothing; IPv4 orders before IPv6 and the order is total.',
  IC, 'every text, every pair of addresses of either version', 'tests cover a few values per method',
  ['ip-any-address.hpp'], [('dispatch on version', 'ip-any-address.hpp')])
p('C20', 'Network fields are mutually consistent for every prefix',
  'For every network the netmask has prefix-many leading ones, the hostmask is its complement, the network address has no host bits, the broadcast address is the network address with all host bits set, and membership holds exactly for the addresses sharing the prefix.',
  I, 'all addresses, all prefix lengths 0..32 / 0..128', 'tests use a few dozen networks and rarely the extreme prefixes',
  ['ip-network-base.hpp', 'ipv4-network.hpp', 'ipv6-network.hpp', 'base-v4.hpp', 'base-v6.hpp'], [('mask helpers', 'base-v6.hpp'), ('contains', 'ip-network-base.hpp')])
p('C21', 'Building a network from an address validates the prefix and host bits',
  'from_address accepts exactly prefix lengths within the address width; in strict mode host bits are an error, otherwise they are cleared; any rejected input yields an error and no out-of-range access.',
  I, 'all addresses, any prefix length value, both modes', 'tests never pass an out-of-range prefix length',
  ['ip-network-base.hpp', 'base-v4.hpp', 'base-v6.hpp'], [('from_address', 'ip-network-base.hpp')])
p('C22', 'hosts() is the documented set of usable hosts, in order',
  'hosts() of a network enumerates in increasing order exactly its addresses other than the network address and, for IPv4, the broadcast address, with the documented exceptions for the two longest prefixes; size, indexing, begin, end and iteration agree, and iteration ends.',
  I, 'all networks of every prefix length', 'tests enumerate a few small networks, none at the top of the address space',
  ['ip-networks.hpp', 'ip-address-iterator.hpp', 'ip-network-base.hpp'], [('hosts_sequence', 'ip-network-iterator.hpp')])
p('C23', 'subnets() partitions the network',
  'subnets() with a valid target prefix enumerates in increasing order disjoint networks of that prefix whose union is the network, their number is two to the prefix difference, and iteration ends; invalid prefixes are errors, never undefined behaviour.',
  I, 'all networks, all prefix differences and target prefixes', 'tests enumerate a few small splits, none at the top of the address space',
  ['ip-networks.hpp', 'ip-network-iterator.hpp', 'ip-network-base.hpp'], [('subnets_sequence', 'ip-network-iterator.hpp')])
p('C24', 'supernet() is the containing network with the shorter prefix',
  'supernet() by prefix difference or by new prefix is the network with that prefix containing the original, the /0 network being its own supernet; out-of-range arguments are errors and never undefined behaviour.',
  I, 'all networks, all differences and new prefixes', 'tests use a few networks',
  ['ip-network-base.hpp'], [('supernet', 'ip-network-base.hpp')])
p('C25', 'subnet_of, supernet_of and overlaps are the set relations',
  'subnet_of and supernet_of hold exactly when one network\'s addresses are a subset of the other\'s, overlaps exactly when they share an address, and overlaps is symmetric.',
  I, 'all pairs of networks', 'tests use about a dozen pairs',
  ['ip-network-base.hpp'], [('is_subnet_of, overlaps', 'ip-network-base.hpp')])
p('C26', 'address_exclude() is the exact complement',
  'Excluding a subnet yields disjoint networks that together with it cover exactly the original network, one for each extra prefix bit; iteration ends; excluding a network from itself yields nothing and excluding a non-subnet is an error.',
  I, 'all pairs of networks', 'tests exclude a few pairs, none touching the bottom of the address space',
  ['ip-networks.hpp', 'ip-network-iterator.hpp', 'ip-network-base.hpp'], [('exclude_network_sequence', 'ip-network-iterator.hpp')])
p('C27', 'Network comparison is a total order consistent with equality and hash',
  'Networks compare by network address, then by netmask; all operators agree and form a total order, and equal networks have equal hashes, in every language mode and for the version-independent network too.',
  IC, 'all pairs and triples of networks', 'tests compare a few pairs',
  ['ip-network-base.hpp', 'ip-any-network.hpp'], [('comparison operators', 'ip-network-base.hpp')])
p('C28', 'Network classification holds exactly when it holds for the whole network',
  'Each network predicate (multicast, private, global, reserved, loopback, link-local, unspecified, site-local) is true exactly when it holds for both its first and its last address; private further needs both ends to lie in one and the same private block, and global means not private and, for IPv4, not wholly inside the shared block 100.64.0.0/10.',
  I, 'all networks', 'tests probe a few networks',
  ['ip-network-base.hpp', 'ipv4-network.hpp', 'ipv6-network.hpp'], [('is_* of network', 'ip-network-base.hpp')])
p('C29', 'The version-independent network behaves as the network it holds',
  'Parsing text as a version-independent network yields the IPv4 parse if valid, else the IPv6 parse; every query, relation, sequence and conversion equals the same operation on the held network; mixing versions is an error or false as documented.',
  IC, 'every text, every network of either version', 'tests cover a few values per method',
  ['ip-any-network.hpp', 'ip-any-iterator.hpp'], [('dispatch on version', 'ip-any-network.hpp')])
p('C30', 'Address iterators obey random-access arithmetic modulo nothing',
  'For address iterators within a range, advancing by n and back is the identity, the difference of two iterators is the signed number of addresses between them, indexing equals advancing and dereferencing, increment agrees with advancing by one, and the comparison operators agree with the sign of the difference.',
  ['inputs', 'histories'], 'all start addresses, all representable offsets of either sign', 'tests walk short ranges forward, seldom crossing byte boundaries or using negative offsets',
  ['ip-address-iterator.hpp'], [('add, sub, carry', 'ip-address-iterator.hpp')])
p('C31', 'Network iterators obey random-access arithmetic in units of networks',
  'For subnet iterators within a range, advancing by n and back is the identity, differences count networks with sign, indexing equals advancing and dereferencing, and comparisons agree with the difference.',
  ['inputs', 'histories'], 'all networks, target prefixes and offsets', 'tests walk short ranges',
  ['ip-network-iterator.hpp'], [('add, sub, step', 'ip-network-iterator.hpp')])
p('C32', '128-bit add, multiply, shift, bit and comparison operations are exact mod 2^128',
  'Addition, subtraction, negation, increment, multiplication, shifts by 0 to 127, bitwise operations and comparisons of the 128-bit integer equal the mathematical operation modulo 2^128, alone and mixed with built-in integers, with compound and plain forms agreeing.',
  I, 'all pairs of 128-bit values', 'tests use some hundred pairs',
  ['uint128.hpp'], [('operators', 'uint128.hpp')])
p('C33', '128-bit division and remainder are exact',
  'For every dividend and non-zero divisor, quotient times divisor plus remainder is the dividend and the remainder is smaller than the divisor.',
  I, 'all pairs of 128-bit values', 'tests use some dozens of pairs; the multi-word case has rare correction steps',
  ['uint128.hpp'], [('division', 'uint128.hpp')])
p('C34', '128-bit integers print and parse exactly in each base',
  'The text of a 128-bit integer in decimal, hex or octal is the shortest representation of its value with the documented prefix handling, and parsing that text gives the value back; text that is not a number or does not fit is not parsed.',
  I, 'all 128-bit values, every base', 'tests use some dozens of values',
  ['uint128.hpp'], [('to_string, from_string', 'uint128.hpp')])
p('C35', '128-bit conversion to and from floating point is exact when representable',
  'Converting a float or double from the range (-1, 2^128) to the 128-bit integer truncates toward zero; converting an integer to double gives the nearest double, ties to even, and to float one of the two floats around it; integers with at most 53 significant bits convert to double and back unchanged.',
  I, 'all floating-point values in range', 'tests use about ten values',
  ['uint128.hpp'], [('floating-point constructors', 'uint128.hpp')])
p('C36', 'Optional, fixed string and byte array behave as their standard counterparts',
  'The library\'s optional, fixed string and byte array follow the standard semantics for construction, assignment, swap, comparison, indexing, iteration and element access in every state, for fixed strings of ASCII characters, and an out-of-range at() throws out_of_range where exceptions are enabled.',
  I, 'all contents and states', 'tests use a few instances',
  ['optional.hpp', 'fixed-string.hpp', 'byte-array.hpp'], [('member functions', 'fixed-string.hpp')])
p('C37', 'Every supported language mode computes the same results',
  'Parsing, formatting, comparison, arithmetic and network operations give the same results in C++11, 14, 17 and 20 builds, with exceptions on or off, and with scope support or UTF-8 char configured, where the feature is available.',
  IC, 'every input, every supported configuration', 'each test build checks its own samples; nothing compares builds on arbitrary input',
  ['config.hpp', 'ip-address-base.hpp', 'ip-network-base.hpp', 'base-v6.hpp'], [('feature macros', 'config.hpp')])
p('C38', 'Stream insertion and extraction are faithful',
  'Writing an address, network or 128-bit integer to a stream produces its text under the stream\'s format flags, reading it back gives an equal value, and reading malformed text reports failure without changing unrelated state.',
  I, 'every value and every text', 'tests use a handful of values',
  ['ip-address-base.hpp', 'ip-network-base.hpp', 'uint128.hpp'], [('operator<<, operator>>', 'ip-address-base.hpp')])
p('C39', 'User-defined literals equal parsing the same text',
  'Every address and network literal yields exactly what parsing the same text yields, for each character type, and malformed literals are rejected.',
  I, 'every literal text', 'tests use about a dozen literals',
  ['ipaddress.hpp', 'ipv4-address.hpp', 'ipv6-address.hpp', 'ip-any-network.hpp'], [('literal operators', 'ipv4-address.hpp')])
p('C40', 'API calls on valid objects perform no undefined operation',
  'Queries, conversions, formatting, hashing and iteration on any address, network or 128-bit integer, at any prefix length including the extremes, perform no undefined operation (shift out of range, overflow, out-of-bounds access).',
  I, 'all values at all prefix lengths', 'tests run without sanitizers and seldom at the extremes',
  ['ip-network-base.hpp', 'ip-network-iterator.hpp', 'base-v4.hpp', 'base-v6.hpp', 'uint128.hpp'], [('mask and shift helpers', 'base-v4.hpp')])
import props_extra
NA = props_extra.NA
NOTE = props_extra.NOTE
def main():
    ids = {x['id'] for x in P}
    for x in P:
        assert len(x['title']) <= 80, x['title']
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    ch = []; na = []
    for x in P:
        i = x['id']
        if i in checks.CHECKS:
            ch.append({'property': i, 'quick_cmd': 'python3-vt engine/run.py %s' % i, 'thorough_cmd': 'python3-vt engine/run.py %s --tier thorough' % i,
                'technique': 'symbolic execution of the compiled LLVM IR of /repo headers, decided by a SAT/SMT solver within stated bounds',
                'level': 'model_checking', 'level_note': NOTE.get(i, NOTE['*'])})
        else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'python3-vt engine/selftest.py', 'checks': ch, 'not_applicable': na,
         'notes': 'See DESIGN.md. No hooks in /repo are needed; fix: commits are listed in known-findings.txt.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(ch), 'claimed')
main()
