#pragma once
#define _OSTREAM_INSERT_H 1
namespace std { template<typename C, typename T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, long n) { return o << basic_string<C, T>(s, (size_t) n); } }
