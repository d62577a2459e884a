// Thin type-erased front for exprtk, so that instrumented harness translation
// units do not have to instantiate the (third-party, 40k-line) expression
// library under the sanitizers.  The real library, taken from
// /repo/trunk/dependencies/exprtk, is compiled once per check in
// exprtk_real.cpp and does all the work.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace exprtk_shim {
void* st_new(); void* st_copy(void*); void st_assign(void*, void*); void st_free(void*);
bool st_add_variable(void*, const std::string&, double&, bool);
bool st_add_constant(void*, const std::string&, double);
bool st_create_variable(void*, const std::string&, double);
bool st_remove_variable(void*, const std::string&);
bool st_exists(void*, const std::string&);
void st_clear(void*); bool st_add_constants(void*);
void* ex_new(); void* ex_copy(void*); void ex_assign(void*, void*); void ex_free(void*);
void ex_register(void*, void*); double ex_value(void*);
void* pa_new(); void pa_free(void*); bool pa_compile(void*, const std::string&, void*);
std::string pa_error(void*);
}
// An own inline namespace: the real library's weak symbols must not be taken for these.
namespace exprtk { inline namespace shimmed {
template <typename T> class symbol_table {
public:
    void* p;
    symbol_table() : p(exprtk_shim::st_new()) {}
    symbol_table(const symbol_table& o) : p(exprtk_shim::st_copy(o.p)) {}
    symbol_table& operator=(const symbol_table& o) { exprtk_shim::st_assign(p, o.p); return *this; }
    ~symbol_table() { exprtk_shim::st_free(p); }
    bool add_variable(const std::string& n, T& v, bool c = false) { return exprtk_shim::st_add_variable(p, n, v, c); }
    bool add_constant(const std::string& n, T v) { return exprtk_shim::st_add_constant(p, n, v); }
    bool create_variable(const std::string& n, T v = T(0)) { return exprtk_shim::st_create_variable(p, n, v); }
    bool remove_variable(const std::string& n, bool = true) { return exprtk_shim::st_remove_variable(p, n); }
    bool symbol_exists(const std::string& n, bool = true) const { return exprtk_shim::st_exists(p, n); }
    void clear() { exprtk_shim::st_clear(p); }
    bool add_constants() { return exprtk_shim::st_add_constants(p); }
};
template <typename T> class expression {
public:
    void* p;
    expression() : p(exprtk_shim::ex_new()) {}
    expression(const expression& o) : p(exprtk_shim::ex_copy(o.p)) {}
    expression& operator=(const expression& o) { exprtk_shim::ex_assign(p, o.p); return *this; }
    ~expression() { exprtk_shim::ex_free(p); }
    void register_symbol_table(symbol_table<T>& s) { exprtk_shim::ex_register(p, s.p); }
    T value() const { return exprtk_shim::ex_value(p); }
    T operator()() const { return value(); }
};
template <typename T> class parser {
    parser(const parser&); parser& operator=(const parser&);
public:
    void* p;
    parser() : p(exprtk_shim::pa_new()) {}
    ~parser() { exprtk_shim::pa_free(p); }
    bool compile(const std::string& s, expression<T>& e) { return exprtk_shim::pa_compile(p, s, e.p); }
    std::string error() const { return exprtk_shim::pa_error(p); }
};
} }
