#define exprtk_disable_rtl_io_file
#include REAL_EXPRTK
#include <string>
using ST = exprtk::symbol_table<double>; using EX = exprtk::expression<double>; using PA = exprtk::parser<double>;
namespace exprtk_shim {
void* st_new() { return new ST; }
void* st_copy(void* o) { return new ST(*static_cast<ST*>(o)); }
void st_assign(void* a, void* b) { *static_cast<ST*>(a) = *static_cast<ST*>(b); }
void st_free(void* p) { delete static_cast<ST*>(p); }
bool st_add_variable(void* p, const std::string& n, double& v, bool c) { return static_cast<ST*>(p)->add_variable(n, v, c); }
bool st_add_constant(void* p, const std::string& n, double v) { return static_cast<ST*>(p)->add_constant(n, v); }
bool st_create_variable(void* p, const std::string& n, double v) { return static_cast<ST*>(p)->create_variable(n, v); }
bool st_remove_variable(void* p, const std::string& n) { return static_cast<ST*>(p)->remove_variable(n); }
bool st_exists(void* p, const std::string& n) { return static_cast<ST*>(p)->symbol_exists(n); }
void st_clear(void* p) { static_cast<ST*>(p)->clear(); }
bool st_add_constants(void* p) { return static_cast<ST*>(p)->add_constants(); }
void* ex_new() { return new EX; }
void* ex_copy(void* o) { return new EX(*static_cast<EX*>(o)); }
void ex_assign(void* a, void* b) { *static_cast<EX*>(a) = *static_cast<EX*>(b); }
void ex_free(void* p) { delete static_cast<EX*>(p); }
void ex_register(void* p, void* s) { static_cast<EX*>(p)->register_symbol_table(*static_cast<ST*>(s)); }
double ex_value(void* p) { return static_cast<EX*>(p)->value(); }
void* pa_new() { return new PA; }
void pa_free(void* p) { delete static_cast<PA*>(p); }
bool pa_compile(void* p, const std::string& s, void* e) { return static_cast<PA*>(p)->compile(s, *static_cast<EX*>(e)); }
std::string pa_error(void* p) { return static_cast<PA*>(p)->error(); }
}
