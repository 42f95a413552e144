// Enough of std::ios_base / std::locale (classic locale, char only) to execute stream templates (executor only).
#include <ios>
#include <locale>
#include <streambuf>
#include "symx.h"
#include <istream>
#include <string>
#include <string.h>
#include <stdlib.h>
// numpunct<char> of the classic locale: same vtable layout
struct rt_numpunct { virtual ~rt_numpunct() { } virtual char p() const { return '.'; } virtual char t() const { return ','; } virtual std::string g() const { return std::string(); } virtual std::string tn() const { return std::string("true"); } virtual std::string fn() const { return std::string("false"); } int ref; void *data; };
extern "C" {
static void *rt_loc_impl; static char rt_ctype_obj[sizeof(std::ctype<char>)];
static void *rt_getimpl(void) { if (!rt_loc_impl) { std::locale::_Impl *im = (std::locale::_Impl *) calloc(1, sizeof(std::locale::_Impl)); std::ctype<char> *ct = (std::ctype<char> *) rt_ctype_obj; ct->_M_widen_ok = 1; ct->_M_narrow_ok = 1; for (int i = 0; i < 256; i++) { ct->_M_widen[i] = (char) i; ct->_M_narrow[i] = (char) i; } const std::locale::facet **fs = (const std::locale::facet **) calloc(4, sizeof(void *)); fs[0] = (const std::locale::facet *) ct; fs[1] = (const std::locale::facet *) (void *) new rt_numpunct; im->_M_facets = fs; im->_M_facets_size = 4; im->_M_refcount = 1000; rt_loc_impl = im; } return rt_loc_impl; }
void eo__ZNSt6localeC1Ev(std::locale *l) { l->_M_impl = (std::locale::_Impl *) rt_getimpl(); } void eo__ZNSt6localeC2Ev(std::locale *l) { l->_M_impl = (std::locale::_Impl *) rt_getimpl(); }
void eo__ZNSt6localeC1ERKS_(std::locale *l, std::locale *o) { l->_M_impl = o->_M_impl; } void eo__ZNSt6localeC2ERKS_(std::locale *l, std::locale *o) { l->_M_impl = o->_M_impl; }
std::locale *eo__ZNSt6localeaSERKS_(std::locale *l, std::locale *o) { l->_M_impl = o->_M_impl; return l; }
void eo__ZNSt6localeD1Ev(std::locale *) { } void eo__ZNSt6localeD2Ev(std::locale *) { }
size_t eo__ZNKSt6locale2id5_M_idEv(const std::locale::id *i) { return i == &std::ctype<char>::id ? 0 : i == &std::numpunct<char>::id ? 1 : 2; }
void eo__ZNSt8ios_baseC2Ev(std::ios_base *b) { b->_M_precision = 6; b->_M_width = 0; b->_M_flags = std::ios_base::fmtflags(); b->_M_exception = std::ios_base::goodbit; b->_M_streambuf_state = std::ios_base::goodbit; b->_M_callbacks = 0; b->_M_word_zero = std::ios_base::_Words(); b->_M_word_size = 8; b->_M_word = b->_M_local_word; b->_M_ios_locale._M_impl = (std::locale::_Impl *) rt_getimpl(); }
void eo__ZNSt8ios_baseC1Ev(std::ios_base *b) { eo__ZNSt8ios_baseC2Ev(b); }
void eo__ZNSt8ios_base7_M_initEv(std::ios_base *b) { b->_M_precision = 6; b->_M_width = 0; b->_M_flags = std::ios_base::skipws | std::ios_base::dec; b->_M_ios_locale._M_impl = (std::locale::_Impl *) rt_getimpl(); }
void eo__ZNSt8ios_baseD2Ev(std::ios_base *) { } void eo__ZNSt8ios_baseD1Ev(std::ios_base *) { }
bool eo__ZSt18uncaught_exceptionv(void) { return false; } int eo__ZSt19uncaught_exceptionsv(void) { return 0; }
void eo__ZNKSt5ctypeIcE13_M_widen_initEv(void *) { } 
void eo__ZSt21ios_base_library_initv(void) { }
std::istream &eo__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream &is, std::string &str, char d) {
	std::ios_base::iostate err = std::ios_base::goodbit; bool got = false; std::istream::sentry ok(is, true);
	if (ok) { str.erase(); std::streambuf *sb = is.rdbuf(); for (;;) { int c = sb->sgetc(); if (c == -1) { err |= std::ios_base::eofbit; break; } got = true; sb->sbumpc(); if ((char) c == d) break; str += (char) c; } }
	if (!got) err |= std::ios_base::failbit; if (err) is.setstate(err); return is; }
std::istream &eo__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::istream &is, std::string &str) { return eo__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(is, str, '\n'); }
}
