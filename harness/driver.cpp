// Conformance driver: executes specification operations on the real library and
// reports, for every operation, its outcome, its result and every register whose
// projected (abstract) value changed.  One forked child per episode.
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <unordered_set>
#include "values.hpp"

// ------------------------------------------------------- allocation tracking
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
}
static std::unordered_set<void*>* g_live;
static bool g_track = false;
static void* note(void* p) { if (g_track && p) g_live->insert(p); return p; }
extern "C" {
void* __wrap_malloc(size_t n) { return note(__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) { return note(__real_calloc(a, b)); }
void* __wrap_realloc(void* p, size_t n) {
  if (g_track && p) g_live->erase(p);
  return note(__real_realloc(p, n));
}
void __wrap_free(void* p) { if (g_track && p) g_live->erase(p); __real_free(p); }
char* __wrap_strdup(const char* s) { return (char*)note(__real_strdup(s)); }
char* __wrap___strdup(const char* s) { return (char*)note(__real_strdup(s)); }
char* __wrap_strndup(const char* s, size_t n) { return (char*)note(__real_strndup(s, n)); }
}
static void* gmp_alloc(size_t n) { return __wrap_malloc(n); }
static void* gmp_realloc(void* p, size_t, size_t n) { return __wrap_realloc(p, n); }
static void gmp_free(void* p, size_t) { __wrap_free(p); }

// ------------------------------------------------------------------ registers
enum { NS = 9 };
struct XObj { std::string k; void* p; };
static OInt* RI[NS];
static osl_vector_t* RV[NS];
static osl_relation_t* RR[NS];
static osl_relation_list_t* RL[NS];
static osl_statement_t* RS[NS];
static osl_scop_t* RP[NS];
static XObj* RX[NS];
static osl_names_t* RN[NS];
static osl_generic_t* RG[NS];
static osl_interface_t* RF[NS];

static osl_interface_t* kref(const std::string& k) {
  for (size_t x = 0; x < sizeof(KINDS) / sizeof(*KINDS); x++) if (k == KINDS[x]) return KREF[x];
  fprintf(stderr, "DRIVER: unknown kind %s\n", k.c_str()); _exit(77);
}
static void fr(OInt* x) { if (x) { osl_int_clear(x->p, &x->v); delete x; } }
static void fr(osl_vector_t* x) { osl_vector_free(x); }
static void fr(osl_relation_t* x) { osl_relation_free(x); }
static void fr(osl_relation_list_t* x) { osl_relation_list_free(x); }
static void fr(osl_statement_t* x) { osl_statement_free(x); }
static void fr(osl_scop_t* x) { osl_scop_free(x); }
static void fr(XObj* x) { if (x) { if (x->p) kref(x->k)->free(x->p); delete x; } }
static void fr(osl_names_t* x) { osl_names_free(x); }
static void fr(osl_generic_t* x) { osl_generic_free(x); }
static void fr(osl_interface_t* x) { osl_interface_free(x); }
static J pj(OInt* x) { return p_int(x); }
static J pj(osl_vector_t* x) { return p_vec(x); }
static J pj(osl_relation_t* x) { return p_rel(x); }
static J pj(osl_relation_list_t* x) { return p_list(x); }
static J pj(osl_statement_t* x) { return p_stmt(x); }
static J pj(osl_scop_t* x) { return p_scop(x); }
static J pj(XObj* x) { J a = J::arr(); if (x) a.push(x->p ? p_tree(x->k, x->p) : T("none")); return a; }
static J pj(osl_names_t* x) { return p_names(x); }
static J pj(osl_generic_t* x) { return p_gen(x); }
static J pj(osl_interface_t* x) { return p_ifaces(x); }

// argument access
static const J* ARGS;
static int A(size_t k) { return ARGS->at(k).i(); }
static const std::string& AS(size_t k) { return ARGS->at(k).str(); }
static int slot(size_t k) {
  int s = A(k);
  if (s < 1 || s >= NS) { fprintf(stderr, "DRIVER: bad slot\n"); _exit(77); }
  return s;
}
// every register access goes through these, so that a slot number is checked
// 100 * n + slot designates the object n links further in the chain of the slot (a view)
template <class X> static X* view(X** bank, size_t k) {
  int v = A(k), n = v / 100, s = v % 100;
  if (s < 1 || s >= NS || n < 0) { fprintf(stderr, "DRIVER: bad slot\n"); _exit(77); }
  X* p = bank[s];
  while (n-- > 0 && p) p = p->next;
  return p;
}
#define VV(k) RV[slot(k)]
#define RR_(k) view(RR, k)
#define LL(k) view(RL, k)
#define SS(k) view(RS, k)
#define PP(k) view(RP, k)
#define NN(k) RN[slot(k)]
#define GG(k) view(RG, k)
#define FF(k) view(RF, k)
static OInt* II(size_t k) { OInt* x = RI[slot(k)]; if (!x) { fprintf(stderr, "DRIVER: empty int\n"); _exit(77);} return x; }
static XObj* XX(size_t k) { XObj* x = RX[slot(k)]; if (!x) { fprintf(stderr, "DRIVER: empty x\n"); _exit(77);} return x; }
template <class X> static J put(X** reg, int d, X* v) { X* old = reg[d]; reg[d] = v; if (old != v) fr(old); return J(""); }
static J putx(int d, const std::string& k, void* p) { return put(RX, d, p ? new XObj{k, p} : new XObj{k, nullptr}); }
static OInt* dst_int(int s, int p) {  // destination integer of the given precision
  if (RI[s] && RI[s]->p != p) { fr(RI[s]); RI[s] = nullptr; }
  if (!RI[s]) { RI[s] = new OInt; RI[s]->p = p; osl_int_init(p, &RI[s]->v); }
  return RI[s];
}
// text in and out
static J out(std::function<void(FILE*)> f) {
  char* buf = nullptr; size_t n = 0;
  FILE* o = open_memstream(&buf, &n);
  f(o); fclose(o);
  J r(std::string(buf, n));
  __real_free(buf);
  return r;
}
static J txt(char* s) { if (!s) return J(NUL_STR); J r{std::string(s)}; free(s); return r; }
static FILE* in(const std::string& s) {
  if (s.empty()) return fopen("/dev/null", "r");
  return fmemopen((void*)s.data(), s.size(), "r");
}
static J bo(bool b) { return J(b ? 1 : 0); }
struct Cur {  // a cursor over a private, exactly sized copy of the text
  char *base, *cur;
  Cur(const std::string& s) { base = cur = (char*)__real_malloc(s.size() + 1); memcpy(base, s.c_str(), s.size() + 1); }
  std::string rest() { return cur ? std::string(cur) : std::string(NUL_STR); }
  ~Cur() { __real_free(base); }
};
struct SArr {  // NULL-terminated array of strings
  std::vector<char*> v;
  SArr(const J& j) { for (auto& x : j.a) { size_t n = x.str().size(); char* p = (char*)__real_malloc(n + 1); memcpy(p, x.str().c_str(), n + 1); v.push_back(p);} v.push_back(nullptr); }
  ~SArr() { for (auto p : v) __real_free(p); }
  char** p() { return v.data(); }
};
static J attrs(int a, int b, int c, int d, int e) { return J::arr().push(a).push(b).push(c).push(d).push(e); }
static J optstr(char* s) { J a = J::arr(); if (s) { a.push(J(std::string(s))); free(s);} return a; }
static J pair(const J& a, const J& b) { return J::arr().push(a).push(b); }

typedef std::function<J()> Op;
static std::map<std::string, Op> OPS;
static void setup() {
  auto& O = OPS;
  const J NIL("");
#define OP(name) O[name] = [=]() -> J
  // ---------------------------------------------------------------- environment
  OP("env.precision") { if (AS(0) == "unset") unsetenv("OSL_PRECISION"); else setenv("OSL_PRECISION", AS(0).c_str(), 1); return NIL; };
  OP("util.get_precision") { return J(osl_util_get_precision()); };
  // ------------------------------------------------------------------- integers
  OP("int.set") { return put(RI, slot(0), b_int(ARGS->at(1))); };
  OP("int.init") { int s = slot(0); put(RI, s, (OInt*)nullptr); osl_int_t v; memset(&v, 0x5a, sizeof v); osl_int_init(A(1), &v); RI[s] = new OInt{A(1), v}; return NIL; };
  OP("int.malloc") { int s = slot(0); osl_int_t* m = osl_int_malloc(A(1)); put(RI, s, new OInt{A(1), *m}); free(m); return NIL; };
  OP("int.init_set") { osl_int_t v; memset(&v, 0x5a, sizeof v); OInt* a = II(1); osl_int_init_set(a->p, &v, a->v); return put(RI, slot(0), new OInt{a->p, v}); };
  OP("int.init_set_si") { osl_int_t v; memset(&v, 0x5a, sizeof v); osl_int_init_set_si(A(1), &v, A(2)); return put(RI, slot(0), new OInt{A(1), v}); };
  OP("int.init_set_long") { osl_int_t v; memset(&v, 0x5a, sizeof v); osl_int_init_set_long(A(1), &v, strtol(AS(2).c_str(), 0, 10)); return put(RI, slot(0), new OInt{A(1), v}); };
  OP("int.init_set_long_long") { osl_int_t v; memset(&v, 0x5a, sizeof v); osl_int_init_set_long_long(A(1), &v, strtoll(AS(2).c_str(), 0, 10)); return put(RI, slot(0), new OInt{A(1), v}); };
  OP("int.set_si") { OInt* a = II(0); osl_int_set_si(a->p, &a->v, A(1)); return NIL; };
  OP("int.set_long") { OInt* a = II(0); osl_int_set_long(a->p, &a->v, strtol(AS(1).c_str(), 0, 10)); return NIL; };
  OP("int.set_long_long") { OInt* a = II(0); osl_int_set_long_long(a->p, &a->v, strtoll(AS(1).c_str(), 0, 10)); return NIL; };
  OP("int.assign") { OInt *a = II(0), *b = II(1); osl_int_assign(b->p, &a->v, b->v); return NIL; };
  OP("int.swap") { OInt *a = II(0), *b = II(1); osl_int_swap(a->p, &a->v, &b->v); return NIL; };
  OP("int.free") { OInt* a = II(0); osl_int_t* m = osl_int_malloc(a->p); osl_int_assign(a->p, m, a->v); osl_int_free(a->p, m); return put(RI, slot(0), (OInt*)nullptr); };
  OP("int.get_si") { OInt* a = II(0); return J(osl_int_get_si(a->p, a->v)); };
  OP("int.get_long") { OInt* a = II(0); return J(std::to_string(osl_int_get_long(a->p, a->v))); };
  OP("int.get_long_long") { OInt* a = II(0); return J(std::to_string(osl_int_get_long_long(a->p, a->v))); };
  OP("int.get_d") { OInt* a = II(0); char b[400]; snprintf(b, sizeof b, "%.0f", osl_int_get_d(a->p, a->v)); return J(b); };
  OP("int.print") { OInt* a = II(0); return out([=](FILE* f) { osl_int_print(f, a->p, a->v); }); };
  OP("int.sprint") { OInt* a = II(0); std::vector<char> bv(OSL_MAX_STRING + (a->p == OSL_PRECISION_MP ? mpz_sizeinbase(*a->v.mp, 10) : 0)); char* b = bv.data(); osl_int_sprint(b, a->p, a->v); return J(b); };
  OP("int.sprint_txt") { OInt* a = II(0); std::vector<char> bv(OSL_MAX_STRING + (a->p == OSL_PRECISION_MP ? mpz_sizeinbase(*a->v.mp, 10) : 0)); char* b = bv.data(); osl_int_sprint_txt(b, a->p, a->v); return J(b); };
  OP("int.sscanf") { OInt* a = II(0); Cur c(AS(1)); return J(osl_int_sscanf(c.cur, a->p, &a->v)); };
  OP("int.sread") { OInt* a = II(0); Cur c(AS(1)); osl_int_sread(&c.cur, a->p, &a->v); return J(c.rest()); };
#define INT1(n) OP("int." #n) { OInt* a = II(1); osl_int_t v = a->v; OInt* d = dst_int(slot(0), a->p); if (d == a) v = d->v; osl_int_##n(a->p, &d->v, v); return NIL; };
  INT1(increment) INT1(decrement) INT1(oppose) INT1(abs)
#define INT2(n) OP("int." #n) { OInt *a = II(1), *b = II(2); OInt* d = dst_int(slot(0), a->p); osl_int_##n(a->p, &d->v, a->v, b->v); return NIL; };
  INT2(add) INT2(sub) INT2(mul) INT2(div_exact) INT2(floor_div_q) INT2(floor_div_r) INT2(mod) INT2(gcd) INT2(lcm)
#define INTSI(n) OP("int." #n) { OInt* a = II(1); OInt* d = dst_int(slot(0), a->p); osl_int_##n(a->p, &d->v, a->v, A(2)); return NIL; };
  INTSI(add_si) INTSI(mul_si)
  OP("int.floor_div_q_r") { OInt *a = II(2), *b = II(3); OInt* q = dst_int(slot(0), a->p); OInt* r = dst_int(slot(1), a->p); osl_int_floor_div_q_r(a->p, &q->v, &r->v, a->v, b->v); return NIL; };
#define INTC(n) OP("int." #n) { OInt *a = II(0), *b = II(1); return bo(osl_int_##n(a->p, a->v, b->v)); };
  INTC(eq) INTC(ne) INTC(lt) INTC(le) INTC(gt) INTC(ge) INTC(divisible)
#define INTP(n) OP("int." #n) { OInt* a = II(0); return bo(osl_int_##n(a->p, a->v)); };
  INTP(pos) INTP(neg) INTP(zero) INTP(one) INTP(mone)
  OP("int.size_in_base_2") { OInt* a = II(0); return J(osl_int_size_in_base_2(a->p, a->v)); };
  OP("int.size_in_base_10") { OInt* a = II(0); return J(osl_int_size_in_base_10(a->p, a->v)); };
  OP("int.set_precision") { OInt* a = II(0); osl_int_set_precision(a->p, A(1), &a->v); a->p = A(1); return NIL; };
  OP("int.is_precision_supported") { return bo(osl_int_is_precision_supported(A(0))); };
  // -------------------------------------------------------------------- vectors
  OP("vec.set") { return put(RV, slot(0), b_vec(ARGS->at(1))); };
  OP("vec.pmalloc") { return put(RV, slot(0), osl_vector_pmalloc(A(1), A(2))); };
  OP("vec.malloc") { return put(RV, slot(0), osl_vector_malloc(A(1))); };
  OP("vec.free") { return put(RV, slot(0), (osl_vector_t*)nullptr); };
  OP("vec.add_scalar") { return put(RV, slot(0), osl_vector_add_scalar(VV(1), A(2))); };
  OP("vec.mul_scalar") { return put(RV, slot(0), osl_vector_mul_scalar(VV(1), A(2))); };
  OP("vec.add") { return put(RV, slot(0), osl_vector_add(VV(1), VV(2))); };
  OP("vec.sub") { return put(RV, slot(0), osl_vector_sub(VV(1), VV(2))); };
  OP("vec.tag_inequality") { osl_vector_tag_inequality(VV(0)); return NIL; };
  OP("vec.tag_equality") { osl_vector_tag_equality(VV(0)); return NIL; };
  OP("vec.equal") { return bo(osl_vector_equal(VV(0), VV(1))); };
  OP("vec.is_scalar") { return bo(osl_vector_is_scalar(VV(0))); };
  OP("vec.dump") { auto a = VV(0); out([=](FILE* f) { osl_vector_dump(f, a); }); return NIL; };
  // ------------------------------------------------------------------ relations
  OP("rel.set") { return put(RR, slot(0), b_rel(ARGS->at(1))); };
  OP("rel.pmalloc") { return put(RR, slot(0), osl_relation_pmalloc(A(1), A(2), A(3))); };
  OP("rel.malloc") { return put(RR, slot(0), osl_relation_malloc(A(1), A(2))); };
  OP("rel.free") { return put(RR, slot(0), (osl_relation_t*)nullptr); };
  OP("rel.clone") { return put(RR, slot(0), osl_relation_clone(RR_(1))); };
  OP("rel.nclone") { return put(RR, slot(0), osl_relation_nclone(RR_(1), A(2))); };
  OP("rel.clone_nconstraints") { return put(RR, slot(0), osl_relation_clone_nconstraints(RR_(1), A(2))); };
  OP("rel.nb_components") { return J(osl_relation_nb_components(RR_(0))); };
  OP("rel.add") { int a = slot(0), b = slot(1); osl_relation_t* x = RR[b]; RR[b] = nullptr; osl_relation_add(&RR[a], x); return NIL; };
  OP("rel.remove_part") { int a = slot(0), k = A(1); osl_relation_t *p = RR[a], *head = p; while (p && --k > 0) p = p->next; osl_relation_remove_part(&RR[a], p);
    // whether the removed head is freed is left open: do it here when it is still live
    if (head && head == p && g_live->count(head)) { head->next = NULL; osl_relation_free(head); } return NIL; };
  OP("rel.union") { return put(RR, slot(0), osl_relation_union(RR_(1), RR_(2))); };
  OP("rel.replace_vector") { osl_relation_replace_vector(RR_(0), VV(1), A(2)); return NIL; };
  OP("rel.insert_vector") { osl_relation_insert_vector(RR_(0), VV(1), A(2)); return NIL; };
  OP("rel.concat_vector") { return put(RR, slot(0), osl_relation_concat_vector(RR_(1), VV(2))); };
  OP("rel.insert_blank_row") { osl_relation_insert_blank_row(RR_(0), A(1)); return NIL; };
  OP("rel.insert_blank_column") { osl_relation_insert_blank_column(RR_(0), A(1)); return NIL; };
  OP("rel.add_vector") { osl_relation_add_vector(RR_(0), VV(1), A(2)); return NIL; };
  OP("rel.sub_vector") { osl_relation_sub_vector(RR_(0), VV(1), A(2)); return NIL; };
  OP("rel.from_vector") { return put(RR, slot(0), osl_relation_from_vector(VV(1))); };
  OP("rel.replace_constraints") { osl_relation_replace_constraints(RR_(0), RR_(1), A(2)); return NIL; };
  OP("rel.insert_constraints") { osl_relation_insert_constraints(RR_(0), RR_(1), A(2)); return NIL; };
  OP("rel.swap_constraints") { osl_relation_swap_constraints(RR_(0), A(1), A(2)); return NIL; };
  OP("rel.remove_row") { osl_relation_remove_row(RR_(0), A(1)); return NIL; };
  OP("rel.remove_column") { osl_relation_remove_column(RR_(0), A(1)); return NIL; };
  OP("rel.insert_columns") { osl_relation_insert_columns(RR_(0), RR_(1), A(2)); return NIL; };
  OP("rel.concat_constraints") { return put(RR, slot(0), osl_relation_concat_constraints(RR_(1), RR_(2))); };
  OP("rel.part_equal") { return bo(osl_relation_part_equal(RR_(0), RR_(1))); };
  OP("rel.equal") { return bo(osl_relation_equal(RR_(0), RR_(1))); };
  OP("rel.integrity_check") { return bo(osl_relation_integrity_check(RR_(0), A(1), A(2), A(3), A(4))); };
  OP("rel.set_attributes_one") { osl_relation_set_attributes_one(RR_(0), A(1), A(2), A(3), A(4)); return NIL; };
  OP("rel.set_attributes") { osl_relation_set_attributes(RR_(0), A(1), A(2), A(3), A(4)); return NIL; };
  OP("rel.set_type") { osl_relation_set_type(RR_(0), A(1)); return NIL; };
  OP("rel.get_array_id") { return J(osl_relation_get_array_id(RR_(0))); };
  OP("rel.is_access") { return bo(osl_relation_is_access(RR_(0))); };
  OP("rel.get_attributes") { int v[5] = {A(1), A(1), A(1), A(1), A(1)}; osl_relation_get_attributes(RR_(0), v, v + 1, v + 2, v + 3, v + 4); return attrs(v[0], v[1], v[2], v[3], v[4]); };
  OP("rel.extend_output") { return put(RR, slot(0), osl_relation_extend_output(RR_(1), A(2))); };
  OP("rel.set_precision") { osl_relation_set_precision(A(1), RR_(0)); return NIL; };
  OP("rel.set_same_precision") { osl_relation_set_same_precision(RR_(0), RR_(1)); return NIL; };
  OP("rel.dump") { auto a = RR_(0); out([=](FILE* f) { osl_relation_dump(f, a); }); return NIL; };
  OP("rel.expression") { SArr n(ARGS->at(2)); return txt(osl_relation_expression(RR_(0), A(1), n.p())); };
  OP("rel.print") { auto a = RR_(0); return out([=](FILE* f) { osl_relation_print(f, a); }); };
  OP("rel.pprint") { auto a = RR_(0); auto n = NN(1); return out([=](FILE* f) { osl_relation_pprint(f, a, n); }); };
  OP("rel.sprint") { return txt(osl_relation_sprint(RR_(0))); };
  OP("rel.spprint") { return txt(osl_relation_spprint(RR_(0), NN(1))); };
  OP("rel.spprint_polylib") { return txt(osl_relation_spprint_polylib(RR_(0), NN(1))); };
  OP("rel.spprint_polylib_scoplib") { return txt(osl_relation_spprint_polylib_scoplib(RR_(0), NN(1), A(2), A(3))); };
  OP("rel.spprint_scoplib") { return txt(osl_relation_spprint_scoplib(RR_(0), NN(1), A(2), A(3))); };
  OP("rel.pprint_scoplib") { auto a = RR_(0); auto n = NN(1); int x = A(2), y = A(3); return out([=](FILE* f) { osl_relation_pprint_scoplib(f, a, n, x, y); }); };
  OP("rel.read") { FILE* f = in(AS(1)); auto r = osl_relation_read(f); fclose(f); return put(RR, slot(0), r); };
  OP("rel.pread") { FILE* f = in(AS(2)); auto r = osl_relation_pread(f, A(1)); fclose(f); return put(RR, slot(0), r); };
  OP("rel.sread") { Cur c(AS(1)); auto r = osl_relation_sread(&c.cur); put(RR, slot(0), r); return J(c.rest()); };
  OP("rel.psread") { Cur c(AS(2)); auto r = osl_relation_psread(&c.cur, A(1)); put(RR, slot(0), r); return J(c.rest()); };
  OP("rel.sread_polylib") { Cur c(AS(1)); auto r = osl_relation_sread_polylib(&c.cur); put(RR, slot(0), r); return J(c.rest()); };
  OP("rel.psread_polylib") { Cur c(AS(2)); auto r = osl_relation_psread_polylib(&c.cur, A(1)); put(RR, slot(0), r); return J(c.rest()); };
  // ------------------------------------------------------------- relation lists
  OP("list.set") { return put(RL, slot(0), b_list(ARGS->at(1))); };
  OP("list.malloc") { return put(RL, slot(0), osl_relation_list_malloc()); };
  OP("list.free") { return put(RL, slot(0), (osl_relation_list_t*)nullptr); };
  OP("list.node") { return put(RL, slot(0), osl_relation_list_node(RR_(1))); };
  OP("list.clone") { return put(RL, slot(0), osl_relation_list_clone(LL(1))); };
  OP("list.concat") { return put(RL, slot(0), osl_relation_list_concat(LL(1), LL(2))); };
  OP("list.add") { int a = slot(0), b = slot(1); auto x = RL[b]; RL[b] = nullptr; osl_relation_list_add(&RL[a], x); return NIL; };
  OP("list.push") { int a = slot(0), b = slot(1); auto x = RL[b]; RL[b] = nullptr; osl_relation_list_push(&RL[a], x); return NIL; };
  OP("list.pop") { int d = slot(0), a = slot(1); auto x = osl_relation_list_pop(&RL[a]); return put(RL, d, x); };
  OP("list.dup") { osl_relation_list_dup(&RL[slot(0)]); return NIL; };
  OP("list.drop") { osl_relation_list_drop(&RL[slot(0)]); return NIL; };
  OP("list.destroy") { osl_relation_list_destroy(&RL[slot(0)]); return NIL; };
  OP("list.equal") { return bo(osl_relation_list_equal(LL(0), LL(1))); };
  OP("list.integrity_check") { return bo(osl_relation_list_integrity_check(LL(0), A(1), A(2), A(3), A(4))); };
  OP("list.set_type") { osl_relation_list_set_type(LL(0), A(1)); return NIL; };
  OP("list.filter") { return put(RL, slot(0), osl_relation_list_filter(LL(1), A(2))); };
  OP("list.count") { return J(osl_relation_list_count(LL(0))); };
  OP("list.get_attributes") { int v[5] = {A(1), A(1), A(1), A(1), A(1)}; osl_relation_list_get_attributes(LL(0), v, v + 1, v + 2, v + 3, v + 4); return attrs(v[0], v[1], v[2], v[3], v[4]); };
  OP("list.dump") { auto a = LL(0); out([=](FILE* f) { osl_relation_list_dump(f, a); }); return NIL; };
  OP("list.print") { auto a = LL(0); return out([=](FILE* f) { osl_relation_list_print(f, a); }); };
  OP("list.pprint") { auto a = LL(0); auto n = NN(1); return out([=](FILE* f) { osl_relation_list_pprint(f, a, n); }); };
  OP("list.pprint_elts") { auto a = LL(0); auto n = NN(1); return out([=](FILE* f) { osl_relation_list_pprint_elts(f, a, n); }); };
  OP("list.pprint_access_array_scoplib") { auto a = LL(0); auto n = NN(1); int x = A(2); return out([=](FILE* f) { osl_relation_list_pprint_access_array_scoplib(f, a, n, x); }); };
  OP("list.read") { FILE* f = in(AS(1)); auto r = osl_relation_list_read(f); fclose(f); return put(RL, slot(0), r); };
  OP("list.roundtrip") { auto a = LL(1); std::string t = out([=](FILE* f) { osl_relation_list_print(f, a); }).str(); FILE* f = in(t); auto r = osl_relation_list_pread(f, A(2)); fclose(f); return put(RL, slot(0), r); };
  OP("list.pread") { FILE* f = in(AS(2)); auto r = osl_relation_list_pread(f, A(1)); fclose(f); return put(RL, slot(0), r); };
  // ----------------------------------------------------------------- statements
  OP("stmt.set") { return put(RS, slot(0), b_stmt(ARGS->at(1))); };
  OP("stmt.malloc") { return put(RS, slot(0), osl_statement_malloc()); };
  OP("stmt.free") { return put(RS, slot(0), (osl_statement_t*)nullptr); };
  OP("stmt.clone") { return put(RS, slot(0), osl_statement_clone(SS(1))); };
  OP("stmt.nclone") { return put(RS, slot(0), osl_statement_nclone(SS(1), A(2))); };
  OP("stmt.add") { int a = slot(0), b = slot(1); auto x = RS[b]; RS[b] = nullptr; osl_statement_add(&RS[a], x); return NIL; };
  OP("stmt.number") { return J(osl_statement_number(SS(0))); };
  OP("stmt.equal") { return bo(osl_statement_equal(SS(0), SS(1))); };
  OP("stmt.remove_unions") { return put(RS, slot(0), osl_statement_remove_unions(SS(1))); };
  OP("stmt.integrity_check") { return bo(osl_statement_integrity_check(SS(0), A(1))); };
  OP("stmt.get_nb_iterators") { return J(osl_statement_get_nb_iterators(SS(0))); };
  OP("stmt.get_attributes") { int v[5] = {A(1), A(1), A(1), A(1), A(1)}; osl_statement_get_attributes(SS(0), v, v + 1, v + 2, v + 3, v + 4); return attrs(v[0], v[1], v[2], v[3], v[4]); };
  OP("stmt.get_body") { return t_body(osl_statement_get_body(SS(0))); };
  OP("stmt.dump") { auto a = SS(0); out([=](FILE* f) { osl_statement_dump(f, a); }); return NIL; };
  OP("stmt.print") { auto a = SS(0); return out([=](FILE* f) { osl_statement_print(f, a); }); };
  OP("stmt.pprint") { auto a = SS(0); auto n = NN(1); return out([=](FILE* f) { osl_statement_pprint(f, a, n); }); };
  OP("stmt.pprint_scoplib") { auto a = SS(0); auto n = NN(1); return out([=](FILE* f) { osl_statement_pprint_scoplib(f, a, n); }); };
  OP("stmt.read") { FILE* f = in(AS(1)); auto r = osl_statement_read(f); fclose(f); return put(RS, slot(0), r); };
  OP("stmt.roundtrip") { auto a = SS(1); std::string t = out([=](FILE* f) { osl_statement_print(f, a); }).str(); FILE* f = in(t); auto r = osl_statement_pread(f, FF(2), A(3)); fclose(f); return put(RS, slot(0), r); };
  OP("stmt.pread") { FILE* f = in(AS(3)); auto r = osl_statement_pread(f, FF(1), A(2)); fclose(f); return put(RS, slot(0), r); };
  // ---------------------------------------------------------------------- scops
  OP("scop.set") { return put(RP, slot(0), b_scop(ARGS->at(1))); };
  OP("scop.malloc") { return put(RP, slot(0), osl_scop_malloc()); };
  OP("scop.free") { return put(RP, slot(0), (osl_scop_t*)nullptr); };
  OP("scop.clone") { return put(RP, slot(0), osl_scop_clone(PP(1))); };
  OP("scop.add") { int a = slot(0), b = slot(1); auto x = RP[b]; RP[b] = nullptr; osl_scop_add(&RP[a], x); return NIL; };
  OP("scop.number") { return J(osl_scop_number(PP(0))); };
  OP("scop.equal") { return bo(osl_scop_equal(PP(0), PP(1))); };
  OP("scop.remove_unions") { return put(RP, slot(0), osl_scop_remove_unions(PP(1))); };
  OP("scop.integrity_check") { return bo(osl_scop_integrity_check(PP(0))); };
  OP("scop.check_compatible_scoplib") { return bo(osl_scop_check_compatible_scoplib(PP(0))); };
  OP("scop.get_nb_parameters") { return J(osl_scop_get_nb_parameters(PP(0))); };
  OP("scop.register_extension") { int f = slot(1); auto x = RF[f]; RF[f] = nullptr; osl_scop_register_extension(PP(0), x); return NIL; };
  OP("scop.get_attributes") { int v[5] = {A(1), A(1), A(1), A(1), A(1)}; osl_scop_get_attributes(PP(0), v, v + 1, v + 2, v + 3, v + 4); return attrs(v[0], v[1], v[2], v[3], v[4]); };
  OP("scop.normalize_scattering") { osl_scop_normalize_scattering(PP(0)); return NIL; };
  OP("scop.names") { return put(RN, slot(0), osl_scop_names(PP(1))); };
  OP("scop.dump") { auto a = PP(0); out([=](FILE* f) { osl_scop_dump(f, a); }); return NIL; };
  OP("scop.print") { auto a = PP(0); return out([=](FILE* f) { osl_scop_print(f, a); }); };
  OP("scop.print_scoplib") { auto a = PP(0); return out([=](FILE* f) { osl_scop_print_scoplib(f, a); }); };
  OP("scop.read") { FILE* f = in(AS(1)); auto r = osl_scop_read(f); fclose(f); return put(RP, slot(0), r); };
  OP("scop.roundtrip") { auto a = PP(1); std::string t = out([=](FILE* f) { osl_scop_print(f, a); }).str(); FILE* f = in(t); auto r = osl_scop_pread(f, FF(2), A(3)); fclose(f); return put(RP, slot(0), r); };
  OP("scop.pread") { FILE* f = in(AS(3)); auto r = osl_scop_pread(f, FF(1), A(2)); fclose(f); return put(RP, slot(0), r); };
  // ------------------------------------------------------------------- generics
  OP("gen.set") { return put(RG, slot(0), b_gen(ARGS->at(1))); };
  OP("gen.malloc") { return put(RG, slot(0), osl_generic_malloc()); };
  OP("gen.free") { return put(RG, slot(0), (osl_generic_t*)nullptr); };
  OP("gen.clone") { return put(RG, slot(0), osl_generic_clone(GG(1))); };
  OP("gen.nclone") { return put(RG, slot(0), osl_generic_nclone(GG(1), A(2))); };
  OP("gen.equal") { return bo(osl_generic_equal(GG(0), GG(1))); };
  OP("gen.add") { int a = slot(0), b = slot(1); auto x = RG[b]; RG[b] = nullptr; osl_generic_add(&RG[a], x); return NIL; };
  OP("gen.remove") { osl_generic_remove(&RG[slot(0)], AS(1).c_str()); return NIL; };
  OP("gen.remove_node") { int a = slot(0), k = A(1); auto p = RG[a]; while (p && --k > 0) p = p->next; osl_generic_remove_node(&RG[a], p); return NIL; };
  OP("gen.number") { return J(osl_generic_number(GG(0))); };
  OP("gen.count") { return J(osl_generic_count(GG(0))); };
  OP("gen.has_URI") { return bo(osl_generic_has_URI(GG(0), AS(1).c_str())); };
  OP("gen.lookup") { void* d = osl_generic_lookup(GG(0), AS(1).c_str()); J a = J::arr(); if (d) { std::string k = "raw"; for (auto g = GG(0); g; g = g->next) if (g->data == d && g->interface) k = iface_kind(g->interface); a.push(p_tree(k, d)); } return a; };
  OP("gen.shell") { int x = slot(1), f = slot(2); void* d = nullptr; if (RX[x]) { d = RX[x]->p; delete RX[x]; RX[x] = nullptr; } auto i = RF[f]; RF[f] = nullptr; return put(RG, slot(0), osl_generic_shell(d, i)); };
  OP("gen.dump") { auto a = GG(0); out([=](FILE* f) { osl_generic_dump(f, a); }); return NIL; };
  OP("gen.print") { auto a = GG(0); return out([=](FILE* f) { osl_generic_print(f, a); }); };
  OP("gen.sprint") { return txt(osl_generic_sprint(GG(0))); };
  OP("gen.print_options_scoplib") { auto a = GG(0); return out([=](FILE* f) { osl_generic_print_options_scoplib(f, a); }); };
  OP("gen.sread") { Cur c(AS(2)); auto r = osl_generic_sread(&c.cur, FF(1)); put(RG, slot(0), r); return J(c.rest()); };
  OP("gen.sread_one") { Cur c(AS(2)); auto r = osl_generic_sread_one(&c.cur, FF(1)); put(RG, slot(0), r); return J(c.rest()); };
  OP("gen.read") { FILE* f = in(AS(2)); auto r = osl_generic_read(f, FF(1)); fclose(f); return put(RG, slot(0), r); };
  OP("gen.roundtrip") { char* t = osl_generic_sprint(GG(1)); Cur c(t); free(t); return put(RG, slot(0), osl_generic_sread(&c.cur, FF(2))); };
  OP("gen.read_one") { FILE* f = in(AS(2)); auto r = osl_generic_read_one(f, FF(1)); fclose(f); return put(RG, slot(0), r); };
  // ----------------------------------------------------------------- interfaces
  OP("ifc.set") { return put(RF, slot(0), b_ifaces(ARGS->at(1))); };
  OP("ifc.default") { return put(RF, slot(0), osl_interface_get_default_registry()); };
  OP("ifc.free") { return put(RF, slot(0), (osl_interface_t*)nullptr); };
  OP("ifc.clone") { return put(RF, slot(0), osl_interface_clone(FF(1))); };
  OP("ifc.nclone") { return put(RF, slot(0), osl_interface_nclone(FF(1), A(2))); };
  OP("ifc.add") { int a = slot(0), b = slot(1); auto x = RF[b]; RF[b] = nullptr; osl_interface_add(&RF[a], x); return NIL; };
  OP("ifc.number") { return J(osl_interface_number(FF(0))); };
  OP("ifc.equal") { return bo(osl_interface_equal(FF(0), FF(1))); };
  OP("ifc.lookup") { auto f = osl_interface_lookup(FF(0), AS(1).c_str()); return f ? J(iface_kind(f)) : J(NUL_STR); };
  OP("ifc.dump") { auto a = FF(0); out([=](FILE* f) { osl_interface_dump(f, a); }); return NIL; };
  // ----------------------------------------------------- extension objects (trees)
  OP("x.set") { const J& t = ARGS->at(1); return putx(slot(0), t["t"].str(), b_tree(t)); };
  OP("x.malloc") { return putx(slot(0), AS(1), kref(AS(1))->malloc()); };
  OP("x.free") { return put(RX, slot(0), (XObj*)nullptr); };
  OP("x.clone") { XObj* a = XX(1); return putx(slot(0), a->k, kref(a->k)->clone(a->p)); };
  OP("x.equal") { XObj *a = XX(0), *b = XX(1); return bo(kref(a->k)->equal(a->p, b->p)); };
  OP("x.sprint") { XObj* a = XX(0); return txt(kref(a->k)->sprint(a->p)); };
  OP("x.dump") { XObj* a = XX(0); out([=](FILE* f) { kref(a->k)->idump(f, a->p, 1); 
#define DUMP(k_) if (a->k == #k_) osl_##k_##_dump(f, (osl_##k_##_t*)a->p);
DUMP(annotation) DUMP(arrays) DUMP(body) DUMP(clay) DUMP(comment) DUMP(coordinates) DUMP(dependence) DUMP(extbody) DUMP(irregular) DUMP(loop) DUMP(null) DUMP(pluto_unroll) DUMP(region) DUMP(scatinfos) DUMP(scatnames) DUMP(strings) DUMP(symbols) DUMP(textual) DUMP(relation) }); return NIL; };
  OP("x.sread") { Cur c(AS(2)); std::string k = AS(1); void* p = kref(k)->sread(&c.cur); putx(slot(0), k, p); return J(c.rest()); };
  OP("x.roundtrip") {  // print to text, read the text again
    XObj* a = XX(1); std::string k = a->k; auto f = kref(k); char* t = f->sprint(a->p);
    if (!t) { fprintf(stderr, "DRIVER: nothing printed\n"); _exit(77); }
    Cur c(t); free(t); void* p = f->sread(&c.cur); return putx(slot(0), k, p); };
  OP("x.null") { return put(RX, slot(0), new XObj{AS(1), nullptr}); };
#define XP(T, k) ((T*)XX(k)->p)
  OP("strings.add") { osl_strings_add(XP(osl_strings_t, 0), AS(1).c_str()); return NIL; };
  OP("strings.find") { return J(osl_strings_find(XP(osl_strings_t, 0), AS(1).c_str())); };
  OP("strings.size") { return J(osl_strings_size(XP(osl_strings_t, 0))); };
  OP("strings.encapsulate") { return putx(slot(0), "strings", osl_strings_encapsulate(osl_util_strdup(AS(1).c_str()))); };
  OP("strings.generate") { return putx(slot(0), "strings", osl_strings_generate(AS(1).c_str(), A(2))); };
  OP("strings.add_strings") { osl_strings_t* d = nullptr; osl_strings_add_strings(&d, XP(osl_strings_t, 1), XP(osl_strings_t, 2)); return putx(slot(0), "strings", d); };
  OP("strings.print") { auto a = XP(osl_strings_t, 0); return out([=](FILE* f) { osl_strings_print(f, a); }); };
  OP("strings.read") { FILE* f = in(AS(1)); auto r = osl_strings_read(f); fclose(f); return putx(slot(0), "strings", r); };
  OP("body.print") { auto a = XP(osl_body_t, 0); return out([=](FILE* f) { osl_body_print(f, a); }); };
  OP("body.print_scoplib") { auto a = XP(osl_body_t, 0); return out([=](FILE* f) { osl_body_print_scoplib(f, a); }); };
  OP("arrays.to_strings") { return putx(slot(0), "strings", osl_arrays_to_strings(XP(osl_arrays_t, 1))); };
  OP("arrays.add") { return J(osl_arrays_add(XP(osl_arrays_t, 0), A(1), AS(2).c_str())); };
  OP("arrays.get_index_from_id") { return J(osl_arrays_get_index_from_id(XP(osl_arrays_t, 0), A(1))); };
  OP("arrays.get_index_from_name") { return J(osl_arrays_get_index_from_name(XP(osl_arrays_t, 0), AS(1).c_str())); };
  OP("extbody.add") { osl_extbody_add(XP(osl_extbody_t, 0), A(1), A(2)); return NIL; };
  OP("loop.add") { XObj *b = XX(1); int a = slot(0); auto x = (osl_loop_t*)b->p; b->p = nullptr; put(RX, slot(1), (XObj*)nullptr); if (!RX[a]) RX[a] = new XObj{"loop", nullptr}; auto head = (osl_loop_t*)RX[a]->p; osl_loop_add(x, &head); RX[a]->p = head; return NIL; };
  OP("loop.count") { return J(osl_loop_count(XP(osl_loop_t, 0))); };
  OP("loop.clone_one") { return putx(slot(0), "loop", osl_loop_clone_one(XP(osl_loop_t, 1))); };
  OP("loop.equal_one") { return bo(osl_loop_equal_one(XP(osl_loop_t, 0), XP(osl_loop_t, 1))); };
  OP("dependence.add") { XObj *b = XX(1); int a = slot(0); auto x = (osl_dependence_t*)b->p; b->p = nullptr; put(RX, slot(1), (XObj*)nullptr); if (!RX[a]) RX[a] = new XObj{"dependence", nullptr}; auto head = (osl_dependence_t*)RX[a]->p; auto last = head; while (last && last->next) last = last->next; osl_dependence_add(&head, &last, x); RX[a]->p = head; auto e = head; while (e && e->next) e = e->next; return bo(e == last); };
  OP("dependence.nb") { return J(osl_nb_dependences(XP(osl_dependence_t, 0))); };
  OP("dependence.print") { auto a = XP(osl_dependence_t, 0); return out([=](FILE* f) { osl_dependence_print(f, a); }); };
  OP("dependence.psread") { Cur c(AS(2)); auto p = osl_dependence_psread(&c.cur, A(1)); putx(slot(0), "dependence", p); return J(c.rest()); };
  OP("pluto_unroll.fill") { osl_pluto_unroll_fill(XP(osl_pluto_unroll_t, 0), AS(1).c_str(), A(2) != 0, (unsigned)A(3)); return NIL; };
#define TXT(k, n) OP(#k "." #n) { osl_##k##_##n(XP(osl_##k##_t, 0), A(1), osl_util_strdup(AS(2).c_str())); return NIL; };
  TXT(region, append_prefix) TXT(region, append_suffix) TXT(region, append_prelude) TXT(region, append_postlude)
  TXT(annotation, append_prefix) TXT(annotation, append_suffix)
  OP("region.count") { return J(osl_region_count(XP(osl_region_t, 0))); };
  OP("region.clone_one") { return putx(slot(0), "region", osl_region_clone_one(XP(osl_region_t, 1))); };
  OP("region.equal_one") { return bo(osl_region_equal_one(XP(osl_region_t, 0), XP(osl_region_t, 1))); };
  OP("symbols.add") { XObj *b = XX(1); int a = slot(0); auto x = (osl_symbols_t*)b->p; b->p = nullptr; put(RX, slot(1), (XObj*)nullptr); if (!RX[a]) RX[a] = new XObj{"symbols", nullptr}; auto head = (osl_symbols_t*)RX[a]->p; osl_symbols_add(&head, x); RX[a]->p = head; return NIL; };
  OP("symbols.nclone") { return putx(slot(0), "symbols", osl_symbols_nclone(XP(osl_symbols_t, 1), A(2))); };
  OP("symbols.get_nb_symbols") { return J(osl_symbols_get_nb_symbols(XP(osl_symbols_t, 0))); };
  OP("irregular.add_control") { SArr n(ARGS->at(2)); return putx(slot(0), "irregular", osl_irregular_add_control(XP(osl_irregular_t, 1), n.p(), (int)ARGS->at(2).size(), AS(3).c_str())); };
  OP("irregular.add_exit") { SArr n(ARGS->at(2)); return putx(slot(0), "irregular", osl_irregular_add_exit(XP(osl_irregular_t, 1), n.p(), (int)ARGS->at(2).size(), AS(3).c_str())); };
  OP("irregular.add_predicates") { std::vector<int> v; for (auto& x : ARGS->at(2).a) v.push_back(x.i()); return putx(slot(0), "irregular", osl_irregular_add_predicates(XP(osl_irregular_t, 1), v.data(), (int)v.size())); };
  // ---------------------------------------------------------------------- names
  OP("names.set") { return put(RN, slot(0), b_names(ARGS->at(1))); };
  OP("names.malloc") { return put(RN, slot(0), osl_names_malloc()); };
  OP("names.free") { return put(RN, slot(0), (osl_names_t*)nullptr); };
  OP("names.clone") { return put(RN, slot(0), osl_names_clone(NN(1))); };
  OP("names.generate") { return put(RN, slot(0), osl_names_generate(AS(1).c_str(), A(2), AS(3).c_str(), A(4), AS(5).c_str(), A(6), AS(7).c_str(), A(8), AS(9).c_str(), A(10))); };
  OP("names.dump") { auto a = NN(0); out([=](FILE* f) { osl_names_dump(f, a); }); return NIL; };
  // ------------------------------------------------------------------ utilities
  OP("util.subst") { SArr n(ARGS->at(1)); return txt(osl_util_identifier_substitution(AS(0).c_str(), n.p())); };
  OP("util.tag_content") { return optstr(osl_util_tag_content(AS(0).c_str(), AS(1).c_str())); };
  OP("util.strdup") { return txt(osl_util_strdup(AS(0).c_str())); };
  OP("util.safe_strcat") {  // [pieces..], starting from an empty buffer of the given size
    size_t hwm = (size_t)A(1); char* b = (char*)malloc(hwm); b[0] = 0;
    for (auto& x : ARGS->at(0).a) { osl_util_safe_strcat(&b, x.str().c_str(), &hwm); if (strlen(b) >= hwm) _exit(99); }
    return txt(b); };
  OP("util.print_provided") { int p = A(0); std::string t = AS(1); return out([=](FILE* f) { osl_util_print_provided(f, p, t.c_str()); }); };
#define RD_S(n, call) OP("util." #n "_s") { Cur c(AS(0)); char** s = &c.cur; FILE* f = nullptr; J r = optstr(call); return pair(r, J(c.rest())); }; \
  OP("util." #n "_f") { FILE* f = in(AS(0)); char** s = nullptr; J r = optstr(call); std::string rest; int ch; while ((ch = fgetc(f)) != EOF) rest += (char)ch; fclose(f); return pair(r, J(rest)); };
  RD_S(read_string, osl_util_read_string(f, s))
  RD_S(read_line, osl_util_read_line(f, s))
  OP("util.skip_f") { FILE* f = in(AS(0)); char* b = (char*)malloc(OSL_MAX_STRING); char* p = osl_util_skip_blank_and_comments(f, b); J r = p ? optstr(osl_util_strdup(p)) : optstr(nullptr); free(b); std::string rest; int ch; while ((ch = fgetc(f)) != EOF) rest += (char)ch; fclose(f); return pair(r, J(rest)); };
  RD_S(read_tag, osl_util_read_tag(f, s))
  RD_S(read_uptoflag, osl_util_read_uptoflag(f, s, AS(1).c_str()))
  RD_S(read_uptotag, osl_util_read_uptotag(f, s, AS(1).c_str()))
  RD_S(read_uptoendtag, osl_util_read_uptoendtag(f, s, AS(1).c_str()))
  OP("util.read_int_s") { Cur c(AS(0)); int v = osl_util_read_int(nullptr, &c.cur); return pair(J(std::to_string(v)), J(c.rest())); };
  OP("util.read_int_f") { FILE* f = in(AS(0)); int v = osl_util_read_int(f, nullptr); std::string rest; int ch; while ((ch = fgetc(f)) != EOF) rest += (char)ch; fclose(f); return pair(J(std::to_string(v)), J(rest)); };
}
// ------------------------------------------------------------------- protocol
static int g_in = 0, g_out = 1;
static std::string g_buf;
static bool read_line(std::string& line) {
  line.clear();
  for (;;) {
    size_t k = g_buf.find('\n');
    if (k != std::string::npos) { line = g_buf.substr(0, k); g_buf.erase(0, k + 1); return true; }
    char tmp[65536];
    ssize_t n = read(g_in, tmp, sizeof tmp);
    if (n <= 0) return false;
    g_buf.append(tmp, (size_t)n);
  }
}
static void write_all(const std::string& s) {
  size_t k = 0;
  while (k < s.size()) { ssize_t n = write(g_out, s.data() + k, s.size() - k); if (n <= 0) _exit(77); k += (size_t)n; }
}
static std::map<std::string, std::string> g_last;  // register -> projection
template <class X> static void diff(const char* k, X** reg, J& d) {
  for (int i = 1; i < NS; i++) {
    std::string key = std::string(k) + std::to_string(i);
    if (!reg[i] && !g_last.count(key)) continue;
    J v = pj(reg[i]);
    std::string s = v.dump();
    auto it = g_last.find(key);
    if (it != g_last.end() && it->second == s) continue;
    if (it == g_last.end() && s == "[]") continue;
    g_last[key] = s;
    d.push(J::obj().set("k", k).set("i", i).set("v", v));
  }
}
static J diffs() {
  J d = J::arr();
  diff("i", RI, d); diff("v", RV, d); diff("r", RR, d); diff("l", RL, d); diff("s", RS, d);
  diff("p", RP, d); diff("x", RX, d); diff("n", RN, d); diff("g", RG, d); diff("f", RF, d);
  return d;
}
template <class X> static void clr(X** reg) { for (int i = 1; i < NS; i++) { fr(reg[i]); reg[i] = nullptr; } }
static void child() {
  g_live = new std::unordered_set<void*>;
  g_track = true;
  std::string line;
  while (read_line(line)) {
    JP jp{line.c_str()};
    J cmd = jp.parse();
    struct itimerval tv = {{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    std::string op = cmd["op"].str();
    J rep = J::obj().set("o", "ok");
    if (op == "END") {
      clr(RX); clr(RI); clr(RV); clr(RR); clr(RL); clr(RS); clr(RP); clr(RN); clr(RG); clr(RF);
      g_last.clear();
      rep.set("r", (long long)g_live->size()).set("d", J::arr());
      write_all(rep.dump() + "\n");
      _exit(0);
    }
    auto it = OPS.find(op);
    if (it == OPS.end()) { fprintf(stderr, "DRIVER: unknown op %s\n", op.c_str()); _exit(77); }
    ARGS = &cmd["a"];
    J r = it->second();
    rep.set("r", r).set("d", diffs());
    rep.set("m", (long long)g_live->size());
    write_all(rep.dump() + "\n");
  }
  _exit(0);
}
int main(int argc, char** argv) {
  g_in = dup(0); g_out = dup(1);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0); dup2(nul, 1);
  const char* err = argc > 1 ? argv[1] : "/dev/null";  // library diagnostics and sanitizer reports
  int e = open(err, O_WRONLY | O_CREAT | O_APPEND, 0644);
  dup2(e, 2);
  mp_set_memory_functions(gmp_alloc, gmp_realloc, gmp_free);
  unsetenv("OSL_PRECISION");
  for (size_t k = 0; k < sizeof(KINDS) / sizeof(*KINDS); k++) KREF[k] = mk_iface(KINDS[k]);
  setup();
  if (argc > 2 && !strcmp(argv[2], "--list")) { std::string s; for (auto& o : OPS) s += o.first + "\n"; write_all(s); return 0; }
  std::string line;
  while (read_line(line)) {
    if (line != "BEGIN") { write_all("{\"o\":\"noepisode\"}\n"); continue; }
    write_all("{\"o\":\"begin\"}\n");
    pid_t pid = fork();
    if (pid == 0) child();
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    const char* o = "crash";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) o = "error";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) o = "driver";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o = "hang";
    write_all(std::string("{\"o\":\"") + o + "\"}\n");
  }
  return 0;
}
