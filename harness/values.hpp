// Abstraction function of the conformance driver: builds library objects from the
// JSON form of a specification value, and projects library objects back to it.
// Encoding (shared with spec/*.tla):
//   int     []|[{p,v}]              vector  []|[{p,v:[..]}]
//   relation [part..]  part={t,p,nr,nc,o,i,l,a,m}
//   rel list [relation..]           statement [{dom,sca,acc,ext}..]
//   generic  [{u,k,d:[]|[tree]}..]  interfaces [{u,k}..]
//   scop     [{ver,lang:[]|[s],ctx,par,st,reg,ext}..]
//   tree     {t,s:[str..],c:[tree..]}          names []|[{par,it,sc,lo,ar}]
#pragma once
#include <osl/osl.h>
#include <osl/names.h>
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>
#include <osl/extensions/irregular.h>
#include <osl/extensions/extbody.h>
#include <osl/extensions/loop.h>
#include <osl/extensions/pluto_unroll.h>
#include "json.hpp"

static const char* const NUL_STR = "~NULL~";

// ---------------------------------------------------------------- integers
static void int_setstr(int p, osl_int_t* x, const std::string& v) {  // x initialised
  if (p == OSL_PRECISION_SP) x->sp = strtol(v.c_str(), 0, 10);
  else if (p == OSL_PRECISION_DP) x->dp = strtoll(v.c_str(), 0, 10);
  else if (mpz_set_str(*(mpz_t*)x->mp, v.c_str(), 10)) { fprintf(stderr, "DRIVER: bad number\n"); _exit(77); }
}
static std::string int_str(int p, osl_int_t x) {
  if (p == OSL_PRECISION_SP) return std::to_string(x.sp);
  if (p == OSL_PRECISION_DP) return std::to_string(x.dp);
  if (p == OSL_PRECISION_MP) {
    size_t n = mpz_sizeinbase(*(mpz_t*)x.mp, 10) + 3;
    std::string r(n, 0);
    mpz_get_str(&r[0], 10, *(mpz_t*)x.mp);
    r.resize(strlen(r.c_str()));
    return r;
  }
  return "?prec";
}
struct OInt { int p; osl_int_t v; };
static OInt* b_int(const J& j) {
  if (!j.size()) return nullptr;
  OInt* r = new OInt; r->p = j.at(0)["p"].i();
  osl_int_init(r->p, &r->v);
  int_setstr(r->p, &r->v, j.at(0)["v"].str());
  return r;
}
static J p_int(OInt* x) {
  J r = J::arr();
  if (x) r.push(J::obj().set("p", x->p).set("v", int_str(x->p, x->v)));
  return r;
}
// ----------------------------------------------------------------- vectors
static osl_vector_t* b_vec(const J& j) {
  if (!j.size()) return nullptr;
  const J& o = j.at(0);
  osl_vector_t* v = osl_vector_pmalloc(o["p"].i(), (int)o["v"].size());
  for (int k = 0; k < v->size; k++) int_setstr(v->precision, &v->v[k], o["v"].at(k).str());
  return v;
}
static J p_vec(const osl_vector_t* v) {
  J r = J::arr();
  if (!v) return r;
  J e = J::arr();
  for (int k = 0; k < v->size; k++) e.push(int_str(v->precision, v->v[k]));
  return r.push(J::obj().set("p", v->precision).set("v", e));
}
// --------------------------------------------------------------- relations
static osl_relation_t* b_rel(const J& j) {
  osl_relation_t *head = nullptr, **tail = &head;
  for (size_t k = 0; k < j.size(); k++) {
    const J& o = j.at(k);
    osl_relation_t* r = osl_relation_pmalloc(o["p"].i(), o["nr"].i(), o["nc"].i());
    r->type = o["t"].i();
    r->nb_output_dims = o["o"].i(); r->nb_input_dims = o["i"].i();
    r->nb_local_dims = o["l"].i(); r->nb_parameters = o["a"].i();
    const J& m = o["m"];
    for (size_t x = 0; x < m.size(); x++)
      for (size_t y = 0; y < m.at(x).size(); y++)
        int_setstr(r->precision, &r->m[x][y], m.at(x).at(y).str());
    *tail = r; tail = &r->next;
  }
  return head;
}
static J p_part(const osl_relation_t* r) {
  J m = J::arr();
  if (r->nb_columns > 0)
    for (int x = 0; x < r->nb_rows; x++) {
      J row = J::arr();
      for (int y = 0; y < r->nb_columns; y++) row.push(int_str(r->precision, r->m[x][y]));
      m.push(row);
    }
  return J::obj().set("t", r->type).set("p", r->precision).set("nr", r->nb_rows)
      .set("nc", r->nb_columns).set("o", r->nb_output_dims).set("i", r->nb_input_dims)
      .set("l", r->nb_local_dims).set("a", r->nb_parameters).set("m", m);
}
static J p_rel(const osl_relation_t* r) {
  J a = J::arr();
  for (; r; r = r->next) a.push(p_part(r));
  return a;
}
static osl_relation_list_t* b_list(const J& j) {
  osl_relation_list_t *head = nullptr, **tail = &head;
  for (size_t k = 0; k < j.size(); k++) {
    osl_relation_list_t* n = osl_relation_list_malloc();
    n->elt = b_rel(j.at(k));
    *tail = n; tail = &n->next;
  }
  return head;
}
static J p_list(const osl_relation_list_t* l) {
  J a = J::arr();
  for (; l; l = l->next) a.push(p_rel(l->elt));
  return a;
}
// ------------------------------------------------------- strings and trees
static J T(const char* t, J s = J::arr(), J c = J::arr()) {
  return J::obj().set("t", t).set("s", std::move(s)).set("c", std::move(c));
}
static J sn(const char* s) { return J(s ? s : NUL_STR); }
static char* un(const J& j) { return j.str() == NUL_STR ? nullptr : osl_util_strdup(j.str().c_str()); }
static J p_strs(const osl_strings_t* s) {
  J a = J::arr();
  if (s && s->string) for (size_t k = 0; s->string[k]; k++) a.push(J(s->string[k]));
  return a;
}
static osl_strings_t* b_strs(const J& a) {
  osl_strings_t* s = (osl_strings_t*)malloc(sizeof *s);
  s->string = (char**)malloc(sizeof(char*) * (a.size() + 1));
  for (size_t k = 0; k < a.size(); k++) s->string[k] = osl_util_strdup(a.at(k).str().c_str());
  s->string[a.size()] = nullptr;
  return s;
}
static J N(long v) { return J(std::to_string(v)); }
static int I(const J& j) { return atoi(j.str().c_str()); }

static J p_gen(const osl_generic_t* g);
static osl_generic_t* b_gen(const J& j);
static void* b_tree(const J& t);
static J p_tree(const std::string& kind, void* d);

static J t_rel(const osl_relation_t* r) {
  J c = J::arr();
  for (; r; r = r->next) {
    J s = J::arr();
    for (int v : {r->type, r->precision, r->nb_rows, r->nb_columns, r->nb_output_dims,
                  r->nb_input_dims, r->nb_local_dims, r->nb_parameters}) s.push(N(v));
    if (r->nb_columns > 0)
      for (int x = 0; x < r->nb_rows; x++)
        for (int y = 0; y < r->nb_columns; y++) s.push(int_str(r->precision, r->m[x][y]));
    c.push(T("part", s));
  }
  return T("relation", J::arr(), c);
}
static osl_relation_t* bt_rel(const J& t) {
  osl_relation_t *head = nullptr, **tail = &head;
  for (auto& q : t["c"].a) {
    const J& s = q["s"];
    osl_relation_t* r = osl_relation_pmalloc(I(s.at(1)), I(s.at(2)), I(s.at(3)));
    r->type = I(s.at(0)); r->nb_output_dims = I(s.at(4)); r->nb_input_dims = I(s.at(5));
    r->nb_local_dims = I(s.at(6)); r->nb_parameters = I(s.at(7));
    size_t k = 8;
    if (r->nb_columns > 0)
      for (int x = 0; x < r->nb_rows; x++)
        for (int y = 0; y < r->nb_columns; y++) int_setstr(r->precision, &r->m[x][y], s.at(k++).str());
    *tail = r; tail = &r->next;
  }
  return head;
}
template <class X> static J t_text(const X& x) {
  J s = J::arr();
  for (size_t k = 0; k < x.count; k++) s.push(N(x.types[k])).push(sn(x.lines[k]));
  return T("text", s);
}
template <class X> static void bt_text(X& x, const J& t) {
  const J& s = t["s"]; size_t n = s.size() / 2;
  x.count = n; x.types = nullptr; x.lines = nullptr;
  if (n) { x.types = (int*)malloc(n * sizeof(int)); x.lines = (char**)malloc(n * sizeof(char*)); }
  for (size_t k = 0; k < n; k++) { x.types[k] = I(s.at(2 * k)); x.lines[k] = un(s.at(2 * k + 1)); }
}
static J t_strs(const osl_strings_t* s) { return s ? T("strings", p_strs(s)) : T("none"); }
static osl_strings_t* bt_strs(const J& t) { return t["t"].str() == "none" ? nullptr : b_strs(t["s"]); }
static J t_body(const osl_body_t* b) {
  if (!b) return T("none");
  return T("body", J::arr(), J::arr().push(t_strs(b->iterators)).push(t_strs(b->expression)));
}
static osl_body_t* bt_body(const J& t) {
  if (t["t"].str() == "none") return nullptr;
  osl_body_t* b = osl_body_malloc();
  osl_strings_free(b->iterators); osl_strings_free(b->expression);
  b->iterators = bt_strs(t["c"].at(0)); b->expression = bt_strs(t["c"].at(1));
  return b;
}
static J t_gen(const osl_generic_t* g) {
  J c = J::arr();
  for (; g; g = g->next) {
    const char* u = g->interface ? g->interface->URI : nullptr;
    J d = J::arr();
    if (g->data && u) d.push(p_tree(u, g->data));
    c.push(T("item", J::arr().push(sn(u)), d));
  }
  return T("generic", J::arr(), c);
}
static osl_interface_t* mk_iface(const std::string& kind);
static osl_generic_t* bt_gen(const J& t) {
  osl_generic_t *head = nullptr, **tail = &head;
  for (auto& q : t["c"].a) {
    osl_generic_t* g = osl_generic_malloc();
    g->interface = mk_iface(q["s"].at(0).str());
    if (q["c"].size()) g->data = b_tree(q["c"].at(0));
    *tail = g; tail = &g->next;
  }
  return head;
}

static J p_tree(const std::string& kind, void* d) {
  J s = J::arr(), c = J::arr();
  if (kind == "strings") return T("strings", p_strs((osl_strings_t*)d));
  if (kind == "body") return t_body((osl_body_t*)d);
  if (kind == "relation") return t_rel((osl_relation_t*)d);
  if (kind == "textual") return T("textual", s.push(sn(((osl_textual_t*)d)->textual)));
  if (kind == "comment") return T("comment", s.push(sn(((osl_comment_t*)d)->comment)));
  if (kind == "clay") return T("clay", s.push(sn(((osl_clay_t*)d)->script)));
  if (kind == "null") return T("null");
  if (kind == "scatnames") return T("scatnames", s, c.push(t_strs(((osl_scatnames_t*)d)->names)));
  if (kind == "scatinfos") {
    auto x = (osl_scatinfos_t*)d;
    s.push(N((long)x->nb_scatdims));
    for (size_t k = 0; k < x->nb_scatdims; k++) s.push(N(x->parallel[k])).push(N(x->permutable[k])).push(N(x->type[k]));
    return T("scatinfos", s);
  }
  if (kind == "arrays") {
    auto x = (osl_arrays_t*)d;
    for (int k = 0; k < x->nb_names; k++) s.push(N(x->id[k])).push(sn(x->names[k]));
    return T("arrays", s);
  }
  if (kind == "coordinates") {
    auto x = (osl_coordinates_t*)d;
    return T("coordinates", s.push(sn(x->name)).push(N(x->line_start)).push(N(x->line_end))
             .push(N(x->column_start)).push(N(x->column_end)).push(N(x->indent)));
  }
  if (kind == "dependence") {
    for (auto x = (osl_dependence_t*)d; x; x = x->next) {
      J q = J::arr();
      for (int v : {x->label_source, x->label_target, x->ref_source, x->ref_target, x->depth, x->type,
                    x->source_nb_output_dims_domain, x->source_nb_output_dims_access,
                    x->target_nb_output_dims_domain, x->target_nb_output_dims_access,
                    x->source_nb_local_dims_domain, x->source_nb_local_dims_access,
                    x->target_nb_local_dims_domain, x->target_nb_local_dims_access}) q.push(N(v));
      c.push(T("dep", q, J::arr().push(t_rel(x->domain))));
    }
    return T("dependence", s, c);
  }
  if (kind == "symbols") {
    for (auto x = (osl_symbols_t*)d; x; x = x->next)
      c.push(T("sym", J::arr().push(N(x->type)).push(N(x->generated)).push(N(x->nb_dims)),
               J::arr().push(t_gen(x->identifier)).push(t_gen(x->datatype)).push(t_gen(x->scope)).push(t_gen(x->extent))));
    return T("symbols", s, c);
  }
  if (kind == "extbody") {
    auto x = (osl_extbody_t*)d;
    for (size_t k = 0; k < x->nb_access; k++) s.push(N(x->start[k])).push(N(x->length[k]));
    return T("extbody", s, c.push(t_body(x->body)));
  }
  if (kind == "loop") {
    for (auto x = (osl_loop_t*)d; x; x = x->next) {
      J q = J::arr();
      q.push(sn(x->iter)).push(sn(x->private_vars)).push(N(x->directive)).push(sn(x->user));
      for (size_t k = 0; k < x->nb_stmts; k++) q.push(N(x->stmt_ids[k]));
      c.push(T("loop1", q));
    }
    return T("loop", s, c);
  }
  if (kind == "pluto_unroll") {
    for (auto x = (osl_pluto_unroll_t*)d; x; x = x->next)
      c.push(T("unroll1", J::arr().push(sn(x->iter)).push(N(x->jam)).push(N((long)x->factor))));
    return T("pluto_unroll", s, c);
  }
  if (kind == "region") {
    for (auto x = (osl_region_t*)d; x; x = x->next)
      c.push(T("region1", J::arr().push(N(x->location)),
               J::arr().push(t_text(x->prefix)).push(t_text(x->suffix)).push(t_text(x->prelude)).push(t_text(x->postlude))));
    return T("region", s, c);
  }
  if (kind == "annotation") {
    auto x = (osl_annotation_t*)d;
    return T("annotation", s, c.push(t_text(x->prefix)).push(t_text(x->suffix)));
  }
  if (kind == "irregular") {
    auto x = (osl_irregular_t*)d;
    s.push(N(x->nb_control)).push(N(x->nb_exit));
    for (int k = 0; k < x->nb_statements; k++) {
      J q = J::arr();
      for (int y = 0; y < x->nb_predicates[k]; y++) q.push(N(x->predicates[k][y]));
      c.push(T("preds", q));
    }
    for (int k = 0; k < x->nb_control + x->nb_exit; k++) {
      J q = J::arr(); q.push(sn(x->body[k]));
      for (int y = 0; y < x->nb_iterators[k]; y++) q.push(sn(x->iterators[k][y]));
      c.push(T("pred", q));
    }
    return T("irregular", s, c);
  }
  return T("unknown");
}
static void* b_tree(const J& t) {
  const std::string& kind = t["t"].str();
  const J &s = t["s"], &c = t["c"];
  if (kind == "strings") return b_strs(s);
  if (kind == "body") return bt_body(t);
  if (kind == "relation") return bt_rel(t);
  if (kind == "textual") { auto x = osl_textual_malloc(); x->textual = un(s.at(0)); return x; }
  if (kind == "comment") { auto x = osl_comment_malloc(); x->comment = un(s.at(0)); return x; }
  if (kind == "clay") { auto x = osl_clay_malloc(); x->script = un(s.at(0)); return x; }
  if (kind == "null") { return osl_null_malloc(); }
  if (kind == "scatnames") { auto x = osl_scatnames_malloc(); x->names = bt_strs(c.at(0)); return x; }
  if (kind == "scatinfos") {
    auto x = osl_scatinfos_malloc(); size_t n = (size_t)I(s.at(0)); x->nb_scatdims = n;
    if (n) { x->parallel = (int*)malloc(n * sizeof(int)); x->permutable = (int*)malloc(n * sizeof(int)); x->type = (int*)malloc(n * sizeof(int)); }
    for (size_t k = 0; k < n; k++) { x->parallel[k] = I(s.at(1 + 3 * k)); x->permutable[k] = I(s.at(2 + 3 * k)); x->type[k] = I(s.at(3 + 3 * k)); }
    return x;
  }
  if (kind == "arrays") {
    auto x = osl_arrays_malloc(); int n = (int)s.size() / 2; x->nb_names = n;
    if (n) { x->id = (int*)malloc(n * sizeof(int)); x->names = (char**)malloc(n * sizeof(char*)); }
    for (int k = 0; k < n; k++) { x->id[k] = I(s.at(2 * k)); x->names[k] = un(s.at(2 * k + 1)); }
    return x;
  }
  if (kind == "coordinates") {
    auto x = osl_coordinates_malloc(); x->name = un(s.at(0)); x->line_start = I(s.at(1)); x->line_end = I(s.at(2));
    x->column_start = I(s.at(3)); x->column_end = I(s.at(4)); x->indent = I(s.at(5));
    return x;
  }
  if (kind == "dependence") {
    osl_dependence_t *head = nullptr, **tail = &head;
    for (auto& q : c.a) {
      auto x = osl_dependence_malloc(); const J& v = q["s"];
      int* f[] = {&x->label_source, &x->label_target, &x->ref_source, &x->ref_target, &x->depth, &x->type,
                  &x->source_nb_output_dims_domain, &x->source_nb_output_dims_access,
                  &x->target_nb_output_dims_domain, &x->target_nb_output_dims_access,
                  &x->source_nb_local_dims_domain, &x->source_nb_local_dims_access,
                  &x->target_nb_local_dims_domain, &x->target_nb_local_dims_access};
      for (size_t k = 0; k < 14; k++) *f[k] = I(v.at(k));
      x->domain = bt_rel(q["c"].at(0));
      *tail = x; tail = &x->next;
    }
    return head;
  }
  if (kind == "symbols") {
    osl_symbols_t *head = nullptr, **tail = &head;
    for (auto& q : c.a) {
      auto x = osl_symbols_malloc(); const J& v = q["s"];
      x->type = I(v.at(0)); x->generated = I(v.at(1)); x->nb_dims = I(v.at(2));
      x->identifier = bt_gen(q["c"].at(0)); x->datatype = bt_gen(q["c"].at(1));
      x->scope = bt_gen(q["c"].at(2)); x->extent = bt_gen(q["c"].at(3));
      *tail = x; tail = &x->next;
    }
    return head;
  }
  if (kind == "extbody") {
    auto x = osl_extbody_malloc(); size_t n = s.size() / 2; x->nb_access = n;
    free(x->start); free(x->length); x->start = x->length = nullptr;
    if (n) { x->start = (int*)malloc(n * sizeof(int)); x->length = (int*)malloc(n * sizeof(int)); }
    for (size_t k = 0; k < n; k++) { x->start[k] = I(s.at(2 * k)); x->length[k] = I(s.at(2 * k + 1)); }
    osl_body_free(x->body);
    x->body = bt_body(c.at(0));
    return x;
  }
  if (kind == "loop") {
    osl_loop_t *head = nullptr, **tail = &head;
    for (auto& q : c.a) {
      auto x = osl_loop_malloc(); const J& v = q["s"];
      x->iter = un(v.at(0)); x->private_vars = un(v.at(1)); x->directive = I(v.at(2)); x->user = un(v.at(3));
      x->nb_stmts = v.size() - 4;
      if (x->nb_stmts) x->stmt_ids = (int*)malloc(x->nb_stmts * sizeof(int));
      for (size_t k = 0; k < x->nb_stmts; k++) x->stmt_ids[k] = I(v.at(4 + k));
      *tail = x; tail = &x->next;
    }
    return head;
  }
  if (kind == "pluto_unroll") {
    osl_pluto_unroll_t *head = nullptr, **tail = &head;
    for (auto& q : c.a) {
      auto x = osl_pluto_unroll_malloc(); const J& v = q["s"];
      x->iter = un(v.at(0)); x->jam = I(v.at(1)) != 0; x->factor = (unsigned)strtoul(v.at(2).str().c_str(), 0, 10);
      *tail = x; tail = &x->next;
    }
    return head;
  }
  if (kind == "region") {
    osl_region_t *head = nullptr, **tail = &head;
    for (auto& q : c.a) {
      auto x = osl_region_malloc(); x->location = I(q["s"].at(0));
      bt_text(x->prefix, q["c"].at(0)); bt_text(x->suffix, q["c"].at(1));
      bt_text(x->prelude, q["c"].at(2)); bt_text(x->postlude, q["c"].at(3));
      *tail = x; tail = &x->next;
    }
    return head;
  }
  if (kind == "annotation") {
    auto x = osl_annotation_malloc();
    bt_text(x->prefix, c.at(0)); bt_text(x->suffix, c.at(1));
    return x;
  }
  if (kind == "irregular") {
    auto x = osl_irregular_malloc();
    x->nb_control = I(s.at(0)); x->nb_exit = I(s.at(1));
    int np = x->nb_control + x->nb_exit, ns = (int)c.size() - np;
    x->nb_statements = ns;
    x->nb_predicates = (int*)malloc(sizeof(int) * ns); x->predicates = (int**)malloc(sizeof(int*) * ns);
    for (int k = 0; k < ns; k++) {
      const J& v = c.at(k)["s"];
      x->nb_predicates[k] = (int)v.size(); x->predicates[k] = (int*)malloc(sizeof(int) * v.size());
      for (size_t y = 0; y < v.size(); y++) x->predicates[k][y] = I(v.at(y));
    }
    x->nb_iterators = (int*)malloc(sizeof(int) * np); x->iterators = (char***)malloc(sizeof(char**) * np);
    x->body = (char**)malloc(sizeof(char*) * np);
    for (int k = 0; k < np; k++) {
      const J& v = c.at(ns + k)["s"];
      x->body[k] = un(v.at(0)); x->nb_iterators[k] = (int)v.size() - 1;
      x->iterators[k] = (char**)malloc(sizeof(char*) * (v.size() - 1));
      for (size_t y = 1; y < v.size(); y++) x->iterators[k][y - 1] = un(v.at(y));
    }
    return x;
  }
  fprintf(stderr, "DRIVER: unknown tree kind %s\n", kind.c_str());
  _exit(77);
}
// ---------------------------------------------------------------- generics
static const char* const KINDS[] = {"strings", "body", "relation", "textual", "comment", "null", "scatinfos",
    "scatnames", "arrays", "coordinates", "clay", "dependence", "symbols", "extbody", "loop", "pluto_unroll",
    "region", "annotation", "irregular"};
static osl_interface_t* mk_iface(const std::string& k) {
#define K(n) if (k == #n) return osl_##n##_interface();
  K(strings) K(body) K(relation) K(textual) K(comment) K(null) K(scatinfos) K(scatnames) K(arrays) K(coordinates)
  K(clay) K(dependence) K(symbols) K(extbody) K(loop) K(pluto_unroll) K(region) K(annotation) K(irregular)
#undef K
  if (k == "none") return nullptr;
  fprintf(stderr, "DRIVER: unknown interface %s\n", k.c_str());
  _exit(77);
}
static osl_interface_t* mk_iface2(const std::string& uri, const std::string& k) {
  osl_interface_t* f = mk_iface(k);
  if (f && uri != k) { free(f->URI); f->URI = uri == NUL_STR ? nullptr : osl_util_strdup(uri.c_str()); }
  return f;
}
static osl_interface_t* KREF[sizeof(KINDS) / sizeof(*KINDS)];  // reference copies, made before counting starts
static std::string iface_kind(const osl_interface_t* f) {
  size_t n = sizeof(KINDS) / sizeof(*KINDS);
  for (size_t k = 0; k < n; k++) {
    osl_interface_t* r = KREF[k];
    if (r->idump == f->idump && r->sprint == f->sprint && r->sread == f->sread && r->malloc == f->malloc &&
        r->free == f->free && r->clone == f->clone && r->equal == f->equal) return KINDS[k];
  }
  return "mixed";
}
static J p_ifaces(const osl_interface_t* f) {
  J a = J::arr();
  for (; f; f = f->next) a.push(J::obj().set("u", sn(f->URI)).set("k", iface_kind(f)));
  return a;
}
static osl_interface_t* b_ifaces(const J& j) {
  osl_interface_t *head = nullptr, **tail = &head;
  for (auto& q : j.a) {
    osl_interface_t* f = mk_iface2(q["u"].str(), q["k"].str());
    *tail = f; tail = &f->next;
  }
  return head;
}
static J p_gen(const osl_generic_t* g) {
  J a = J::arr();
  for (; g; g = g->next) {
    J d = J::arr();
    std::string k = g->interface ? iface_kind(g->interface) : "none";
    if (g->data) d.push(g->interface ? p_tree(k, g->data) : T("raw"));
    a.push(J::obj().set("u", sn(g->interface ? g->interface->URI : nullptr)).set("k", k).set("d", d));
  }
  return a;
}
static osl_generic_t* b_gen(const J& j) {
  osl_generic_t *head = nullptr, **tail = &head;
  for (auto& q : j.a) {
    osl_generic_t* g = osl_generic_malloc();
    g->interface = mk_iface2(q["u"].str(), q["k"].str());
    if (q["d"].size()) g->data = b_tree(q["d"].at(0));
    *tail = g; tail = &g->next;
  }
  return head;
}
// ------------------------------------------------------ statements, scops
static osl_statement_t* b_stmt(const J& j) {
  osl_statement_t *head = nullptr, **tail = &head;
  for (auto& q : j.a) {
    osl_statement_t* s = osl_statement_malloc();
    s->domain = b_rel(q["dom"]); s->scattering = b_rel(q["sca"]);
    s->access = b_list(q["acc"]); s->extension = b_gen(q["ext"]);
    *tail = s; tail = &s->next;
  }
  return head;
}
static J p_stmt(const osl_statement_t* s) {
  J a = J::arr();
  for (; s; s = s->next)
    a.push(J::obj().set("dom", p_rel(s->domain)).set("sca", p_rel(s->scattering))
           .set("acc", p_list(s->access)).set("ext", p_gen(s->extension)));
  return a;
}
static osl_scop_t* b_scop(const J& j) {
  osl_scop_t *head = nullptr, **tail = &head;
  for (auto& q : j.a) {
    osl_scop_t* s = osl_scop_malloc();
    s->version = q["ver"].i();
    if (q["lang"].size()) s->language = osl_util_strdup(q["lang"].at(0).str().c_str());
    s->context = b_rel(q["ctx"]); s->parameters = b_gen(q["par"]); s->statement = b_stmt(q["st"]);
    s->registry = b_ifaces(q["reg"]); s->extension = b_gen(q["ext"]);
    *tail = s; tail = &s->next;
  }
  return head;
}
static J p_scop(const osl_scop_t* s) {
  J a = J::arr();
  for (; s; s = s->next) {
    J l = J::arr();
    if (s->language) l.push(J(s->language));
    a.push(J::obj().set("ver", s->version).set("lang", l).set("ctx", p_rel(s->context)).set("par", p_gen(s->parameters))
           .set("st", p_stmt(s->statement)).set("reg", p_ifaces(s->registry)).set("ext", p_gen(s->extension)));
  }
  return a;
}
static J os(const osl_strings_t* s) { J a = J::arr(); if (s) a.push(p_strs(s)); return a; }
static osl_strings_t* ob(const J& a) { return a.size() ? b_strs(a.at(0)) : nullptr; }
static osl_names_t* b_names(const J& j) {
  if (!j.size()) return nullptr;
  const J& q = j.at(0);
  osl_names_t* n = osl_names_malloc();
  n->parameters = ob(q["par"]); n->iterators = ob(q["it"]); n->scatt_dims = ob(q["sc"]);
  n->local_dims = ob(q["lo"]); n->arrays = ob(q["ar"]);
  return n;
}
static J p_names(const osl_names_t* n) {
  J a = J::arr();
  if (n) a.push(J::obj().set("par", os(n->parameters)).set("it", os(n->iterators)).set("sc", os(n->scatt_dims))
                .set("lo", os(n->local_dims)).set("ar", os(n->arrays)));
  return a;
}
