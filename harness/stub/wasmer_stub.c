/* A stand-in for libwasmer with the same C interface.
 *
 * "Bytecode" is text: first line "WSTB", then one directive per line
 *   M <pages> <maxpages>       an exported memory
 *   E <hexname|-> <nin> <nout> an exported function
 *   I <name>                   an imported function
 *   X                          the code does not compile
 * anything else is ignored (and serves as identity or padding); the last line is a comment ("#").
 * Calling an exported function hands control to a handler registered by the harness, which may
 * call the imported functions through wstub_invoke. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "wasmer.h"

#define PAGE 65536u
#define MAXP 24

typedef struct { uint8_t *data; uint32_t len, maxpages; int rc; } smem;
typedef struct { char *name; uint32_t nlen, nin, nout; } sfn;
typedef struct { int kind; sfn *f; smem *m; } sexp;
typedef struct sinst {
  uint64_t points, limit, bp;
  void *data;
  uint8_t *code; uint32_t codelen;
  smem *mem;
  sfn *fns; int nfns;
  char **imports; int nimports;
  uint64_t id;
  int dead;
} sinst;
typedef struct { sexp *e; int n; } sexps;
typedef struct { void *fn; uint32_t nin; uint32_t in[MAXP]; uint32_t nout; uint32_t out; } simp;
typedef struct { char *name; simp *f; } sbind;

static sbind *binds; static int nbinds;
static uint32_t opcosts[448]; static int opcosts_set;
static char lasterr[512];
static uint64_t nextid, live, created;
typedef int (*handler_t)(void *inst, const char *name);
static handler_t handler;

static void seterr(const char *s) { snprintf(lasterr, sizeof lasterr, "%s", s); }

/* ------------------------------------------------------------------ harness side */
void wstub_set_handler(void *h) { handler = (handler_t)h; }
uint8_t *wstub_code(void *i, uint32_t *len) { *len = ((sinst *)i)->codelen; return ((sinst *)i)->code; }
uint8_t *wstub_mem(void *i, uint32_t *len) {
  sinst *s = i; if (!s->mem) { *len = 0; return 0; } *len = s->mem->len; return s->mem->data; }
uint64_t wstub_points(void *i) { return ((sinst *)i)->points; }
void wstub_set_points(void *i, uint64_t p) { ((sinst *)i)->points = p; }
uint64_t wstub_limit(void *i) { return ((sinst *)i)->limit; }
uint64_t wstub_bp(void *i) { return ((sinst *)i)->bp; }
void wstub_set_bp(void *i, uint64_t b) { ((sinst *)i)->bp = b; }
uint64_t wstub_id(void *i) { return ((sinst *)i)->id; }
int wstub_dead(void *i) { return ((sinst *)i)->dead; }
uint64_t wstub_live(void) { return live; }
uint64_t wstub_created(void) { return created; }
uint32_t *wstub_opcosts(void) { return opcosts_set ? opcosts : 0; }
int wstub_nbinds(void) { return nbinds; }
const char *wstub_bind_name(int k) { return binds[k].name; }
uint32_t wstub_bind_nin(int k) { return binds[k].f->nin; }
uint32_t wstub_bind_in(int k, int p) { return binds[k].f->in[p]; }
uint32_t wstub_bind_nout(int k) { return binds[k].f->nout; }
uint32_t wstub_bind_out(int k) { return binds[k].f->out; }

typedef int64_t I;
int64_t wstub_invoke(void *ctx, int k, const int64_t *a) {
  simp *f = binds[k].f; void *p = f->fn; int64_t r;
  switch (f->nin) {
  case 0: r = ((I(*)(void *))p)(ctx); break;
  case 1: r = ((I(*)(void *, I))p)(ctx, a[0]); break;
  case 2: r = ((I(*)(void *, I, I))p)(ctx, a[0], a[1]); break;
  case 3: r = ((I(*)(void *, I, I, I))p)(ctx, a[0], a[1], a[2]); break;
  case 4: r = ((I(*)(void *, I, I, I, I))p)(ctx, a[0], a[1], a[2], a[3]); break;
  case 5: r = ((I(*)(void *, I, I, I, I, I))p)(ctx, a[0], a[1], a[2], a[3], a[4]); break;
  case 6: r = ((I(*)(void *, I, I, I, I, I, I))p)(ctx, a[0], a[1], a[2], a[3], a[4], a[5]); break;
  default: {
    int64_t b[16]; memset(b, 0, sizeof b);
    for (uint32_t q = 0; q < f->nin && q < 16; q++) b[q] = a[q];
    r = ((I(*)(void *, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I))p)(ctx, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7],
        b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]);
  } }
  if (f->nout == 0) return 0;
  return f->out == WASM_I32 ? (int64_t)(int32_t)r : r;
}

/* ------------------------------------------------------------------ parsing */
static void freeinst(sinst *s) {
  for (int q = 0; q < s->nfns; q++) free(s->fns[q].name);
  for (int q = 0; q < s->nimports; q++) free(s->imports[q]);
  free(s->fns); free(s->imports); free(s->code);
}
static void memdrop(smem *m) { if (m && --m->rc <= 0) { free(m->data); free(m); } }

static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

static sinst *parse(const uint8_t *b, uint32_t n) {
  if (n < 4 || memcmp(b, "WSTB", 4)) { seterr("stub: not a module"); return 0; }
  { /* the last line is a comment: a part of a module, or a module and more, is not a module */
    uint32_t q = n - 1; while (q > 0 && b[q - 1] != '\n') q--;
    if (b[n - 1] != '\n' || b[q] != '#') { seterr("stub: not a module"); return 0; }
  }
  sinst *s = calloc(1, sizeof *s);
  s->code = malloc(n + 1); memcpy(s->code, b, n); s->code[n] = 0; s->codelen = n;
  uint32_t p = 0;
  while (p < n) {
    uint32_t e = p; while (e < n && b[e] != '\n') e++;
    if (e - p >= 1 && b[p] == 'X' && e - p == 1) { seterr("stub: compile error"); freeinst(s); free(s); return 0; }
    if (e - p > 2 && b[p + 1] == ' ') {
      char *line = malloc(e - p + 1); memcpy(line, b + p, e - p); line[e - p] = 0;
      if (line[0] == 'M') {
        unsigned a = 1, mx = 16; sscanf(line, "M %u %u", &a, &mx);
        if (!s->mem) { s->mem = calloc(1, sizeof(smem)); s->mem->rc = 1; s->mem->len = a * PAGE; s->mem->maxpages = mx; s->mem->data = calloc(1, (size_t)a * PAGE + 1); }
      } else if (line[0] == 'E') {
        char *nm = malloc(strlen(line) + 1); unsigned i = 0, o = 0;
        if (sscanf(line, "E %s %u %u", nm, &i, &o) >= 1) {
          s->fns = realloc(s->fns, sizeof(sfn) * (s->nfns + 1)); sfn *f = &s->fns[s->nfns++];
          f->nin = i; f->nout = o; f->nlen = 0;
          size_t l = strlen(nm); f->name = calloc(1, l / 2 + 1);
          if (strcmp(nm, "-")) { for (size_t q = 0; q + 1 < l; q += 2) f->name[f->nlen++] = (char)(hexv(nm[q]) * 16 + hexv(nm[q + 1])); }
        }
        free(nm);
      } else if (line[0] == 'I') {
        s->imports = realloc(s->imports, sizeof(char *) * (s->nimports + 1)); s->imports[s->nimports++] = strdup(line + 2);
        int ok = 0; for (int q = 0; q < nbinds; q++) ok |= !strcmp(binds[q].name, line + 2);
        if (!ok) { seterr("stub: unknown import"); free(line); memdrop(s->mem); freeinst(s); free(s); return 0; }
      }
      free(line);
    }
    p = e + 1;
  }
  s->id = ++nextid; live++; created++;
  return s;
}

/* ------------------------------------------------------------------ wasmer interface */
uint64_t wasmer_instance_get_points_used(wasmer_instance_t *i) { return ((sinst *)i)->points; }
void wasmer_instance_set_points_used(wasmer_instance_t *i, uint64_t p) { ((sinst *)i)->points = p; }
void wasmer_instance_set_points_limit(wasmer_instance_t *i, uint64_t p) { ((sinst *)i)->limit = p; }
void wasmer_instance_set_runtime_breakpoint_value(wasmer_instance_t *i, uint64_t v) { ((sinst *)i)->bp = v; }
uint64_t wasmer_instance_get_runtime_breakpoint_value(wasmer_instance_t *i) { return ((sinst *)i)->bp; }
bool wasmer_instance_is_function_imported(wasmer_instance_t *i, const char *name) {
  sinst *s = (sinst *)i;
  for (int q = 0; q < s->nimports; q++) if (!strcmp(s->imports[q], name)) return true;
  return false;
}
wasmer_result_t wasmer_instance_cache(wasmer_instance_t *i, const uint8_t **out, uint32_t *len) {
  sinst *s = (sinst *)i; uint8_t *o = malloc(s->codelen + 8);
  memcpy(o, "COMPILED", 8); memcpy(o + 8, s->code, s->codelen);
  *out = o; *len = s->codelen + 8; return WASMER_OK;
}
wasmer_result_t wasmer_instantiate_with_options(wasmer_instance_t **i, uint8_t *b, uint32_t n, const wasmer_compilation_options_t *o) {
  sinst *s = parse(b, n); if (!s) return WASMER_ERROR;
  s->limit = ((const uint64_t *)o)[0];
  *i = (wasmer_instance_t *)s; return WASMER_OK;
}
wasmer_result_t wasmer_instance_from_cache(wasmer_instance_t **i, uint8_t *b, uint32_t n, const wasmer_compilation_options_t *o) {
  if (n < 8 || memcmp(b, "COMPILED", 8)) { seterr("stub: not compiled code"); return WASMER_ERROR; }
  return wasmer_instantiate_with_options(i, b + 8, n - 8, o);
}
wasmer_result_t wasmer_import_object_cache_from_imports(wasmer_import_t *im, unsigned int n) {
  nbinds = 0; binds = realloc(binds, sizeof(sbind) * (n + 1));
  for (unsigned q = 0; q < n; q++) {
    sbind *x = &binds[nbinds++];
    x->name = calloc(1, im[q].import_name.bytes_len + 1);
    memcpy(x->name, im[q].import_name.bytes, im[q].import_name.bytes_len);
    x->f = (simp *)im[q].value.func;
  }
  return WASMER_OK;
}
wasmer_import_func_t *wasmer_import_func_new(void (*func)(void *), const wasmer_value_tag *p, unsigned int np, const wasmer_value_tag *r, unsigned int nr) {
  simp *f = calloc(1, sizeof *f); f->fn = (void *)func; f->nin = np;
  for (unsigned q = 0; q < np && q < MAXP; q++) f->in[q] = p[q];
  f->nout = nr; if (nr) f->out = r[0];
  return (wasmer_import_func_t *)f;
}
void wasmer_import_func_destroy(wasmer_import_func_t *f) { (void)f; }
void wasmer_set_opcode_costs(const uint32_t *c) { memcpy(opcosts, c, sizeof opcosts); opcosts_set = 1; }

wasmer_result_t wasmer_instance_call(wasmer_instance_t *i, const char *name, const wasmer_value_t *p, uint32_t np, wasmer_value_t *r, uint32_t nr) {
  (void)p; (void)np; (void)r; (void)nr;
  if (!handler) { seterr("stub: no handler"); return WASMER_ERROR; }
  if (((sinst *)i)->dead) { seterr("stub: destroyed instance called"); return WASMER_ERROR; }
  if (handler(i, name)) { seterr("stub: aborted"); return WASMER_ERROR; }
  return WASMER_OK;
}
const wasmer_instance_context_t *wasmer_instance_context_get(wasmer_instance_t *i) { return (wasmer_instance_context_t *)i; }
void *wasmer_instance_context_data_get(const wasmer_instance_context_t *c) { return ((sinst *)c)->data; }
void wasmer_instance_context_data_set(wasmer_instance_t *i, void *d) { ((sinst *)i)->data = d; }
const wasmer_memory_t *wasmer_instance_context_memory(const wasmer_instance_context_t *c, uint32_t k) { (void)k; return (wasmer_memory_t *)((sinst *)c)->mem; }
void wasmer_instance_destroy(wasmer_instance_t *i) {
  sinst *s = (sinst *)i;
  if (s->dead) return;            /* kept allocated: a later use is reported, not undefined */
  s->dead = 1; live--;
  memdrop(s->mem); s->mem = 0;
  freeinst(s); s->fns = 0; s->nfns = 0; s->imports = 0; s->nimports = 0; s->code = 0; s->codelen = 0;
}
void wasmer_instance_exports(wasmer_instance_t *i, wasmer_exports_t **out) {
  sinst *s = (sinst *)i; sexps *e = calloc(1, sizeof *e);
  e->e = calloc(s->nfns + 1, sizeof(sexp));
  for (int q = 0; q < s->nfns; q++) { e->e[e->n].kind = WASM_FUNCTION; e->e[e->n++].f = &s->fns[q]; }
  if (s->mem) { e->e[e->n].kind = WASM_MEMORY; e->e[e->n++].m = s->mem; }
  *out = (wasmer_exports_t *)e;
}
int wasmer_exports_len(wasmer_exports_t *e) { return ((sexps *)e)->n; }
wasmer_export_t *wasmer_exports_get(wasmer_exports_t *e, int k) { return (wasmer_export_t *)&((sexps *)e)->e[k]; }
void wasmer_exports_destroy(wasmer_exports_t *e) { if (e) { free(((sexps *)e)->e); free(e); } }
wasmer_import_export_kind wasmer_export_kind(wasmer_export_t *e) { return ((sexp *)e)->kind; }
wasmer_byte_array wasmer_export_name(wasmer_export_t *e) {
  wasmer_byte_array a; sexp *x = (sexp *)e;
  a.bytes = x->f ? (uint8_t *)x->f->name : (uint8_t *)"memory"; a.bytes_len = x->f ? x->f->nlen : 6; return a;
}
const wasmer_export_func_t *wasmer_export_to_func(const wasmer_export_t *e) { return (wasmer_export_func_t *)((sexp *)e)->f; }
wasmer_result_t wasmer_export_to_memory(const wasmer_export_t *e, wasmer_memory_t **m) {
  ((sexp *)e)->m->rc++; *m = (wasmer_memory_t *)((sexp *)e)->m; return WASMER_OK; }
wasmer_result_t wasmer_export_func_params(const wasmer_export_func_t *f, wasmer_value_tag *p, uint32_t n) {
  (void)f; for (uint32_t q = 0; q < n; q++) p[q] = WASM_I32; return WASMER_OK; }
wasmer_result_t wasmer_export_func_params_arity(const wasmer_export_func_t *f, uint32_t *r) { *r = ((sfn *)f)->nin; return WASMER_OK; }
wasmer_result_t wasmer_export_func_returns_arity(const wasmer_export_func_t *f, uint32_t *r) { *r = ((sfn *)f)->nout; return WASMER_OK; }
int wasmer_last_error_length(void) { return (int)strlen(lasterr) + 1; }
int wasmer_last_error_message(char *b, int n) { snprintf(b, n, "%s", lasterr); return (int)strlen(b) + 1; }
uint8_t *wasmer_memory_data(const wasmer_memory_t *m) { return ((smem *)m)->data; }
uint32_t wasmer_memory_data_length(wasmer_memory_t *m) { return ((smem *)m)->len; }
wasmer_result_t wasmer_memory_grow(wasmer_memory_t *m, uint32_t pages) {
  smem *x = (smem *)m; uint64_t want = x->len / PAGE + (uint64_t)pages;
  if (want > x->maxpages) { seterr("stub: memory limit"); return WASMER_ERROR; }
  x->data = realloc(x->data, want * PAGE + 1); memset(x->data + x->len, 0, (size_t)pages * PAGE); x->len = want * PAGE; return WASMER_OK;
}
void wasmer_memory_destroy(wasmer_memory_t *m) { memdrop((smem *)m); }
