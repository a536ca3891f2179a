// Runtime interpreted by the symbolic engine: C strings, and streams over files kept in memory. Linked to harnesses that define GS_RT*.
// A number with a symbolic value that is printed to a text file occupies one "token" byte, which scanf reads back as that number.
#include <cstdint>
#include <cstddef>
typedef uint64_t u64; typedef int64_t i64; typedef unsigned char u8;
extern "C" {
void gsrt_incomplete(const char*); void gsrt_error(const char*); void* gsrt_alloc(u64); void gsrt_free(void*);
u8 gsrt_tok_make(u64 kind, u64 v); int gsrt_tok_is(u8); u64 gsrt_tok_val(u8); int gsrt_tok_kind(u8); int gsrt_is_const(u64);
u64 gsrt_fmtround(u64 conv, u64 prec, double v); int gsrt_fmtd(char*, const char*, double); double gsrt_strtod_const(const char*);
u64 gs_conc(u64);
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); void* memmove(void*, const void*, size_t); void* malloc(size_t); void free(void*);

// ---------------------------------------------------------------- strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (int)(u8)*a - (int)(u8)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(u8)*a - (int)(u8)*b; if (!*a) return 0; } return 0; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lo((u8)*a) == lo((u8)*b)) a++, b++; return lo((u8)*a) - lo((u8)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (lo((u8)*a) != lo((u8)*b)) return lo((u8)*a) - lo((u8)*b); if (!*a) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const u8 *p = (const u8*)a, *q = (const u8*)b; for (; n; n--, p++, q++) if (*p != *q) return (int)*p - (int)*q; return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (; ; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
void* memchr(const void* s, int c, size_t n) { const u8* p = (const u8*)s; for (; n; n--, p++) if (*p == (u8)c) return (void*)p; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); memcpy(d, s, n); return d; }
int tolower(int c) { return lo(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isblank(int c) { return c == ' ' || c == 9; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* a, char** p) { if (!s) s = *p; s += strspn(s, a); if (!*s) { *p = s; return 0; } char* e = s + strcspn(s, a); if (*e) *e++ = 0; *p = e; return s; }
char* __strtok_r(char* s, const char* a, char** p) { return strtok_r(s, a, p); }
char* strtok(char* s, const char* a) { static char* p; return strtok_r(s, a, &p); }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) d++, s++; return d; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }

// ---------------------------------------------------------------- streams
enum { BUF0 = 1 << 12, BUF = 1 << 22, NAME = 320 };
struct VF { char name[NAME]; u8* d; u64 n; int live; u64 cap; int cut; u64 left; int nospace; }; // cut: only `left` bytes reached the disk
struct VS { VF* f; u64 pos; int rd, wr, app, open, eof, err; };
static VF vf[24]; static VS* vs[64]; static int nvs;
static VS* st(void* p) {
  for (int i = 0; i < nvs; i++) if ((void*)vs[i] == p) { if (!vs[i]->open) gsrt_error("use of a closed stream"); return vs[i]; }
  gsrt_error(p ? "use of something that is not a stream" : "null stream"); return 0;
}
static void room(VF* f, u64 n) { // contents of a file grow as it is written
  if (n > BUF) gsrt_incomplete("file size"); if (n <= f->cap) return;
  u64 c = f->cap; while (c < n) c *= 2; u8* d = (u8*)gsrt_alloc(c); if (f->n) memcpy(d, f->d, f->n); f->d = d; f->cap = c;
}
static VS* capS; // stream that receives what is printed, if any
static VF* find(const char* n) { for (int i = 0; i < 24; i++) if (vf[i].live && !strcmp(vf[i].name, n)) return &vf[i]; return 0; }
static int dirOk(const char* n) { if (!*n) return 0; if (!strncmp(n, "/tmp/csbr_prepare/", 18)) return 1; return !strchr(n, '/'); }
void* fopen(const char* name, const char* mode);
int fclose(void* p);
void gs_capture(const char* name) { if (capS) { fclose(capS); capS = 0; } if (name) capS = (VS*)fopen(name, "w"); }
void* fopen(const char* name, const char* mode) {
  if (strlen(name) > 255) return 0; // ENAMETOOLONG
  int plus = strchr(mode, '+') != 0; VF* f = find(name); char m = mode[0];
  if (m == 'r' && !f) return 0;
  if (f && f->cut) { f->cut = 0; if (m != 'w') f->n = gs_conc(f->left); }
  if (m != 'r' && !f) {
    if (!dirOk(name)) return 0;
    for (int i = 0; i < 24 && !f; i++) if (!vf[i].live) f = &vf[i];
    if (!f) gsrt_incomplete("files"); f->live = 1; strcpy(f->name, name); if (!f->d) { f->d = (u8*)gsrt_alloc(BUF0); f->cap = BUF0; } f->n = 0; f->cut = 0; f->nospace = 0;
  }
  if (m == 'w') f->n = 0;
  if (nvs >= 64) gsrt_incomplete("streams");
  VS* s = (VS*)gsrt_alloc(sizeof(VS)); vs[nvs++] = s; s->f = f; s->pos = 0; s->rd = m == 'r' || plus; s->wr = m != 'r' || plus; s->app = m == 'a'; s->open = 1; s->eof = s->err = 0;
  return s;
}
static u64 disk_ = ~0ull; // bytes a file opened for writing may hold
void gs_disk(u64 cap) { disk_ = cap; }
static u64 room_(VF* f) { return f->nospace ? 0 : disk_; }
static void over(VS* s, u64 was) { if ((s->f->n >> 12) != (was >> 12) && s != capS && s->f->n > room_(s->f)) s->err = 1; } // the stream's buffer was written out
static int noRoom(VS* s) { return s->wr && s != capS && s->f->n > room_(s->f); }
int fclose(void* p) { VS* s = 0; for (int i = 0; i < nvs; i++) if ((void*)vs[i] == p) s = vs[i]; if (!s || !s->open) gsrt_error("fclose of a stream that is not open"); s->open = 0; if (noRoom(s)) { s->f->cut = 1; s->f->left = room_(s->f); return -1; } return 0; }
void gs_nospace(const char* name) { int fclose(void*); void* s = fopen(name, "w"); if (s) { ((VS*)s)->f->nospace = 1; fclose(s); } }
u64 gs_open_streams() { u64 n = 0; for (int i = 0; i < nvs; i++) n += vs[i]->open; return n; }
int remove(const char* n) { VF* f = find(n); if (!f) return -1; f->live = 0; return 0; }
int unlink(const char* n) { return remove(n); }
int fflush(void* p) { for (int i = 0; i < nvs; i++) if ((void*)vs[i] == p && noRoom(vs[i])) { vs[i]->err = 1; return -1; } return 0; }
int feof(void* p) { return st(p)->eof; }
int ferror(void* p) { return st(p)->err; }
void clearerr(void* p) { VS* s = st(p); s->eof = s->err = 0; }
long ftell(void* p) { return (long)st(p)->pos; }
int fseek(void* p, long off, int wh) {
  VS* s = st(p); i64 b = wh == 0 ? 0 : wh == 1 ? (i64)s->pos : (i64)s->f->n; i64 o = b + (i64)gs_conc((u64)off); if (o < 0) return -1; if (o > BUF) gsrt_incomplete("file size"); s->pos = (u64)o; s->eof = 0; return 0;
}
int fseeko(void* p, long off, int wh) { return fseek(p, off, wh); }
long ftello(void* p) { return ftell(p); }
void rewind(void* p) { fseek(p, 0, 0); st(p)->err = 0; }
size_t fread(void* b, size_t sz, size_t n, void* p) {
  VS* s = st(p); if (!s->rd) { s->err = 1; return 0; } sz = gs_conc(sz); if (!sz) return 0;
  u64 av = s->pos < s->f->n ? s->f->n - s->pos : 0, full = av / sz;
  if (n == 0) return 0;
  u64 k = n > full ? full : gs_conc(n);
  if (k) memcpy(b, s->f->d + s->pos, k * sz);
  if (n > full) { u64 rest = av - k * sz; if (rest) memcpy((u8*)b + k * sz, s->f->d + s->pos + k * sz, rest); s->pos += av; s->eof = 1; } else s->pos += k * sz;
  return k;
}
size_t fwrite(const void* b, size_t sz, size_t n, void* p) {
  if ((u64)p == 0xF2000 && capS) p = capS; else if ((u64)p == 0xF2000 || (u64)p == 0xF3000) return n;
  VS* s = st(p); if (!s->wr) { s->err = 1; return 0; } sz = gs_conc(sz); n = gs_conc(n); if (!sz || !n) return 0;
  u64 old = s->f->n; if (s->app) s->pos = s->f->n;
  if (n > BUF || sz > BUF) gsrt_incomplete("file size"); room(s->f, s->pos + sz * n);
  if (s->pos > s->f->n) memset(s->f->d + s->f->n, 0, s->pos - s->f->n);
  memcpy(s->f->d + s->pos, b, sz * n); s->pos += sz * n; if (s->pos > s->f->n) s->f->n = s->pos; int e = s->err; over(s, old); return s->err && !e ? 0 : n;
}
static void put1(VS* s, u8 c) { u64 old = s->f->n; if (s->app) s->pos = s->f->n; room(s->f, s->pos + 1); s->f->d[s->pos++] = c; if (s->pos > s->f->n) s->f->n = s->pos; over(s, old); }
int fgetc(void* p) { VS* s = st(p); if (!s->rd || s->pos >= s->f->n) { s->eof = 1; return -1; } u8 c = s->f->d[s->pos++]; if (gsrt_tok_is(c)) gsrt_incomplete("character of a number"); return c; }
int getc(void* p) { return fgetc(p); }
int ungetc(int c, void* p) { VS* s = st(p); if (c == -1 || !s->pos) return -1; s->pos--; if (s->f->d[s->pos] != (u8)c) gsrt_incomplete("ungetc"); s->eof = 0; return c; }
int fputc(int c, void* p) { if ((u64)p == 0xF2000 && capS) p = capS; else if ((u64)p == 0xF2000 || (u64)p == 0xF3000) return c; put1(st(p), (u8)c); return c; }
int putc(int c, void* p) { return fputc(c, p); }
int fputs(const char* s, void* p) { if ((u64)p == 0xF2000 && capS) p = capS; else if ((u64)p == 0xF2000 || (u64)p == 0xF3000) return 1; VS* v = st(p); while (*s) put1(v, (u8)*s++); return 1; }
int setvbuf(void*, char*, int, size_t) { return 0; }
void setbuf(void*, char*) {}
int fileno(void* p) { for (int i = 0; i < nvs; i++) if ((void*)vs[i] == p) return 100 + i; return (u64)p == 0xF2000 ? 1 : 2; }
static int stOf(VF* f, void* b) { if (!f) return -1; memset(b, 0, 144); *(uint32_t*)((u8*)b + 24) = 0100644; *(u64*)((u8*)b + 48) = f->cut ? gs_conc(f->left) : f->n; return 0; } // st_mode, st_size on x86-64
int fstat(int d, void* b) { return d >= 100 && d < 100 + nvs ? stOf(vs[d - 100]->f, b) : -1; }
int stat(const char* n, void* b) { return stOf(find(n), b); }
int rename(const char* a, const char* b) { VF* f = find(a); if (!f || !dirOk(b)) return -1; if (f != find(b)) { remove(b); strcpy(f->name, b); } return 0; }
long getline(char** l, size_t* n, void* p) {
  VS* s = st(p); if (!s->rd || s->pos >= s->f->n) { s->eof = 1; return -1; } u64 k = 0; while (s->pos + k < s->f->n) { u8 c = s->f->d[s->pos + k++]; if (!gsrt_tok_is(c) && c == '\n') break; }
  if (!*l || *n < k + 1) { char* q = (char*)malloc(k + 120); if (*l) free(*l); *l = q; *n = k + 120; } memcpy(*l, s->f->d + s->pos, k); (*l)[k] = 0; s->pos += k; if (s->pos >= s->f->n && (*l)[k - 1] != '\n') s->eof = 1; return (long)k;
}
char* fgets(char* b, int n, void* p) {
  VS* s = st(p); int k = 0; if (!s->rd) return 0;
  while (k < n - 1 && s->pos < s->f->n) { u8 c = s->f->d[s->pos++]; b[k++] = (char)c; if (!gsrt_tok_is(c) && c == '\n') break; }
  if (s->pos >= s->f->n && (!k || b[k - 1] != '\n')) s->eof = 1;
  if (!k) return 0; b[k] = 0; return b;
}
int system(const char*) { return 0; } // recorded nowhere, never executed
static i64 clk; // nanoseconds; every reading takes a microsecond
static uint32_t rnd;
int rand() { rnd = rnd * 5 + 3; return (int)((rnd & 7) << 28); } // multiples of RAND_MAX / 8
char* __xpg_basename(char* s) { char* r = s; for (char* p = s; *p; p++) if (*p == 47 && p[1]) r = p + 1; return r; }
void gs_tick(u64 ns) { clk += (i64)ns; }
i64 _ZNSt6chrono3_V212system_clock3nowEv() { return clk += 1000; }
i64 _ZNSt6chrono3_V212steady_clock3nowEv() { return clk += 1000; }
int access(const char* n, int) { return find(n) ? 0 : -1; }
char* getenv(const char*) { return 0; }

// ---------------------------------------------------------------- formatted output
struct Out { VS* s; char* b; u64 n, cap; };
static void emit(Out& o, u8 c) { if (o.s) put1(o.s, c); else if (o.b && o.n < o.cap) o.b[o.n] = (char)c; o.n++; }
static void padded(Out& o, const char* t, int len, int width, int left, int zero) {
  if (!left) for (int i = len; i < width; i++) emit(o, zero ? '0' : ' ');
  for (int i = 0; i < len; i++) emit(o, (u8)t[i]);
  if (left) for (int i = len; i < width; i++) emit(o, ' ');
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 ofD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static int format(Out& o, const char* f, u64* va, int n) {
  int k = 0; char t[64];
#define ARG (k < n ? va[k++] : (gsrt_error("missing argument of printf"), (u64)0))
  for (; *f; f++) {
    if (*f != '%') { emit(o, (u8)*f); continue; }
    f++; int left = 0, zero = 0, width = 0, prec = -1, L = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+' || *f == '#' || *f == ' ') gsrt_incomplete("printf flag"); else break; }
    if (*f == '*') { width = (int)gs_conc(ARG); f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = (int)gs_conc(ARG); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') L++; else if (*f == 'h') L--; else break; }
    char c = *f;
    if (c == '%') { emit(o, '%'); continue; }
    if (c == 's') { const char* s = (const char*)ARG; int len = 0; while ((prec < 0 || len < prec) && s[len]) len++; padded(o, s, len, width, left, 0); continue; }
    if (c == 'c') { emit(o, (u8)ARG); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X') {
      u64 v = ARG; int sg = c == 'd' || c == 'i';
      if (L <= 0) v = sg ? (u64)(i64)(int32_t)v : (u64)(uint32_t)v;
      if (L < 0) v = sg ? (u64)(i64)(int16_t)v : (u64)(uint16_t)v;
      if (!gsrt_is_const(v)) { if (c == 'x' || c == 'X') gsrt_incomplete("hexadecimal output"); emit(o, gsrt_tok_make(sg ? 1 : 0, v)); continue; }
      int neg = sg && (i64)v < 0; if (neg) v = 0 - v; int len = 0; char r[32]; u64 base = sg || c == 'u' ? 10 : 16;
      do { int d = (int)(v % base); r[len++] = (char)(d < 10 ? '0' + d : (c == 'x' ? 'a' : 'A') + d - 10); v /= base; } while (v);
      while (prec > len) r[len++] = '0'; if (neg) r[len++] = '-';
      for (int i = 0; i < len; i++) t[i] = r[len - 1 - i];
      padded(o, t, len, width, left, zero && prec < 0); continue;
    }
    if (c == 'f' || c == 'F' || c == 'g' || c == 'e' || c == 'G' || c == 'E') {
      u64 v = ARG; char cc = (char)lo(c); if (prec < 0) prec = 6;
      if (gsrt_is_const(v)) { char fm[8]; int q = 0; fm[q++] = '%'; fm[q++] = '.'; if (prec > 99) prec = 99; if (prec > 9) fm[q++] = (char)('0' + prec / 10); fm[q++] = (char)('0' + prec % 10); fm[q++] = c; fm[q] = 0;
        char big[512]; int len = gsrt_fmtd(big, fm, asD(v)); padded(o, big, len, width, left, zero); continue; }
      emit(o, gsrt_tok_make(2, gsrt_fmtround((u64)cc, (u64)prec, asD(v)))); continue;
    }
    gsrt_incomplete("printf conversion");
  }
  return (int)o.n;
}
int gsrt_va_printf(const char* f, u64* va, int n) { if (!capS) return 0; Out o = {capS, 0, 0, 0}; return format(o, f, va, n); }
int gsrt_puts(const char* s) { if (capS) { while (*s) put1(capS, (u8)*s++); put1(capS, 10); } return 1; }
int gsrt_putchar(int c) { if (capS) put1(capS, (u8)c); return c; }
int gsrt_va_fprintf(void* p, const char* f, u64* va, int n) { if ((u64)p == 0xF2000) return gsrt_va_printf(f, va, n); Out o = {st(p), 0, 0, 0}; return format(o, f, va, n); }
int gsrt_va_sprintf(char* b, const char* f, u64* va, int n) { Out o = {0, b, 0, (u64)1 << 40}; int r = format(o, f, va, n); b[r] = 0; return r; }
int gsrt_va_snprintf(char* b, u64 cap, const char* f, u64* va, int n) { Out o = {0, b, 0, cap ? cap - 1 : 0}; int r = format(o, f, va, n); if (cap) b[(u64)r < cap ? r : cap - 1] = 0; return r; }
int gsrt_va_sprintf_chk(char* b, int, u64, const char* f, u64* va, int n) { return gsrt_va_sprintf(b, f, va, n); }

// ---------------------------------------------------------------- std::cout, where printed text is kept (other streams: ignored)
extern char gsrt_cout[272] asm("_ZSt4cout");
#define OS(name, sym, args, body) void* name args asm(sym); void* name args { if (capS && o == (void*)gsrt_cout) body; return o; }
static void osf(const char* f, u64 v) { Out t = {capS, 0, 0, 0}; format(t, f, &v, 1); }
OS(gsrt_os1, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", (void* o, const char* s), { while (*s) put1(capS, (u8)*s++); })
OS(gsrt_os2, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", (void* o, char c), put1(capS, (u8)c))
OS(gsrt_os2a, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h", (void* o, char c), put1(capS, (u8)c))
OS(gsrt_os2b, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a", (void* o, char c), put1(capS, (u8)c))
OS(gsrt_os3, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", (void* o, const char* s, i64 n), { for (i64 i = 0; i < n; i++) put1(capS, (u8)s[i]); })
OS(gsrt_os4, "_ZNSo5writeEPKcl", (void* o, const char* s, i64 n), { for (i64 i = 0; i < n; i++) put1(capS, (u8)s[i]); })
OS(gsrt_os5, "_ZNSo3putEc", (void* o, char c), put1(capS, (u8)c))
OS(gsrt_os6, "_ZNSolsEi", (void* o, int v), osf("%ld", (u64)(i64)v))
OS(gsrt_os7, "_ZNSolsEj", (void* o, unsigned v), osf("%lu", v))
OS(gsrt_os8, "_ZNSolsEs", (void* o, short v), osf("%ld", (u64)(i64)v))
OS(gsrt_os9, "_ZNSolsEt", (void* o, unsigned short v), osf("%lu", v))
OS(gsrt_os10, "_ZNSolsEl", (void* o, long v), osf("%ld", (u64)v))
OS(gsrt_os11, "_ZNSolsEm", (void* o, unsigned long v), osf("%lu", v))
OS(gsrt_os12, "_ZNSolsEx", (void* o, long v), osf("%ld", (u64)v))
OS(gsrt_os13, "_ZNSolsEy", (void* o, unsigned long v), osf("%lu", v))
OS(gsrt_os14, "_ZNSolsEf", (void* o, float v), osf("%g", ofD((double)v)))
OS(gsrt_os15, "_ZNSolsEd", (void* o, double v), osf("%g", ofD(v)))
OS(gsrt_os16, "_ZNSolsEb", (void* o, bool v), osf("%lu", v))
OS(gsrt_os17, "_ZNSolsEPFRSoS_E", (void* o, void* (*m)(void*)), m(o))
OS(gsrt_os18, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", (void* o), put1(capS, 10))

// ---------------------------------------------------------------- formatted input
struct In { VS* s; const char* b; u64 pos; };
static int peek(In& i, u8& c) { if (i.s) { if (i.s->pos >= i.s->f->n) { i.s->eof = 1; return 0; } c = i.s->f->d[i.s->pos]; return 1; } c = (u8)i.b[i.pos]; if (gsrt_tok_is(c)) return 1; return c != 0; }
static void adv(In& i) { if (i.s) i.s->pos++; else i.pos++; }
static void skipws(In& i) { u8 c; while (peek(i, c)) { if (gsrt_tok_is(c) || !isspace(c)) return; adv(i); } }
// Number under the cursor: 1 read, 0 no match, -1 end of input. Integers give v, others d.
static int number(In& i, int isInt, u64& v, double& d, int& isTok) {
  skipws(i); u8 c; if (!peek(i, c)) return -1;
  isTok = 0;
  if (gsrt_tok_is(c)) {
    isTok = 1; int kind = gsrt_tok_kind(c); u64 x = gsrt_tok_val(c); adv(i);
    u8 q; if (peek(i, q) && (gsrt_tok_is(q) || isdigit(q) || q == '.')) gsrt_incomplete("adjacent numbers");
    if (isInt && kind == 2) { i64 w = (i64)asD(x); if (asD(x) != (double)w) gsrt_incomplete("fraction read as an integer"); v = (u64)w; return 1; }
    if (isInt) { v = x; return 1; }
    d = kind == 2 ? asD(x) : kind == 1 ? (double)(i64)x : (double)x; return 1;
  }
  char t[64]; int n = 0, digits = 0; if (c == '+' || c == '-') { t[n++] = (char)c; adv(i); }
  for (;;) { if (!peek(i, c) ) break; if (gsrt_tok_is(c)) { gsrt_incomplete("adjacent numbers"); } if (isdigit(c)) { if (n < 60) t[n++] = (char)c; digits++; adv(i); } else break; }
  if (isInt) { if (!digits) return 0; u64 r = 0; for (int k = 0; k < n; k++) if (isdigit(t[k])) r = r * 10 + (u64)(t[k] - '0'); if (t[0] == '-') r = 0 - r; v = r; return 1; }
  if (peek(i, c) && !gsrt_tok_is(c) && c == '.') { t[n++] = '.'; adv(i); while (peek(i, c) && !gsrt_tok_is(c) && isdigit(c)) { if (n < 60) t[n++] = (char)c; digits++; adv(i); } }
  if (!digits) return 0;
  if (peek(i, c) && !gsrt_tok_is(c) && (c == 'e' || c == 'E')) { t[n++] = 'e'; adv(i); if (peek(i, c) && !gsrt_tok_is(c) && (c == '+' || c == '-')) { t[n++] = (char)c; adv(i); } while (peek(i, c) && !gsrt_tok_is(c) && isdigit(c)) { if (n < 62) t[n++] = (char)c; adv(i); } }
  t[n] = 0; d = gsrt_strtod_const(t); return 1;
}
static int scan(In& i, const char* f, u64* va, int n) {
  int k = 0, got = 0; u8 c;
  for (; *f; f++) {
    if (isspace(*f)) { skipws(i); continue; }
    if (*f != '%') { if (!peek(i, c)) return got ? got : -1; if (gsrt_tok_is(c) || c != (u8)*f) return got; adv(i); continue; }
    f++; int skip = 0, width = 0, L = 0; if (*f == '*') { skip = 1; f++; }
    while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j') L++; else if (*f == 'h') L--; else break; }
    if (!skip && k >= n) gsrt_error("missing argument of scanf");
    if (*f == 'd' || *f == 'i' || *f == 'u') {
      u64 v; double d; int tk; int r = number(i, 1, v, d, tk); if (r < 0) return got ? got : -1; if (!r) return got;
      if (!skip) { void* p = (void*)va[k++]; if (L > 0) *(u64*)p = v; else if (L == 0) *(uint32_t*)p = (uint32_t)v; else *(uint16_t*)p = (uint16_t)v; got++; } continue;
    }
    if (*f == 'f' || *f == 'g' || *f == 'e') {
      u64 v; double d; int tk; int r = number(i, 0, v, d, tk); if (r < 0) return got ? got : -1; if (!r) return got;
      if (!skip) { void* p = (void*)va[k++]; if (L > 0) *(double*)p = d; else *(float*)p = (float)d; got++; } continue;
    }
    if (*f == 's') {
      skipws(i); if (!peek(i, c)) return got ? got : -1; char* p = skip ? 0 : (char*)va[k++]; int m = 0;
      while (peek(i, c) && !(width && m >= width)) { if (gsrt_tok_is(c)) gsrt_incomplete("number read as text"); if (isspace(c)) break; if (p) p[m] = (char)c; m++; adv(i); }
      if (p) { p[m] = 0; got++; } continue;
    }
    if (*f == 'c') { if (!peek(i, c)) return got ? got : -1; if (gsrt_tok_is(c)) gsrt_incomplete("number read as text"); if (!skip) { *(char*)va[k++] = (char)c; got++; } adv(i); continue; }
    gsrt_incomplete("scanf conversion");
  }
  return got;
}
int gsrt_va_fscanf(void* p, const char* f, u64* va, int n) { In i = {st(p), 0, 0}; return scan(i, f, va, n); }
int gsrt_va_sscanf(const char* b, const char* f, u64* va, int n) { In i = {0, b, 0}; return scan(i, f, va, n); }

// ---------------------------------------------------------------- numbers
static long toL(const char* s, char** e, int base) {
  if (base && base != 10) gsrt_incomplete("strtol base"); In i = {0, s, 0}; u64 v = 0; double d; int tk; int r = number(i, 1, v, d, tk); if (e) *e = (char*)(r == 1 ? s + i.pos : s); return r == 1 ? (long)v : 0;
}
double strtod(const char* s, char** e) { In i = {0, s, 0}; u64 v; double d = 0; int tk; int r = number(i, 0, v, d, tk); if (e) *e = (char*)(r == 1 ? s + i.pos : s); return r == 1 ? d : 0; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
long strtol(const char* s, char** e, int b) { return toL(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)toL(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return toL(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long long)toL(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return toL(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return (unsigned long)toL(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return toL(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return (unsigned long long)toL(s, e, b); }
int atoi(const char* s) { return (int)toL(s, 0, 10); }
long atol(const char* s) { return toL(s, 0, 10); }
}
