#include "nodeapi.h"
#include "asn1crt.h"
#include "asn1crt_encoding.h"
#include <string.h>
#define CLAMP(n,hi) ((n) < 0 ? 0 : ((n) > (hi) ? (hi) : (int)(n)))
static inline long long TKI(Tok* r) { return r->pos < r->n ? r->p[r->pos++] : 0; }
static inline unsigned long long TKU(Tok* r) { return (unsigned long long)TKI(r); }
static inline double TKD(Tok* r) { long long v = TKI(r); double d; memcpy(&d, &v, 8); return d; }
static inline void PTI(Tok* w, long long v) { if (w->n < w->cap) w->p[w->n] = v; w->n++; }
static inline void PTU(Tok* w, unsigned long long v) { PTI(w, (long long)v); }
static inline void PTD(Tok* w, double d) { long long v; memcpy(&v, &d, 8); PTI(w, v); }
static inline void put_oct(Tok* r, int* cnt, unsigned char* a, int max, int fixed) {
    long long n = TKI(r); int i, m;
    if (cnt) *cnt = (int)n;
    m = fixed ? max : CLAMP(n, max);
    for (i = 0; i < m; i++) a[i] = (unsigned char)TKI(r);
}
static inline void get_oct(Tok* w, long long n, const unsigned char* a, int max) {
    int i; PTI(w, n);
    for (i = 0; i < CLAMP(n, max); i++) PTI(w, a[i]);
}
static inline void put_bit(Tok* r, int* cnt, unsigned char* a, int max, int fixed) {
    long long n = TKI(r); int i, m;
    if (cnt) *cnt = (int)n;
    m = fixed ? max : CLAMP(n, max);
    for (i = 0; i < (m + 7) / 8; i++) a[i] = (unsigned char)TKI(r);
}
static inline void get_bit(Tok* w, long long n, const unsigned char* a, int max) {
    int i, m = CLAMP(n, max); PTI(w, n);
    for (i = 0; i < (m + 7) / 8; i++) {
        int k = m - 8 * i;
        PTI(w, k >= 8 ? a[i] : (a[i] & (0xFF << (8 - k)) & 0xFF));
    }
}
static inline void put_str(Tok* r, char* a, int max) {
    long long n = TKI(r); int i, m = CLAMP(n, max);
    for (i = 0; i < m; i++) a[i] = (char)TKI(r);
    for (; i <= max; i++) a[i] = 0;
}
static inline void get_str(Tok* w, const char* a, int max) {
    int i, n = 0;
    while (n <= max && a[n]) n++;
    PTI(w, n);
    for (i = 0; i < n; i++) PTI(w, (unsigned char)a[i]);
}
static inline void put_oid(Tok* r, Asn1ObjectIdentifier* o) {
    long long n = TKI(r); int i;
    o->nCount = (int)n;
    for (i = 0; i < CLAMP(n, OBJECT_IDENTIFIER_MAX_LENGTH); i++) o->values[i] = (asn1SccUint)TKU(r);
}
static inline void get_oid(Tok* w, const Asn1ObjectIdentifier* o) {
    int i; PTI(w, o->nCount);
    for (i = 0; i < CLAMP(o->nCount, OBJECT_IDENTIFIER_MAX_LENGTH); i++) PTU(w, o->values[i]);
}
extern NodeApi vf_api_base;
#define EXPORT_NODE(P, N) const NodeApi* vf_node(void) { static NodeApi a; a = vf_api_base; a.pdus = P; a.npdus = (int)(N); return &a; }
