/* The seam between the simulator and one simulated node (a shared object holding the generated codecs plus the
 * run-time library of /repo/asn1crt, built with one set of options). */
#ifndef VF_NODEAPI_H
#define VF_NODEAPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int64_t* p; long n, cap, pos; } Tok;

typedef struct {
    const char* name; size_t size; long required;
    int (*enc)(const void* v, void* strm, int* err, int check);
    int (*dec)(void* v, void* strm, int* err);
    int (*val)(const void* v, int* err);
    int (*eq)(const void* a, const void* b);
    void (*ini)(void* v);
    void (*put)(void* v, Tok* r);
    void (*get)(const void* v, Tok* w);
} Pdu;

typedef struct {
    int wordsize, streaming, xer, slim;
    const Pdu* pdus; int npdus;
    size_t strm_size;
    void (*init_enc)(void* s, uint8_t* buf, long n, void* pushprm);
    void (*init_dec)(void* s, uint8_t* buf, long n, void* fetchprm);
    long (*byte)(void* s); int (*bit)(void* s); long (*count)(void* s); uint8_t* (*buf)(void* s);
    void (*set_count)(void* s, long n); void (*set_pos)(void* s, long byte, int bit);
    void (*put_bit)(void* s, int v);
    int (*get_bit)(void* s, int* v);
    void (**on_push)(void* s, void* prm);
    void (**on_fetch)(void* s, void* prm);
    int (*load_xml)(const char* name, void* s, int* loaded);
    void (*set_ws)(void* s, int on);
} NodeApi;
#ifdef __cplusplus
}
#endif
#endif
