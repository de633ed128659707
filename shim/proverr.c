/* Stand-in for libprov's error functions: errors go to the core that loaded the provider. */
#include <stdlib.h>
#include <openssl/core_dispatch.h>
#include "prov/err.h"
struct proverr_functions_st {
    const OSSL_CORE_HANDLE *core;
    OSSL_FUNC_core_new_error_fn *new_error;
    OSSL_FUNC_core_set_error_debug_fn *debug;
    OSSL_FUNC_core_vset_error_fn *vset;
};
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *d)
{
    struct proverr_functions_st *h = calloc(1, sizeof *h);
    if (!h)
        return NULL;
    h->core = core;
    for (; d->function_id; d++)
        switch (d->function_id) {
        case OSSL_FUNC_CORE_NEW_ERROR: h->new_error = OSSL_FUNC_core_new_error(d); break;
        case OSSL_FUNC_CORE_SET_ERROR_DEBUG: h->debug = OSSL_FUNC_core_set_error_debug(d); break;
        case OSSL_FUNC_CORE_VSET_ERROR: h->vset = OSSL_FUNC_core_vset_error(d); break;
        }
    return h;
}
struct proverr_functions_st *proverr_dup_handle(struct proverr_functions_st *s)
{
    struct proverr_functions_st *h = s ? malloc(sizeof *h) : NULL;
    if (h)
        *h = *s;
    return h;
}
void proverr_free_handle(struct proverr_functions_st *h) { free(h); }
void proverr_new_error(const struct proverr_functions_st *h) { if (h && h->new_error) h->new_error(h->core); }
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *f, int l, const char *fn)
{ if (h && h->debug) h->debug(h->core, f, l, fn); }
void proverr_set_error(const struct proverr_functions_st *h, uint32_t r, const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    if (h && h->vset)
        h->vset(h->core, r, fmt, a);
    va_end(a);
}
