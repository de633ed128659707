/* Stand-in for libprov's error functions (a submodule that is not part of this checkout). */
#ifndef VERIF_PROV_ERR_H
# define VERIF_PROV_ERR_H
# include <stdarg.h>
# include <stdint.h>
# include <openssl/core.h>
struct proverr_functions_st;
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *dispatch);
struct proverr_functions_st *proverr_dup_handle(struct proverr_functions_st *src);
void proverr_free_handle(struct proverr_functions_st *h);
void proverr_new_error(const struct proverr_functions_st *h);
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *file, int line, const char *func);
void proverr_set_error(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, ...);
#endif
