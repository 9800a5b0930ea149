/* Modules in C, for __require_c__: which of them is to be made is defined at compile time. */
#include "yasl.h"
#include "yasl_aux.h"

#if defined(MOD_TABLE)
static int f_add(struct YASL_State *S) {
	if (!YASL_isnint(S, 0) || !YASL_isnint(S, 1)) YASL_throw_err(S, YASL_TYPE_ERROR);
	YASL_pushint(S, YASL_peeknint(S, 0) + YASL_peeknint(S, 1));
	return 1;
}
static int f_pair(struct YASL_State *S) {
	YASL_pushlit(S, "pair");
	return 2;
}
static int f_count(struct YASL_State *S) {
	YASL_pushint(S, YASL_peekvargscount(S));
	return 1;
}
static void put(struct YASL_State *S, const char *name, YASL_cfn f, int n) {
	YASL_pushlit(S, name);
	YASL_pushcfunction(S, f, n);
	YASL_tableset(S);
}
#endif

#ifndef MOD_NONE
int YASL_load_dyn_lib(struct YASL_State *S) {
#if defined(MOD_VALUE)
	YASL_pushint(S, 42);
#elif defined(MOD_STR)
	YASL_pushlit(S, MOD_STR);
#elif defined(MOD_THROW)
	YASL_throw_err(S, YASL_VALUE_ERROR);
#else
	YASL_pushtable(S);
	put(S, "add", f_add, 2);
	put(S, "pair", f_pair, 1);
	put(S, "count", f_count, -1);
	YASL_pushlit(S, "list");
	YASL_pushlist(S);
	YASL_pushint(S, 1);
	YASL_listpush(S);
	YASL_pushlit(S, "two");
	YASL_listpush(S);
	YASL_tableset(S);
#endif
	return 1;
}
#endif
