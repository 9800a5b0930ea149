/* Runs programs through the public API, each in a process of its own, and records what they did.
 *   prog IN OUT
 * IN: for each program "<mode> <len>\n" and len bytes.  OUT: for each one "<status> <outlen> <errlen>\n" and the bytes.
 * modes: b  from memory        s  from memory, output to a str       f  from a file
 *        c  syntax check only (YASL_compile)   l  like b, and look for leaks at the end
 *        F, E, C, e  the yasl tool, given a file, or with this option
 *        d  like l, with the functions obj() and id(o): host objects that print "~<number>" when they are destroyed
 *        w  like l, in a directory of its own with the file "old" and the directory "dir"; in the end, the files are printed
 *        h  like d, with functions h0, h1, ... of the host in front of the program (see checks/host.py), and the globals g0, g1
 * status: the one of YASL_execute, 50 more with a leak, 98 for a timeout, 99 for a memory error, 100 + n for signal n. */
#include "yasl.h"
#include "yasl_aux.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/lsan_interface.h>
#endif

static char tmpname[256], tool[1024];

struct obj { unsigned magic; int n; };
#define ALIVE 0x0B0B0B0Bu
static int objs, lastobj;
static struct obj *allobjs[1 << 16];
static void obj_destroy(void *p) {
	struct obj *o = p;
	/* the number it really has: a pointer that is none of ours shows up as -1 */
	int n = -1;
	for (int i = 1; i <= lastobj; i++) if (allobjs[i] == o) n = i;
	printf("~%d\n", n);
	if (n > 0) { allobjs[n] = NULL; objs--; o->magic = 0; free(o); }
}
static char objtag[] = "obj";
static int f_obj(struct YASL_State *S) {
	struct obj *o = malloc(sizeof *o);
	o->magic = ALIVE;
	o->n = ++lastobj;
	if (lastobj < 1 << 16) allobjs[lastobj] = o;
	objs++;
	YASL_pushuserdata(S, o, objtag, obj_destroy);
	return 1;
}
static int f_id(struct YASL_State *S) {
	if (!YASL_isuserdata(S, objtag)) {
		YASLX_print_err_bad_arg_type(S, "id", 0, "obj", YASL_peektypename(S));
		YASL_throw_err(S, YASL_TYPE_ERROR);
	}
	struct obj *o = YASL_peeknuserdata(S, 0);
	YASL_pushint(S, o->magic == ALIVE ? o->n : -1);
	return 1;
}

/* lit(s): the same str, but as one that belongs to the host, which its slices share */
static char *lits[1 << 12];
static int nlits;
static int f_lit(struct YASL_State *S) {
	if (!YASL_isstr(S)) {
		YASLX_print_err_bad_arg_type(S, "lit", 0, "str", YASL_peektypename(S));
		YASL_throw_err(S, YASL_TYPE_ERROR);
	}
	char *t = YASL_popcstr(S);
	int i = 0;
	while (i < nlits && strcmp(lits[i], t)) i++;
	if (i == nlits && nlits < 1 << 12) lits[nlits++] = t; else free(t);
	YASL_pushlit(S, lits[i]);
	return 1;
}

/* functions of the host: lists of calls of the API, each printing what it returned */
#define MAXF 12
struct cmd { char op[16]; long i; char *s; };
struct fun { int arity, n; struct cmd *c; };
static struct fun funs[MAXF];
static int run_fun(struct YASL_State *S, int no);
#define F(n) static int h##n(struct YASL_State *S) { return run_fun(S, n); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11)
static YASL_cfn cfns[MAXF] = { h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11 };
static const char tag2[] = "other";

static void put_float(FILE *o, double f) {
	if (f != f) fputs("nan", o);
	else if (f - f != 0) fputs(f < 0 ? "-inf" : "inf", o);
	else fprintf(o, "%.0f/64", f * 64);
}
static void put_is(struct YASL_State *S, int n) {
	int d = n < 0;
	printf("%s %d%d%d%d%d%d%d%d%d%d\n", d ? YASL_peektypename(S) : YASL_peekntypename(S, n),
		d ? YASL_isundef(S) : YASL_isnundef(S, n), d ? YASL_isbool(S) : YASL_isnbool(S, n), d ? YASL_isint(S) : YASL_isnint(S, n),
		d ? YASL_isfloat(S) : YASL_isnfloat(S, n), d ? YASL_isstr(S) : YASL_isnstr(S, n), d ? YASL_islist(S) : YASL_isnlist(S, n),
		d ? YASL_istable(S) : YASL_isntable(S, n), d ? YASL_isuserdata(S, objtag) : YASL_isnuserdata(S, objtag, n),
		d ? YASL_isuserdata(S, tag2) : YASL_isnuserdata(S, tag2, n), d ? YASL_isuserptr(S) : YASL_isnuserptr(S, n));
}
static void put_key(struct YASL_State *S, FILE *f) {
	if (YASL_isstr(S)) { char *t = YASL_peekcstr(S); fputs(t, f); free(t); }
	else if (YASL_isint(S)) fprintf(f, "%ld", (long)YASL_peekint(S));
	else if (YASL_isbool(S)) fputs(YASL_peekbool(S) ? "true" : "false", f);
	else if (YASL_isfloat(S)) put_float(f, YASL_peekfloat(S));
	else fprintf(f, "(%s)", YASL_peektypename(S));
}

static int run_fun(struct YASL_State *S, int no) {
	struct fun *f = funs + no;
	/* how many values there are on its stack */
	long d = f->arity >= 0 ? f->arity : ~f->arity + 1 + YASL_peekvargscount(S);
	for (int j = 0; j < f->n; j++) {
		struct cmd *c = f->c + j;
#define OP(x) (!strcmp(c->op, x))
#define NEED(k) if (d < (k)) { puts("skip"); continue; }
		if (OP("undef")) { YASL_pushundef(S); d++; }
		else if (OP("int")) { YASL_pushint(S, c->s[0] ? strtoll(c->s, NULL, 10) : c->i); d++; }
		else if (OP("float")) { YASL_pushfloat(S, c->s[0] ? strtod(c->s, NULL) : c->i / 64.0); d++; }
		else if (OP("bool")) { YASL_pushbool(S, c->i); d++; }
		else if (OP("lit")) { YASL_pushlit(S, c->s); d++; }
		else if (OP("zstr")) { char *t = strdup(c->s); YASL_pushzstr(S, t); memset(t, '!', strlen(t)); free(t); d++; }
		else if (OP("lstr")) { YASL_pushlstr(S, c->s, c->i); d++; }
		else if (OP("list")) { YASL_pushlist(S); d++; }
		else if (OP("table")) { YASL_pushtable(S); d++; }
		else if (OP("cfn")) { YASL_pushcfunction(S, cfns[c->i], funs[c->i].arity); d++; }
		else if (OP("ptr")) { YASL_pushuserptr(S, (char *)NULL + c->i); d++; }
		else if (OP("obj")) { f_obj(S); d++; }
		else if (OP("id")) { NEED(1)
			if (YASL_islist(S) || YASL_istable(S)) { puts("skip"); continue; }
			struct obj *o = YASL_peeknuserdata(S, d - 1);
			printf("id %d %d\n", o ? o->n : 0, o == YASL_peekuserdata(S)); }
		else if (OP("popptr")) { NEED(1) int ok = YASL_isuserptr(S); printf("popptr %ld\n", (long)((char *)YASL_popuserptr(S) - (char *)NULL)); d -= ok; }
		else if (OP("pop")) { NEED(1) YASL_pop(S); d--; }
		else if (OP("dup")) { NEED(1) printf("dup %d\n", YASL_duptop(S)); d++; }
		else if (OP("is")) { NEED(1) put_is(S, -1); }
		else if (OP("isn")) { NEED(c->i + 1) put_is(S, c->i); }
		else if (OP("peek")) {
			NEED(1)
			char *t = YASL_peekcstr(S);
			printf("peek %lld %d ", (long long)YASL_peekint(S), YASL_peekbool(S));
			put_float(stdout, YASL_peekfloat(S));
			printf(" %ld %s\n", (long)((char *)YASL_peekuserptr(S) - (char *)NULL), t ? t : "NULL");
			free(t);
		}
		else if (OP("peekn")) {
			NEED(c->i + 1)
			printf("peekn %lld %d ", (long long)YASL_peeknint(S, c->i), YASL_peeknbool(S, c->i));
			put_float(stdout, YASL_peeknfloat(S, c->i));
			puts("");
		}
		else if (OP("popint")) { NEED(1) int ok = YASL_isint(S); printf("popint %lld\n", (long long)YASL_popint(S)); d -= ok; }
		else if (OP("popbool")) { NEED(1) int ok = YASL_isbool(S); printf("popbool %d\n", YASL_popbool(S)); d -= ok; }
		else if (OP("popfloat")) { NEED(1) int ok = YASL_isfloat(S); printf("popfloat "); put_float(stdout, YASL_popfloat(S)); puts(""); d -= ok; }
		else if (OP("popcstr")) { NEED(1) char *t = YASL_popcstr(S); printf("popcstr %s\n", t ? t : "NULL"); free(t); d--; }
		else if (OP("len")) { NEED(1) YASL_len(S); }
		else if (OP("listget")) { NEED(1) int ok = YASL_listget(S, c->i); printf("listget %d\n", ok); if (!ok) d++; }
		else if (OP("listpush")) { NEED(2) printf("listpush %d\n", YASL_listpush(S)); d--; }
		else if (OP("tableset")) { NEED(3) if (YASL_isundef(S)) { puts("skip"); continue; } printf("tableset %d\n", YASL_tableset(S)); d -= 2; }
		else if (OP("entries")) {
			NEED(1)
			if (!YASL_istable(S)) { puts("skip"); continue; }
			char *text = NULL;
			size_t tlen;
			FILE *tf = open_memstream(&text, &tlen);
			int first = 1;
			YASL_pushundef(S);
			while (YASL_tablenext(S)) {
				if (!first) fputs(", ", tf);
				first = 0;
				char *v = NULL;
				char buf[64];
				snprintf(buf, sizeof buf, "(%s)", YASL_peektypename(S));
				if (YASL_isstr(S)) v = YASL_peekcstr(S);
				else if (YASL_isint(S)) snprintf(buf, sizeof buf, "%lld", (long long)YASL_peekint(S));
				YASL_pop(S);
				put_key(S, tf);
				fprintf(tf, ": %s", v ? v : buf);
				free(v);
			}
			fclose(tf);
			printf("{%s}\n", text);
			free(text);
		}
		else if (OP("load")) { int e = YASL_loadglobal(S, c->s); printf("load %d\n", e); if (!e) d++; }
		else if (OP("set")) { NEED(1) int e = YASL_setglobal(S, c->s); printf("set %d\n", e); if (!e) d--; }
		else if (OP("regmt")) { NEED(1) if (!YASL_istable(S)) { puts("skip"); continue; } printf("regmt %d\n", YASL_registermt(S, c->s)); d--; }
		else if (OP("loadmt")) { int e = YASL_loadmt(S, c->s); printf("loadmt %d\n", e); if (!e) d++; }
		else if (OP("setmt")) {
			NEED(2)
			if (!YASL_istable(S) || !YASL_isnuserdata(S, objtag, d - 2) && !YASL_isnlist(S, d - 2) && !YASL_isntable(S, d - 2)) { puts("skip"); continue; }
			printf("setmt %d\n", YASL_setmt(S)); d--;
		}
		else if (OP("call")) { NEED(c->i + 1) fflush(stdout); int r = YASL_functioncall(S, c->i); printf("call %d\n", r); d += r - c->i - 1; }
		else if (OP("vargs")) { if (f->arity >= 0 || d < -f->arity || !YASL_isnint(S, ~f->arity)) puts("skip"); else printf("vargs %lld\n", (long long)YASL_peekvargscount(S)); }
		else if (OP("chkint")) { NEED(c->i + 1) printf("chkint %lld\n", (long long)YASLX_checknint(S, "h", c->i)); }
		else if (OP("chkfloat")) { NEED(c->i + 1) double x = YASLX_checknfloat(S, "h", c->i); printf("chkfloat "); put_float(stdout, x); puts(""); }
		else if (OP("chkbool")) { NEED(c->i + 1) printf("chkbool %d\n", YASLX_checknbool(S, "h", c->i)); }
		else if (OP("chkundef")) { NEED(c->i + 1) YASLX_checknundef(S, "h", c->i); puts("chkundef"); }
		else if (OP("chkobj")) { NEED(c->i + 1) printf("chkobj %d\n", ((struct obj *)YASLX_checknuserdata(S, objtag, "h", c->i))->n); }
		else if (OP("throw")) { YASL_print_err(S, "ValueError: thrown"); YASL_throw_err(S, c->i); }
		else if (OP("say")) puts(c->s);
		else if (OP("ret")) { NEED(c->i) return c->i; }
		else { printf("unknown command %s\n", c->op); }
	}
	return 0;
}
/* the functions in front of the program; returns the program */
static char *read_funs(char *src, size_t *len) {
	char *p = src;
	int n = strtol(p, &p, 10);
	p++;
	for (int i = 0; i < n; i++) {
		funs[i].arity = strtol(p, &p, 10);
		funs[i].n = strtol(p, &p, 10);
		p++;
		funs[i].c = calloc(funs[i].n + 1, sizeof(struct cmd));
		for (int j = 0; j < funs[i].n; j++) {
			struct cmd *c = funs[i].c + j;
			char *e = strchr(p, '\n'), *q = strchr(p, ' ');
			*e = *q = 0;
			snprintf(c->op, sizeof c->op, "%s", p);
			c->i = strtol(q + 1, &q, 10);
			c->s = strdup(q + 1);
			p = e + 1;
		}
	}
	*len -= p - src;
	return p;
}

static int not_dot(const struct dirent *d) { return d->d_name[0] != '.' && strcmp(d->d_name, "dir"); }
static void print_files(void) {
	struct dirent **list;
	int n = scandir(".", &list, not_dot, alphasort);
	for (int i = 0; i < n; i++) {
		FILE *f = fopen(list[i]->d_name, "rb");
		int c;
		printf("\001FILE %s\n", list[i]->d_name);
		while (f && (c = getc(f)) != EOF) putchar(c);
		puts("");
		if (f) fclose(f);
		free(list[i]);
	}
	if (n >= 0) free(list);
}

static int count;       /* of the programs so far */

static int child(char mode, char *src, size_t len) {
	struct YASL_State *S;
	int status;
	struct rlimit rl = { 10, 12 };
	setrlimit(RLIMIT_CPU, &rl);
	if (mode == 'h') { src[len] = 0; src = read_funs(src, &len); }
	if (mode == 'i') {
		/* the interactive tool, with this on its standard input */
		FILE *f = fopen(tmpname, "wb");
		fwrite(src, 1, len, f);
		fclose(f);
		if (!freopen(tmpname, "rb", stdin)) return 3;
		dup2(fileno(stdin), 0);
		execl(tool, tool, (char *)NULL);
		return 3;
	}
	if (mode == 'q' || mode == 'm') {
		/* modules (name and length, text), a line with a dot, and a program that requires them: in a directory of their own */
		char dir[64], name[80];
		snprintf(dir, sizeof dir, "mods.%d.%d", count, (int)getpid());
		if (mkdir(dir, 0700) || chdir(dir) || mkdir("sub", 0700)) return 3;
		static const char *libs[] = { "cval.so", "libctab.so", "libcdup.so", "cdup.so", "cnone.so", "libcthrow.so", "cval.so" };
		for (int i = 0; i < 7; i++) {
			char from[1200], to[80];
			snprintf(from, sizeof from, "%.*s%s", (int)(strlen(tool) - 4), tool, libs[i]);
			snprintf(to, sizeof to, "%s%s", i == 6 ? "sub/" : "", libs[i]);
			if (symlink(from, to)) return 3;
		}
		FILE *junk = fopen("cjunk.so", "wb");
		fputs("not a library\n", junk);
		fclose(junk);
		char *p = src;
		int n;
		size_t l;
		src[len] = 0;
		while (*p != '.' && sscanf(p, "%79s %zu%n", name, &l, &n) == 2) {
			FILE *f = fopen(name, "wb");
			fwrite(p + n + 1, 1, l, f);
			fclose(f);
			p += n + 1 + l + 1;
		}
		len -= p + 2 - src;
		src = p + 2;
		if (mode == 'q') mode = 'l'; else mode = 'b';
	}
	int files = mode == 'w';
	if (files) {
		char dir[64];
		snprintf(dir, sizeof dir, "files.%d.%d", count, (int)getpid());
		if (mkdir(dir, 0700) || chdir(dir) || mkdir("dir", 0700)) return 3;
		FILE *f = fopen("old", "wb");
		fputs("one\ntwo\n\nlast", f);
		fclose(f);
		mode = 'l';
	}
	if (mode == 'r' || mode == 'R') {
		/* inputs: their kind (r: interactive, R: interactive from a file, x: a program, X: from a file, c: a call by the host) and length, and their text */
		S = YASL_newstate_bb("", 0);
		YASLX_decllibs(S);
		YASL_declglobal(S, "g0");
		YASL_pushint(S, 42);
		YASL_setglobal(S, "g0");
		char *p = src, kind;
		int n;
		size_t l;
		src[len] = 0;
		while (sscanf(p, "%c %zu%n", &kind, &l, &n) == 2) {
			p += n + 1;
			if (kind == 'g') {      /* the host sets a global to an int */
				char *q = strchr(p, ' ');
				*q++ = 0;
				YASL_pushint(S, strtoll(q, &q, 10));
				if (YASL_setglobal(S, p)) puts("setglobal failed");
				p += l + 1;
				continue;
			}
			if (kind == 'c') {      /* a call by the host: a global function, and its int arguments */
				char *q = strchr(p, ' ');
				*q++ = 0;
				int e = YASL_loadglobal(S, p), args = 0;
				while (*q != '\n') { YASL_pushint(S, strtoll(q, &q, 10)); args++; if (*q == ' ') q++; }
				int r = YASL_functioncall(S, args);
				if (e || r != 1 || !YASL_isint(S)) printf("(%d %d)\n", e, r);
				else printf("%lld\n", (long long)YASL_popint(S));
				puts("status 0");
				p += l + 1;
				continue;
			}
			char *text = malloc(l + 1);
			memcpy(text, p, l);
			text = realloc(text, l ? l : 1);
			if (kind == 'R' || kind == 'X') {
				FILE *f = fopen(tmpname, "wb");
				fwrite(text, 1, l, f);
				fclose(f);
				YASL_resetstate(S, tmpname);
			} else YASL_resetstate_bb(S, text, l);
			status = kind == 'r' || kind == 'R' ? YASL_execute_REPL(S) : YASL_execute(S);
			free(text);
			printf("status %d\n", status);
			p += l + 1;
		}
		YASL_delstate(S);
		status = 0;
#ifdef __SANITIZE_ADDRESS__
		fflush(stdout);
		if (mode == 'R' && __lsan_do_recoverable_leak_check()) return status + 50;
#endif
		return status;
	}
	char *copy = malloc(len + 1);          /* exactly the size it is: reading over its end is found */
	memcpy(copy, src, len);
	copy = realloc(copy, len ? len : 1);
	if (mode == 'E' || mode == 'e') {
		char opt[3] = { '-', mode, 0 };
		copy = realloc(copy, len + 1);
		copy[len] = 0;
		execl(tool, tool, opt, copy, (char *)NULL);
		return 3;
	}
	if (mode == 'F' || mode == 'C') {
		FILE *f = fopen(tmpname, "wb");
		fwrite(src, 1, len, f);
		fclose(f);
		if (mode == 'F') execl(tool, tool, tmpname, (char *)NULL);
		else execl(tool, tool, "-C", tmpname, (char *)NULL);
		return 3;
	}
	if (mode == 'f') {
		FILE *f = fopen(tmpname, "wb");
		fwrite(src, 1, len, f);
		fclose(f);
		S = YASL_newstate(tmpname);
	} else {
		S = YASL_newstate_bb(copy, len);
	}
	if (!S) return 3;
	YASLX_decllibs(S);
	YASL_declglobal(S, "lit");
	YASL_pushcfunction(S, f_lit, 1);
	YASL_setglobal(S, "lit");
	if (mode == 'h') {
		for (int i = 0; i < MAXF; i++) {
			char name[8];
			snprintf(name, sizeof name, "h%d", i);
			YASL_declglobal(S, name);
			YASL_pushcfunction(S, cfns[i], funs[i].arity);
			YASL_setglobal(S, name);
		}
		YASL_declglobal(S, "g0");
		YASL_pushundef(S);
		YASL_setglobal(S, "g0");
		YASL_declglobal(S, "g1");
		YASL_pushundef(S);
		YASL_setglobal(S, "g1");
	}
	if (mode == 'd' || mode == 'h') {
		YASL_declglobal(S, "obj");
		YASL_pushcfunction(S, f_obj, 0);
		YASL_setglobal(S, "obj");
		YASL_declglobal(S, "id");
		YASL_pushcfunction(S, f_id, 1);
		YASL_setglobal(S, "id");
	}
	if (mode == 's') {
		YASL_setprintout_tostr(S);
		YASL_setprinterr_tostr(S);
	}
	if (mode == 'c') status = YASL_compile(S);
	else status = YASL_execute(S);
	if (mode == 's') {
		YASL_loadprintout(S);
		char *t = YASL_popcstr(S);
		if (t) fputs(t, stdout);
		free(t);
		YASL_loadprinterr(S);
		t = YASL_popcstr(S);
		if (t) fputs(t, stderr);
		free(t);
	}
	YASL_delstate(S);
	free(copy);
	if (files) print_files();
#ifdef __SANITIZE_ADDRESS__
	if (mode == 'l' || mode == 'd' || mode == 'h') {
		for (int i = 0; i < MAXF; i++) { for (int j = 0; j < funs[i].n; j++) free(funs[i].c[j].s); free(funs[i].c); }
		fflush(stdout);
		memset(allobjs, 0, sizeof allobjs);
		if (__lsan_do_recoverable_leak_check()) return status + 50;
	}
#endif
	return status;
}

struct buf { char *p; size_t n, cap; };
static void add(struct buf *b, const char *p, size_t n) {
	if (b->n > (4 << 20)) return;
	if (b->n + n > b->cap) b->p = realloc(b->p, b->cap = 2 * (b->n + n));
	memcpy(b->p + b->n, p, n);
	b->n += n;
}

int main(int argc, char **argv) {
	FILE *in = fopen(argv[1], "rb"), *out = fopen(argv[2], "wb");
	double limit = argc > 3 ? atof(argv[3]) : 10;
	char mode;
	size_t len;
	struct buf o = {0}, e = {0};
	if (!in || !out) return 2;
	snprintf(tmpname, sizeof tmpname, "%s.src", argv[2]);
	snprintf(tool, sizeof tool, "%s", argv[0]);
	char *slash = strrchr(tool, '/');
	if (slash) strcpy(slash + 1, "yasl");
	while (fscanf(in, "%c %zu", &mode, &len) == 2) {
		(void)fgetc(in);        /* and no other space */
		char *src = malloc(len + 1);
		if (fread(src, 1, len, in) != len) return 2;
		(void)fgetc(in);
		int po[2], pe[2];
		count++;
		if (pipe(po) || pipe(pe)) return 2;
		fflush(out);
		pid_t pid = fork();
		if (pid == 0) {
			dup2(po[1], 1);
			dup2(pe[1], 2);
			close(po[0]); close(po[1]); close(pe[0]); close(pe[1]);
			fclose(in);
			close(fileno(out));
			int fd = open("/dev/null", O_RDONLY);
			dup2(fd, 0);
			int s = child(mode, src, len);
			fflush(stdout);
			_exit(s);
		}
		close(po[1]); close(pe[1]);
		o.n = e.n = 0;
		int killed = 0, open_ = 2;
		struct pollfd pf[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
		struct timespec t0, t;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		while (open_) {
			clock_gettime(CLOCK_MONOTONIC, &t);
			double left = limit - (t.tv_sec - t0.tv_sec) - 1e-9 * (t.tv_nsec - t0.tv_nsec);
			if (left <= 0 || o.n > (4 << 20)) { kill(pid, SIGKILL); killed = 1; left = 5; if (o.n > (4 << 20)) break; }
			poll(pf, 2, (int)(left * 1000) + 1);
			for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP))) {
				char b[65536];
				ssize_t n = read(pf[i].fd, b, sizeof b);
				if (n <= 0) { pf[i].fd = -1; open_--; } else add(i ? &e : &o, b, (size_t)n);
			}
			if (killed) break;
		}
		close(po[0]); close(pe[0]);
		int st;
		waitpid(pid, &st, 0);
		int code = killed ? 98 : WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGXCPU ? 98 : 100 + WTERMSIG(st);
		fprintf(out, "%d %zu %zu\n", code, o.n, e.n);
		if (o.n) fwrite(o.p, 1, o.n, out);
		if (e.n) fwrite(e.p, 1, e.n, out);
		fputc('\n', out);
		free(src);
	}
	unlink(tmpname);
	fclose(out);
	return 0;
}
