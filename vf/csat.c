/* A small clause-learning solver: IPASIR library (-shared) and DIMACS program (-DPROGRAM).
   Stand-in for the external solvers that users plug in. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>

typedef struct { int n, cap; int *d; } Vec;
static void push(Vec *v, int x) { if (v->n == v->cap) { v->cap = v->cap ? 2 * v->cap : 4; v->d = realloc(v->d, sizeof(int) * v->cap); } v->d[v->n++] = x; }

typedef struct {
    int nv, capv;
    Vec mem;            /* clauses: length, literals */
    Vec cur, assume, trail, lim;
    Vec *watch;         /* per literal index */
    signed char *val;   /* per variable: 0, 1, -1 */
    signed char *phase, *model, *seen, *free_;
    Vec failed;
    int *level, *reason;
    double *act, inc;
    int unsat, qhead, state;
    void *term_data; int (*term)(void *);
    void *learn_data; int learn_max; void (*learn)(void *, int32_t *);
} S;

static int idx(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
static int value(S *s, int l) { int v = s->val[abs(l)]; return l > 0 ? v : -v; }

static void grow(S *s, int v) {
    if (v <= s->nv) return;
    if (v >= s->capv) {
        int c = s->capv, n = v + 64 > 2 * c ? v + 64 : 2 * c;
        s->watch = realloc(s->watch, sizeof(Vec) * (2 * n + 2)); memset(s->watch + (c ? 2 * c + 2 : 0), 0, sizeof(Vec) * ((2 * n + 2) - (c ? 2 * c + 2 : 0)));
#define G(p) s->p = realloc(s->p, sizeof(*s->p) * (n + 1)); memset(s->p + (c ? c + 1 : 0), 0, sizeof(*s->p) * (n + 1 - (c ? c + 1 : 0)));
        G(val) G(phase) G(model) G(seen) G(free_) G(level) G(reason) G(act)
        s->capv = n;
    }
    for (int i = s->nv + 1; i <= v; i++) s->phase[i] = -1;
    s->nv = v;
}

static void enqueue(S *s, int l, int why) {
    int v = abs(l);
    s->val[v] = l > 0 ? 1 : -1; s->level[v] = s->lim.n; s->reason[v] = why; push(&s->trail, l);
}

static void backtrack(S *s, int lev) {
    if (s->lim.n <= lev) return;
    int to = s->lim.d[lev];
    while (s->trail.n > to) { int v = abs(s->trail.d[--s->trail.n]); s->phase[v] = s->val[v]; s->val[v] = 0; }
    s->lim.n = lev; s->qhead = to;
}

static int attach(S *s, int *l, int n) {
    int c = s->mem.n; push(&s->mem, n);
    for (int i = 0; i < n; i++) push(&s->mem, l[i]);
    push(&s->watch[idx(l[0])], c); push(&s->watch[idx(l[1])], c);
    return c;
}

static int propagate(S *s) {
    while (s->qhead < s->trail.n) {
        int p = -s->trail.d[s->qhead++];
        Vec *w = &s->watch[idx(p)];
        int i = 0, j = 0;
        while (i < w->n) {
            int c = w->d[i++], *cl = s->mem.d + c + 1, n = s->mem.d[c];
            if (cl[0] == p) { cl[0] = cl[1]; cl[1] = p; }
            if (value(s, cl[0]) > 0) { w->d[j++] = c; continue; }
            int k;
            for (k = 2; k < n; k++) if (value(s, cl[k]) >= 0) break;
            if (k < n) { cl[1] = cl[k]; cl[k] = p; push(&s->watch[idx(cl[1])], c); continue; }
            w->d[j++] = c;
            if (value(s, cl[0]) < 0) { while (i < w->n) w->d[j++] = w->d[i++]; w->n = j; return c; }
            enqueue(s, cl[0], c);
        }
        w->n = j;
    }
    return -1;
}

const char *ipasir_signature(void) { return "csat"; }
static void *live[4096]; static int nlive;
static S *check(void *p) { for (int i = 0; i < nlive; i++) if (live[i] == p) return p; abort(); }   /* use after release */
void *ipasir_init(void) { S *s = calloc(1, sizeof(S)); s->inc = 1; grow(s, 1); if (nlive == 4096) abort(); return live[nlive++] = s; }
void ipasir_release(void *p) {
    S *s = check(p);
    for (int i = 0; i < nlive; i++) if (live[i] == p) { live[i] = live[--nlive]; break; }
    for (int i = 0; i < 2 * s->capv + 2; i++) free(s->watch[i].d);
    free(s->watch); free(s->val); free(s->phase); free(s->model); free(s->seen); free(s->free_); free(s->failed.d); free(s->level); free(s->reason); free(s->act);
    free(s->mem.d); free(s->cur.d); free(s->assume.d); free(s->trail.d); free(s->lim.d); free(s);
}

void ipasir_add(void *p, int32_t l) {
    S *s = check(p);
    backtrack(s, 0); s->state = 0;
    if (l) { grow(s, abs(l)); push(&s->cur, l); return; }
    int n = 0, taut = 0;
    for (int i = 0; i < s->cur.n; i++) {
        int a = s->cur.d[i], dup = 0;
        for (int k = 0; k < n; k++) { if (s->cur.d[k] == a) dup = 1; if (s->cur.d[k] == -a) taut = 1; }
        if (value(s, a) > 0) taut = 1;
        if (!dup && value(s, a) >= 0) s->cur.d[n++] = a;
    }
    s->cur.n = 0;
    if (taut) return;
    if (n == 0) s->unsat = 1;
    else if (n == 1) { enqueue(s, s->cur.d[0], -1); if (propagate(s) >= 0) s->unsat = 1; }
    else attach(s, s->cur.d, n);
}

void ipasir_assume(void *p, int32_t l) { S *s = check(p); grow(s, abs(l)); push(&s->assume, l); s->state = 0; }

static void bump(S *s, int v) { if ((s->act[v] += s->inc) > 1e100) { for (int i = 1; i <= s->nv; i++) s->act[i] *= 1e-100; s->inc *= 1e-100; } }

static int analyze(S *s, int c, Vec *out) {
    int cnt = 0, p = 0, i = s->trail.n - 1, bt = 0;
    out->n = 0; push(out, 0);
    do {
        int *cl = s->mem.d + c + 1, n = s->mem.d[c];
        for (int k = 0; k < n; k++) {
            int v = abs(cl[k]);
            if (cl[k] == p || s->seen[v] || s->level[v] == 0) continue;
            s->seen[v] = 1; bump(s, v);
            if (s->level[v] == s->lim.n) cnt++; else push(out, cl[k]);
        }
        while (!s->seen[abs(s->trail.d[i])]) i--;
        p = s->trail.d[i--]; c = s->reason[abs(p)]; s->seen[abs(p)] = 0; cnt--;
    } while (cnt > 0);
    out->d[0] = -p;
    for (int k = 1; k < out->n; k++) s->seen[abs(out->d[k])] = 0;
    for (int k = 1, m = 1; k < out->n; k++) if (s->level[abs(out->d[k])] > bt) { bt = s->level[abs(out->d[k])]; m = k; int t = out->d[1]; out->d[1] = out->d[m]; out->d[m] = t; }
    return bt;
}

static int give_up(int res) {
    static int calls = 0;
    const char *v = getenv("CSAT_GIVE_UP"), *after = getenv("CSAT_GIVE_UP_AFTER");
    if (!v) { calls = 0; return res; }
    return calls++ >= (after ? atoi(after) : 0) ? atoi(v) : res;
}

/* variables whose value does not matter, given the model (any values for all of them at once) */
static void free_variables(S *s) {
    memset(s->free_, 0, s->nv + 1);
    for (int v = 1; v <= s->nv; v++) {
        if (s->val[v] && s->level[v] == 0) continue;
        int ok = 1;
        for (int c = 0; c < s->mem.n && ok; c += s->mem.d[c] + 1) {
            int mine = 0, other = 0;
            for (int k = 1; k <= s->mem.d[c]; k++) {
                int l = s->mem.d[c + k];
                if (abs(l) == v) mine = 1;
                else if (value(s, l) > 0 && !s->free_[abs(l)]) other = 1;
            }
            if (mine && !other) ok = 0;
        }
        s->free_[v] = ok;
    }
}

int ipasir_solve(void *p) {
    S *s = check(p);
    Vec out = {0};
    int res = 0, conflicts = 0;
    backtrack(s, 0);
    s->failed.n = 0;
    if (s->unsat) res = 20;
    if (!res && s->term && s->term(s->term_data)) { s->assume.n = 0; s->state = 0; return 0; }
    while (!res) {
        int c = propagate(s);
        if (c >= 0) {
            if (s->lim.n == 0) { s->unsat = 1; res = 20; break; }
            int bt = analyze(s, c, &out);
            if (s->learn && out.n <= s->learn_max) { int32_t *b = malloc(sizeof(int32_t) * (out.n + 1)); for (int i = 0; i < out.n; i++) b[i] = out.d[i]; b[out.n] = 0; s->learn(s->learn_data, b); free(b); }
            backtrack(s, bt);
            enqueue(s, out.d[0], out.n == 1 ? -1 : attach(s, out.d, out.n));
            s->inc *= 1.05;
            if (++conflicts % 200 == 0) { backtrack(s, 0); if (s->term && s->term(s->term_data)) break; }
            continue;
        }
        int next = 0;
        while (s->lim.n < s->assume.n) {
            int a = s->assume.d[s->lim.n], v = value(s, a);
            if (v < 0) { res = 20; for (int k = 0; k <= s->lim.n; k++) push(&s->failed, s->assume.d[k]); break; }
            push(&s->lim, s->trail.n);
            if (v == 0) { next = a; break; }
        }
        if (res) break;
        if (!next) {
            int b = 0;
            for (int v = 1; v <= s->nv; v++) if (!s->val[v] && (!b || s->act[v] > s->act[b])) b = v;
            if (!b) { res = 10; break; }
            next = s->phase[b] > 0 ? b : -b;
            push(&s->lim, s->trail.n);
        }
        enqueue(s, next, -1);
    }
    if (res == 10) { memcpy(s->model, s->val, s->nv + 1); if (getenv("CSAT_DONT_CARE")) free_variables(s); else memset(s->free_, 0, s->nv + 1); }
    backtrack(s, 0); s->assume.n = 0; s->state = res; free(out.d);
    return give_up(res);
}

int32_t ipasir_val(void *p, int32_t l) {
    S *s = check(p); int v = abs(l);
    if (v > s->nv || s->free_[v]) return 0;
    return (s->model[v] > 0) == (l > 0) ? l : -l;
}
int ipasir_failed(void *p, int32_t l) { S *s = check(p); for (int i = 0; i < s->failed.n; i++) if (s->failed.d[i] == l) return 1; return 0; }
void ipasir_set_terminate(void *p, void *d, int (*f)(void *)) { S *s = check(p); s->term_data = d; s->term = f; }
void ipasir_set_learn(void *p, void *d, int max, void (*f)(void *, int32_t *)) { S *s = check(p); s->learn_data = d; s->learn_max = max; s->learn = f; }

#ifdef PROGRAM
/* csat STYLE [FILE]: STYLE is a number selecting the form of the output, or the name of a fault */
int main(int argc, char **argv) {
    const char *style = argc > 1 ? argv[1] : "0";
    if (!strncmp(style, "later:", 6)) {       /* later:FILE:N:FAULT - N good runs (counted in FILE), then FAULT */
        char *path = strdup(style + 6), *n = strchr(path, ':'), *fault;
        *n++ = 0; fault = strchr(n, ':'); *fault++ = 0;
        FILE *c = fopen(path, "a"); fputc('x', c); long calls = ftell(c); fclose(c);
        style = calls > atoi(n) ? fault : "0";
    }
    if (!strcmp(style, "noread")) return 1;
    FILE *f = argc > 2 ? fopen(argv[2], "r") : stdin;
    if (!f) return 3;
    S *s = ipasir_init();
    int nv = 0, nc = 0, head = 0, clauses = 0;
    int ch;
    while ((ch = fgetc(f)) != EOF) {
        if (ch == 'c') { while ((ch = fgetc(f)) != EOF && ch != '\n'); }
        else if (ch == 'p') { if (fscanf(f, " cnf %d %d", &nv, &nc) != 2) return 4; head = 1; grow(s, nv); }
        else if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r') continue;
        else { ungetc(ch, f); int l; if (fscanf(f, "%d", &l) != 1) return 5; ipasir_add(s, l); if (!l) clauses++; }
    }
    if (!head || clauses != nc) return 6;     /* an incomplete formula */
    if (!strcmp(style, "mute")) return 0;
    if (!strcmp(style, "die")) { printf("c about to crash\n"); fflush(stdout); raise(SIGKILL); }
    if (!strcmp(style, "comments")) { printf("c nothing\nc more\n"); return 1; }
    if (!strcmp(style, "unknown")) { printf("c gave up\ns UNKNOWN\n"); return 0; }
    if (!strcmp(style, "indeterminate")) { printf("s INDETERMINATE\n"); return 0; }
    int r = ipasir_solve(s);
    if (!strcmp(style, "status")) { printf("c no status line\n"); return r == 20 ? 10 : 20; }
    if (!strcmp(style, "nomodel")) { printf("s SATISFIABLE\n"); return 10; }
    if (!strcmp(style, "junk")) { printf("s SATISFIABLE\nhello world\n"); return 10; }
    if (!strcmp(style, "words")) { printf("s SATISFIABLE\nv 1 two 3 0\n"); return 10; }
    if (!strcmp(style, "half")) { printf("s SATISFIABLE\nv"); for (int v = 1; v <= 2 && v < s->nv; v++) printf(" %d", v); printf("\n"); fflush(stdout); raise(SIGKILL); }
    int st = atoi(style);
    if (st & 1) printf("c csat\nc a comment that mentions s SATISFIABLE\nc\n");
    if (r == 20) { printf("s UNSATISFIABLE\n"); return st & 8 ? 0 : 20; }
    printf("s SATISFIABLE\n");
    int per = st & 2 ? 5 : 1 << 30, k = 0;
    if (st & 4) printf("c between\n");
    printf("v");
    for (int v = 1; v <= s->nv; v++) {
        if (k == per) { printf("\n"); if (st & 4) printf("c between\n"); printf("v"); k = 0; }
        printf(" %d", s->model[v] > 0 ? v : -v); k++;
    }
    if (st & 16) printf("\nv");
    printf(" 0\n");
    if (st & 1) printf("c done\n");
    return st & 8 ? 0 : 10;
}
#endif
