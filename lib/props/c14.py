"""C14: memory that isn't used any more is reclaimed. Workloads whose live data
doesn't depend on how long they run are executed for different numbers of
rounds; Memory.tla (the sizes of Gc.tla) judges what the process needed."""
import json, os, subprocess
import build, engine
from c13 import design
from engine import Scratch

HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct s { int a; long b; struct s *n; char t[8]; };
struct o { int (*h)(int, int); int k; };
enum e { E1, E2 = 7 };
typedef unsigned long ul;
int g; long gl; struct s gs; struct s *gp; int ga[8]; struct o oo; char *gc; double gd; char gb[100];
int f(int a, int b) { return a + b; }
void v(void) { g++; }
int st(void) { static int x; static int z[10]; z[x & 7] = x; x++; return x; }
int r(int n) { if (n) return r(n - 1) + 1; return 0; }
int early(int x) { while (1) { int y; for (;;) { if (x) { int z = 3; return z; } else return 1; } } return 2; }
struct s *same(struct s *p) { return p; }
char *name(int k) { if (k) return "one"; return "zero"; }
double half(double x) { return x; }
int many(int a, char b, long c, unsigned d, short e, int *p, struct s *q) { int x = a, y = b; long z = c; *p = x + y; q->b = z; return d + e; }
int cmp(const void *a, const void *b) { const int *p = a; const int *q = b; return *p - *q; }
'''
# the body of a loop over i (and the declarations before it)
BODIES = {
    'empty': ';', 'assign': 'g = i;', 'add': 'g = g + i;',
    'arith': 'g = (i * 3 + 4) % 100 ^ 3; gl = (i << 3) >> 1; g = i / 3 % 7 * 2; gl = -i; gl = ~i; g = !i; g = i & 6 | 1;',
    'compare': 'g = i < 3; g = i <= 3; g = i > gl; g = i >= g; g = i == 4; g = i != 4;',
    'logic': 'g = (i && f(i, 1)) || (g | i) >= 3 || g <= i; g = i ? 3 : g;',
    'updates': 'g++; ++g; g--; --g; g += 3; g -= i; g <<= 1; g >>= 1; g ^= 3;',
    'comma': 'g = (i, gl, 3);',
    'decl': 'int x = 3; g = x; long y, *z = &y; *z = x; char c = x; float q; q = x;',
    'decl-only': 'int x;',
    'decl-array': 'int x[100]; x[3] = 2; char y[3][1]; ' if 0 else 'int x[100]; x[3] = 2; char y[7]; y[6] = x[3];',
    'decl-struct': 'struct s x; x.a = 3; x.n = &x; x.n->b = 4; x.t[2] = 1;',
    'decl-local-type': 'struct in { int q; } x; x.q = i; union un { int i; char c; } y; y.i = i; enum { A1, B1 } z; z = B1; typedef int tt; tt w; w = z;',
    'block': '{ int a; { int b; { int c; a = b = c = 3; } } }',
    'call': 'g = f(i, 3);', 'call-void': 'v();', 'call-nested': 'g = f(f(f(1, 2), f(3, 4)), f(i, 1));',
    'call-many': 'int x; g = many(i, i, i, i, i, &x, &gs);',
    'call-early': 'g = early(i & 1);', 'call-static': 'st();', 'recursion': 'g = r(4);',
    'call-ptr-result': 'same(&gs)->a = i; g = same(&gs)->b; gp = same(gp);', 'call-str': 'gc = name(i & 1); g = gc[1];',
    'call-float': 'gd = half(1.5); gd = half(i);',
    'fptr': 'int (*p)(int, int); p = &f; g = p(1, 2);', 'fptr-member': 'oo.h = &f; g = oo.h(1, 2);',
    'pointer': 'int *p = &g; *p = *p + 1; p = ga + 2; p++; --p; g = p - ga; g = p == ga; p = &ga[1]; p[1] = 3; *(p + 2) = 1;',
    'array': 'ga[1] = ga[2] + i; ga[i & 7]++; ga[3] += 2;',
    'member': 'gs.a++; gp = &gs; gp->b = 4; gp->t[1] = gs.a; gs.n = gp; gp->n->n->a = 3;',
    'string': 'char *s = "hello"; g = s[1]; gc = "there";',
    'float': 'double d = 1.5; float x; d = 3.25; x = d; gd = x; if (d) g = 1;',
    'cast': 'g = (char)i + (int)(ul)i; gl = (long)i; gp = (struct s *)&gs; g = (short)gl;',
    'sizeof': 'g = sizeof(struct s) + sizeof(i) + sizeof(int *);',
    'if': 'if (i & 1) g = 4; else g = 3; if (f(i, 0)) { int x = 4; g = x; } else { int y = 5; g = y; }',
    'while': 'int k = 3; while (k) { k--; if (k == 1) break; }',
    'while-call': 'int k = 3; while (f(k, 0)) k = f(k, -1);',
    'for': 'int j; for (j = 0; j < 3; j++) g = f(j, g & 1); for (int m = 0; f(m, 0) < 3; m = f(m, 1)) ;',
    'for-ever': 'for (;;) { if (f(i, 1) || 1) break; }',
    'enum': 'enum e x; x = E2; g = x + E1;',
    'printf': 'printf("%d %s %c %ld\\n", i, "x", 65, gl);', 'printf-float': 'printf("%f\\n", 1.5); float x; x = 2.5; printf("%f\\n", x);',
    'lib': 'g = abs(i); gl = strlen("abc"); g = strcmp("a", "b"); memset(gb, 0, 10); g = atoi("12");',
    'sprintf': 'char b[40]; sprintf(b, "%s %d", "abc", i); g = strlen(b);',
    'malloc': 'char *p = malloc(100); p[3] = 4; p = realloc(p, 200); free(p);',
    'list': 'struct s *l = 0; int k; for (k = 0; k < 3; k++) { struct s *t = malloc(sizeof(struct s)); t->n = l; l = t; } while (l) { struct s *t = l->n; free(l); l = t; }',
    'qsort': 'ga[0] = 5; ga[1] = i; ga[2] = 3; qsort(ga, 3, sizeof(int), &cmp);',
    'static-array': 'static int sa[10]; sa[i & 7] = i; static char *sc; sc = "x"; static struct s ss; ss.a = i;',
}
# complete programs
WHOLE = {
    'unbraced': 'int main(void) { int i; for (i = 0; i < NNN; i++) g = f(i, 3); return 0; }',
    'condition': 'int main(void) { int i; i = NNN; while (f(i, 0)) i--; return 0; }',
    'step': 'int main(void) { int i; for (i = 0; f(i, 0) < NNN; i = f(i, 1)) ; return 0; }',
    'no-loop-body': 'int main(void) { int i = NNN; while (i-- > 0) ; return 0; }',
    'top-level': 'int i; for (i = 0; i < NNN; i++) { int x = f(i, 2); int *p = &x; g += *p; }',
    'top-level-while': 'int i = NNN; while (f(i, -1) > 0) { i--; v(); }',
    'after-recursion': 'int main(void) { int i; g = r(150); for (i = 0; i < NNN; i++) { int x = i; g = f(x, 1); } return 0; }',
    'in-function': 'int work(int n) { int i; for (i = 0; i < n; i++) { struct s x; x.a = i; g = x.a; } return 0; } int main(void) { return work(NNN); }',
    'in-callback': 'int all(const void *p, const void *q) { int i; for (i = 0; i < NNN; i++) { int x = i; g = f(x, 1); } return 0; } int main(void) { ga[0] = 1; qsort(ga, 2, sizeof(int), &all); return 0; }',
    'many-callbacks': 'int hit(const void *p, const void *q) { int x = 4; g = f(x, 1); return 1; } int main(void) { char *p = malloc(NNN); bsearch_all(p); return 0; }',
    'alloca': None,
    'through-pointer': 'int main(void) { int i; int (*p)(int, int); p = &f; for (i = 0; i < NNN; i++) g = p(i, 1); return 0; }',
}
ALLOCA = '''int printf(const char *, ...);
void *alloca(unsigned long);
int al(int n) { int *p; int k; p = 0; for (k = 0; k < 2; k++) { p = alloca(60); p[3] = n; } return p[3]; }
int main(void) { int i, g; for (i = 0; i < NNN; i++) { g = al(i); } return 0; }
'''
EACH = '''int each(int n, int (*f)(const void *, const void *));
long keep;
int each(int n, int (*f)(const void *, const void *)) { for (int i = 0; i < n; i++) keep += f(&i, &n); return 0; }
'''


def programs():
    P = {}
    for k, body in BODIES.items():
        P[k] = HEAD + 'int main(void)\n{\n    int i;\n    for (i = 0; i < NNN; i++) { %s }\n    return 0;\n}\n' % body
    for k, text in WHOLE.items():
        if k == 'alloca':
            P[k] = ALLOCA
        elif k == 'many-callbacks':
            P[k] = HEAD + 'int each(int n, int (*f)(const void *, const void *));\nint hit(const void *p, const void *q) { int x = 4; g = f(x, 1); return 1; }\nint main(void) { each(NNN, &hit); return 0; }\n'
        else:
            P[k] = HEAD + text + '\n'
    return P


def run(c):
    c.assumptions.append('the memory of a process is what getrusage() reports; the allowance is %s bytes per round' % ('20 to 40' if c.quick else '4 to 10'))
    c.assumptions.append('the collections are recorded by a hook (BIC_VERIF_GC_LOG)')
    design(c)
    P = programs()
    hooks = build.hooks(c.bic)
    with Scratch() as sc:
        sc.write('rss.c', open(os.path.join(build.VERIF, 'lib', 'native', 'rss.c')).read())
        build.run(['gcc', '-O1', '-o', sc.path('rss'), sc.path('rss.c')], sc.dir)
        sc.write('each.c', EACH)
        build.run(['gcc', '-O1', '-shared', '-fPIC', '-o', sc.path('each.so'), sc.path('each.c')], sc.dir)
        # how many rounds take a reasonable time?
        base = 1500

        def once(name, rounds, tag):
            src = sc.write('%s-%s.c' % (name, tag), P[name].replace('NNN', str(rounds)))
            log, out = sc.path('%s-%s.log' % (name, tag)), sc.path('%s-%s.rss' % (name, tag))
            t0 = __import__('time').time()
            res = engine.run([sc.path('rss'), out, c.bic] + (['-l', sc.path('each.so')] if 'each(' in P[name] else []) + ['-s', src], sc, timeout=200,
                             env={'BIC_VERIF_GC_LOG': log})
            t = __import__('time').time() - t0
            c.runs += 1
            if res.rc == 2000:
                raise engine.ModelError('%s takes too long' % name)
            coll = []
            if hooks and os.path.exists(log):
                coll = [json.loads(x) for x in open(log)]
                coll = [[x['before'], x['live']] for x in coll]
            for f in (log, src):
                if os.path.exists(f):
                    os.remove(f)
            return {'rounds': rounds, 'rss': int(open(out).read()), 'collections': coll, 'rc': res.rc}, t, res

        def workload(name):
            runs = []
            a, t, res = once(name, base, 'a')
            if res.rc != 0:
                return name, None, res
            # up to about 1.5 (thorough: 25) seconds
            per = max(t - .03, .004) / base
            more = min(22000 if c.quick else 200000, max(12000 if c.quick else 60000, int((1.2 if c.quick else 20) / per)))
            b, _, res = once(name, more, 'b')
            return name, {'id': name, 'runs': [a, b], 'allowance': 480 if c.quick else 640}, res

        def judge(cases):
            f = sc.write('cases.json', json.dumps(cases))
            rc, printed, st, text = engine.tlc('Memory', 'INIT Init\nNEXT Next\nINVARIANT Verdict\nINVARIANT Bounded\nCHECK_DEADLOCK FALSE\n', {'CASES': f}, workers=4, short=c.quick)
            if rc:
                raise engine.ModelError(text[-2000:])
            c.states += st[1]
            c.transitions += st[0]
            return {v[0]: v[1:] for v in printed['VERDICT']}

        res = engine.parallel(workload, list(P))
        cases = [w for _, w, _ in res if w]
        for name, w, r in res:
            if w is None:           # other checks are about what programs do
                c.undef['exit status'] = c.undef.get('exit status', 0) + 1
                c.undecided.append('%s: exit status %d: %s' % (name, r.rc, r.err[:200]))
        v = judge(cases) if cases else {}
        c.extra['workloads'] = {w['id']: {'rounds': [x['rounds'] for x in w['runs']], 'kB': [x['rss'] for x in w['runs']], 'collections': [len(x['collections']) for x in w['runs']],
                                          'live objects at the end': [x['collections'][-1][1] if x['collections'] else None for x in w['runs']]} for w in cases}
        for w in cases:
            why = v[w['id']][0]
            c.events += sum(len(x['collections']) + 1 for x in w['runs'])
            if why == 'accept':
                c.traces += 1
                if len(c.samples) < 2:
                    c.samples.append({'workload': P[w['id']][len(HEAD):], 'runs': [{**x, 'collections': x['collections'][:4]} for x in w['runs']]})
                continue
            # once more, alone
            for _ in range(2):
                _, w2, r = workload(w['id'])
                if w2 is None:
                    break
                why = judge([w2])[w['id']][0]
                if why == 'accept':
                    break
            else:
                c.violation(w['id'], {'program.c': P[w['id']], 'runs.json': json.dumps(w2)},
                            '%s: %s: %s' % (w['id'], why, ', '.join('%d rounds: %d kB, %s objects live at the end' % (
                                x['rounds'], x['rss'], x['collections'][-1][1] if x['collections'] else '?') for x in w2['runs'])))
                if c.enough():
                    break
