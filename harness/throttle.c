/* li_throttle_* under a virtual clock; one script per line, ops separated by ';':
 *  S MS            start of the clock (milliseconds, before anything else)
 *  W N             workers
 *  P RATE BURST    pool
 *  C WRK RATE BURST POOLMASK   connection (RATE 0: no limit of its own)
 *  Q C WANT PCT    one query, PCT percent of what is granted gets used
 *  H C WANT        from now on the connection asks whenever it may, and uses everything; WANT 0: stop
 *  T MS            time passes (timers run)
 *  B MS            the clock is set back
 *  X C             connection closed
 * output: [["q",c,t,want,got,used],["n",c,t],["x",c,t],["b",ms,t], ...] */
#include <lighttpd/base.h>
#include <lighttpd/throttle.h>
#include <sys/wait.h>
static FILE *o;
static guint64 base, vt;   /* virtual milliseconds */
static gint64 off;         /* how much the clock was set back */
ev_tstamp ev_now(struct ev_loop *l) { return (ev_tstamp) (gint64) (base + vt - off) / 1000.0; }
ev_tstamp ev_time(void) { return ev_now(NULL); }
#define N 16
static liWorker wrk[8];
static liServer *srv;
static liThrottlePool *pools[N];
static int npools, nconns;
static struct { liThrottleState *s; int w, want, blocked, alive; } con[N];
static int first = 1;
static void ev(const char *op) { fprintf(o, "%s[\"%s\"", first ? "" : ",", op); first = 0; }
static void notify(liThrottleState *s, gpointer d) {
	int c = GPOINTER_TO_INT(d) - 1;
	con[c].blocked = 0;
	ev("n"); fprintf(o, ",%d,%d]", c, (int) vt);
}
static guint query(int c, guint want, int pct) {
	guint got = li_throttle_query(&wrk[con[c].w], con[c].s, want, notify, GINT_TO_POINTER(c + 1)), used = (guint64) got * pct / 100;
	if (got > want) used = got;
	li_throttle_update(con[c].s, used);
	con[c].blocked = 0 == got;
	ev("q"); fprintf(o, ",%d,%d,%u,%u,%u]", c, (int) vt, want, got, used);
	return got;
}
static void hungry(void) {
	int c, k;
	for (c = 0; c < nconns; c++) if (con[c].alive && con[c].want && !con[c].blocked) for (k = 0; k < 3 && query(c, con[c].want, 100); k++) ;
}
static void pass(int ms) {
	int w;
	for (; ms > 0; ms -= 10) {
		vt += 10;
		for (w = 0; w < srv->worker_count; w++) if (li_event_active(&wrk[w].throttle_queue.timer)) {
			li_throttle_waitqueue_cb(&wrk[w].throttle_queue, &wrk[w]);
		}
		hungry();
	}
}
static void run(char *line) {
	char *save = NULL, *tok;
	int i;
	alarm(60);
	srv = g_malloc0(sizeof(*srv));
	g_atomic_int_set((gint*) &srv->state, LI_SERVER_RUNNING);
	fputc('[', o);
	for (tok = strtok_r(line, ";", &save); tok; tok = strtok_r(NULL, ";", &save)) {
		long long a = 0, b = 0, c = 0, d = 0;
		sscanf(tok + 1, "%lld %lld %lld %lld", &a, &b, &c, &d);
		switch (tok[0]) {
		case 'S': base = a; break;
		case 'W': srv->worker_count = a;
			for (i = 0; i < a; i++) {
				wrk[i].srv = srv; wrk[i].ndx = i;
				li_event_loop_init(&wrk[i].loop, ev_loop_new(0));
				li_waitqueue_init(&wrk[i].throttle_queue, &wrk[i].loop, "throttle queue", li_throttle_waitqueue_cb, ((gdouble)LI_THROTTLE_GRANULARITY) / 1000, &wrk[i]);
			}
			break;
		case 'P': pools[npools++] = li_throttle_pool_new(srv, a, b); break;
		case 'C': con[nconns].s = li_throttle_new(); con[nconns].w = a; con[nconns].alive = 1;
			if (b) li_throttle_set(&wrk[a], con[nconns].s, b, c);
			for (i = 0; i < npools; i++) if (d & (1 << i)) { li_throttle_add_pool(&wrk[a], con[nconns].s, pools[i]); if (d & 256) li_throttle_add_pool(&wrk[a], con[nconns].s, pools[i]); }
			nconns++;
			ev("c"); fprintf(o, ",%d,%d]", nconns - 1, (int) vt);
			break;
		case 'Q': if (con[a].alive) query(a, b, c); break;
		case 'H': con[a].want = b; if (con[a].alive && b && !con[a].blocked) query(a, b, 100); break;
		case 'T': pass(a); break;
		case 'B': off += a; ev("b"); fprintf(o, ",%d,%d]", (int) a, (int) vt); break;
		case 'X': if (con[a].alive) { li_throttle_free(&wrk[con[a].w], con[a].s); con[a].alive = 0; ev("x"); fprintf(o, ",%lld,%d]", a, (int) vt); } break;
		}
	}
	for (i = 0; i < nconns; i++) if (con[i].alive) li_throttle_free(&wrk[con[i].w], con[i].s);
	for (i = 0; i < npools; i++) li_throttle_pool_release(pools[i], srv);
	fputs("]\n", o); fflush(o);
}
int main(void) {
	char *line = NULL; size_t cap = 0;
	o = stdout;
	while (getline(&line, &cap, stdin) > 0) {
		pid_t p;
		fflush(o);
		p = fork();
		if (0 == p) { run(line); _exit(0); } else { int st; waitpid(p, &st, 0); if (st) { fprintf(o, "\ncrash %x\n", st); fflush(o); return 0; } }
	}
	return 0;
}
