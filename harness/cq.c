/* drives the chunkqueue / network buffer API with scripts; prints what can be observed after every call.
 * stdin: one script per line:  U;op a b c;op a b c;...     stdout: one JSON list per script
 * every unit is U identical bytes; the value of the n-th appended unit is n%250+1 */
#include <lighttpd/base.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <dirent.h>

#define NQ 3
#define NL 2
static liChunkQueue *q[NQ+1];
static liCQLimit *lim[NL+1];
static int note[NL+1];
static long U, ctr;
static char *dir;
static int tmpn;
static FILE *o;
static int sv[2] = { -1, -1 };
static int failed;

static void notify_cb(gpointer ctx, gboolean locked) { note[GPOINTER_TO_INT(ctx)] = locked ? 1 : 0; }

static char* gen(long n) { /* n units */
	char *b = g_malloc(n * U + 1);
	long i;
	for (i = 0; i < n; i++) { memset(b + i * U, (int)(ctr % 250 + 1), U); ctr++; }
	b[n*U] = 0;
	return b;
}
static void units(const char *b, goffset len) { /* print as unit list, -1 marks torn units */
	goffset i, j;
	fputc('[', o);
	for (i = 0; i < len; i += U) {
		int v = (unsigned char) b[i];
		for (j = i; j < i + U; j++) if (j >= len || (unsigned char) b[j] != v) { v = -1; break; }
		fprintf(o, "%s%d", i ? "," : "", v);
	}
	fputc(']', o);
}
static void num(goffset v) { if (v % U) fprintf(o, "-777"); else fprintf(o, "%ld", (long)(v / U)); }

static int tempfiles(void) {
	int n = 0; struct dirent *e; DIR *d = opendir(dir);
	while (NULL != (e = readdir(d))) if (0 == strncmp(e->d_name, "tmp", 3)) n++;
	closedir(d);
	return n;
}
static int openfds(void) {
	int n = 0; DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static void content(liChunkQueue *cq) {
	GString *s = g_string_new("");
	liChunkIter ci = li_chunkqueue_iter(cq);
	for (; li_chunkiter_chunk(ci); ) {
		goffset off = 0, l = li_chunkiter_length(ci);
		while (off < l) {
			char *b; off_t n; GError *err = NULL;
			liHandlerResult r = (ctr & 1) ? li_chunkiter_read(ci, off, l - off, &b, &n, &err) : li_chunkiter_read_mmap(ci, off, l - off, &b, &n, &err);
			if (LI_HANDLER_GO_ON != r || n <= 0) { failed = 1; break; }
			g_string_append_len(s, b, n);
			off += n;
		}
		if (failed) break;
		if (!li_chunkiter_next(&ci)) break;
	}
	units(s->str, s->len);
	g_string_free(s, TRUE);
}
static void state(void) {
	int i;
	fprintf(o, "\"q\":[");
	for (i = 1; i <= NQ; i++) {
		fprintf(o, "%s{\"c\":", i > 1 ? "," : ""); content(q[i]);
		fprintf(o, ",\"len\":"); num(q[i]->length);
		fprintf(o, ",\"in\":"); num(q[i]->bytes_in);
		fprintf(o, ",\"out\":"); num(q[i]->bytes_out);
		fprintf(o, ",\"mem\":"); num(q[i]->mem_usage);
		fprintf(o, ",\"cl\":%d,\"lim\":[", q[i]->is_closed ? 1 : 0);
		if (q[i]->limit) {
			num(q[i]->limit->current); fprintf(o, ",%d,", q[i]->limit->locked ? 1 : 0);
			fprintf(o, "%ld,", q[i]->limit->limit < 0 ? -1L : (long)(q[i]->limit->limit / U));
			{ goffset a = li_chunkqueue_limit_available(q[i]); if (a < 0) fprintf(o, "-1"); else num(a); }
		}
		fprintf(o, "]}");
	}
	fprintf(o, "],\"note\":[%d,%d],\"lk\":[%d,%d],\"tmp\":%d,\"bad\":%d", note[1], note[2], lim[1]->locked ? 1 : 0, lim[2]->locked ? 1 : 0, tempfiles(), failed);
}

static void run(char *line) {
	char *tok, *save = NULL;
	int i, fds0;
	signal(SIGPIPE, SIG_IGN);
	alarm(20);
	tok = strtok_r(line, ";", &save);
	U = atol(tok); ctr = 0;
	socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
	fcntl(sv[0], F_SETFL, O_NONBLOCK); fcntl(sv[1], F_SETFL, O_NONBLOCK);
	for (i = 1; i <= NL; i++) { lim[i] = li_cqlimit_new(); lim[i]->notify = notify_cb; lim[i]->context = GINT_TO_POINTER(i); note[i] = 0; }
	for (i = 1; i <= NQ; i++) q[i] = li_chunkqueue_new();
	fds0 = openfds();
	fputc('[', o);
	for (i = 0; NULL != (tok = strtok_r(NULL, ";", &save)); i++) {
		char op[16]; long a = 0, b = 0, c = 0, ret = 0;
		char *d; GError *err = NULL;
		GString *xs = NULL;
		sscanf(tok, "%15s %ld %ld %ld", op, &a, &b, &c);
		fprintf(o, "%s{\"op\":\"%s\",\"a\":%ld,\"b\":%ld,\"c\":%ld,", i ? "," : "", op, a, b, c);
		fflush(o);
		if (!strcmp(op, "as")) { d = gen(b); li_chunkqueue_append_string(q[a], g_string_new_len(d, b * U)); g_free(d); }
		else if (!strcmp(op, "ab")) { GByteArray *ba = g_byte_array_new(); d = gen(b); g_byte_array_append(ba, (guint8*) d, b * U); g_free(d); li_chunkqueue_append_bytearr(q[a], ba); }
		else if (!strcmp(op, "am")) { d = gen(b); li_chunkqueue_append_mem(q[a], d, b * U); g_free(d); }
		else if (!strcmp(op, "au")) { liBuffer *bf = (ctr & 1) ? li_buffer_new(b * U + 8 * U) : li_buffer_new_slice(b * U + 8 * U); d = gen(b); memcpy(bf->addr, d, b * U); bf->used = b * U; g_free(d); li_chunkqueue_append_buffer(q[a], bf); }
		else if (!strcmp(op, "av")) { liBuffer *bf = li_buffer_new((b + 8) * U); d = gen(b); memset(bf->addr, 255, (b + 8) * U); memcpy(bf->addr + U, d, b * U); bf->used = (b + 2) * U; g_free(d); li_chunkqueue_append_buffer2(q[a], bf, U, b * U); }
		else if (!strcmp(op, "aw")) { /* one buffer shared by two queue entries: b units to queue a, c units to queue a%NQ+1 */
			liBuffer *bf = li_buffer_new((b + c) * U); d = gen(b + c); memcpy(bf->addr, d, (b + c) * U); bf->used = (b + c) * U; g_free(d);
			li_buffer_acquire(bf); li_chunkqueue_append_buffer2(q[a], bf, 0, b * U); li_chunkqueue_append_buffer2(q[a % NQ + 1], bf, b * U, c * U); }
		else if (op[0] == 'f') { /* file kinds: fc chunkfile, fn file by name, fd file fd, ft tempfile by name, fx tempfile fd */
			char path[300]; int fd; GString *name;
			snprintf(path, sizeof(path), "%s/%s%d", dir, (op[1] == 't' || op[1] == 'x') ? "tmp" : "file", tmpn++);
			d = gen(b);
			fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
			if (write(fd, d, U) < 0 || pwrite(fd, d, b * U, U) < 0) failed = 1; /* one foreign unit in front: data starts at offset U */
			g_free(d);
			name = g_string_new(path);
			switch (op[1]) {
			case 'c': { liChunkFile *cf = li_chunkfile_new(NULL, fd, FALSE); li_chunkqueue_append_chunkfile(q[a], cf, U, b * U); li_chunkfile_release(cf); unlink(path); g_string_free(name, TRUE); break; }
			case 'n': close(fd); li_chunkqueue_append_file(q[a], name, U, b * U); break;
			case 'd': li_chunkqueue_append_file_fd(q[a], name, U, b * U, fd); break;
			case 't': if (b) { close(fd); li_chunkqueue_append_tempfile(q[a], name, U, b * U); } else { li_chunkqueue_append_tempfile_fd(q[a], name, U, 0, fd); } break;
			case 'x': li_chunkqueue_append_tempfile_fd(q[a], name, U, b * U, fd); break;
			}
		}
		else if (!strcmp(op, "sl")) ret = li_chunkqueue_steal_len(q[a], q[b], c * U);
		else if (!strcmp(op, "sa")) ret = li_chunkqueue_steal_all(q[a], q[b]);
		else if (!strcmp(op, "sc")) ret = li_chunkqueue_steal_chunk(q[a], q[b]);
		else if (!strcmp(op, "sk")) ret = li_chunkqueue_skip(q[a], b * U);
		else if (!strcmp(op, "sz")) ret = li_chunkqueue_skip_all(q[a]);
		else if (!strcmp(op, "xs")) { xs = g_string_new("old"); ret = U * li_chunkqueue_extract_to(q[a], b * U, xs, &err); }
		else if (!strcmp(op, "xb")) { GByteArray *ba = g_byte_array_new(); ret = U * li_chunkqueue_extract_to_bytearr(q[a], b * U, ba, &err); xs = g_string_new_len((char*) ba->data, ba->len); g_byte_array_free(ba, TRUE); }
		else if (!strcmp(op, "xm")) { char *m = g_malloc0(b * U + 1); ret = U * li_chunkqueue_extract_to_memory(q[a], b * U, m, &err); xs = g_string_new_len(m, ret ? b * U : 0); g_free(m); }
		else if (!strcmp(op, "lb")) { liBuffer *bf = li_chunkqueue_get_last_buffer(q[a], b * U); if (bf) { d = gen(b); memcpy(bf->addr + bf->used, d, b * U); g_free(d); li_chunkqueue_update_last_buffer_size(q[a], b * U); ret = U; } }
		else if (!strcmp(op, "ul")) li_chunkqueue_use_limit(q[a], b * U);
		else if (!strcmp(op, "ll")) li_cqlimit_set_limit(lim[a], b * U);
		else if (!strcmp(op, "lq")) li_chunkqueue_set_limit(q[a], b ? lim[b] : NULL);
		else if (!strcmp(op, "rs")) li_chunkqueue_reset(q[a]);
		else if (!strcmp(op, "cl")) q[a]->is_closed = TRUE;
		else if (!strcmp(op, "pw")) { /* walk b units with the chunk parser in odd steps, extract what lies between the marks */
			liChunkParserCtx ctx; char *p = NULL, *pe = NULL; goffset want = b * U, got = 0; liChunkParserMark m1, m2; gboolean have = FALSE;
			li_chunk_parser_init(&ctx, q[a]); li_chunk_parser_prepare(&ctx);
			xs = g_string_new("");
			while (got < want) {
				goffset n;
				if (LI_HANDLER_GO_ON != li_chunk_parser_next(&ctx, &p, &pe, &err)) break;
				if (!have) { m1 = li_chunk_parser_getmark(&ctx, p); have = TRUE; }
				n = pe - p; if (n > want - got) n = want - got; if (n > 3 * U / 2 && U > 1) n = 3 * U / 2;
				m2 = li_chunk_parser_getmark(&ctx, p + n);
				li_chunk_parser_done(&ctx, n); got += n;
			}
			if (have && !err) { g_string_assign(xs, "some longer old content"); if (!li_chunk_extract_to(m1, m2, xs, &err)) failed = 1; }
			ret = got; }
		else if (!strcmp(op, "nw")) { /* write up to b units to a socket */
			char *buf = g_malloc(1 << 20); ssize_t r;
			xs = g_string_new("");
			if (q[a]->length > 0) {
				if (c) { goffset mx = b * U; ret = li_network_write_writev(sv[0], q[a], &mx, &err); } else ret = li_network_write(sv[0], q[a], b * U, &err);
				ret = (ret == LI_NETWORK_STATUS_SUCCESS || ret == LI_NETWORK_STATUS_WAIT_FOR_EVENT) ? U : 0; }
			while (0 < (r = read(sv[1], buf, 1 << 20))) g_string_append_len(xs, buf, r);
			g_free(buf); }
		else if (!strcmp(op, "nr")) { /* b units arrive from a socket; read while the queue isn't full */
			ssize_t r; char *buf = g_malloc(1 << 20); goffset before = q[a]->bytes_in; liBuffer *rb = NULL; int guard = 0;
			d = gen(b); if (b * U != write(sv[1], d, b * U)) failed = 1; g_free(d);
			while (!(q[a]->limit && q[a]->limit->locked) && guard++ < 100) {
				liNetworkStatus st = li_network_read(sv[0], q[a], 64 * 1024, c ? &rb : NULL, &err);
				if (LI_NETWORK_STATUS_SUCCESS != st) { if (LI_NETWORK_STATUS_WAIT_FOR_EVENT != st) failed = 1; break; }
			}
			ret = q[a]->bytes_in - before;
			while (0 < (r = read(sv[0], buf, 1 << 20))) ; /* what didn't fit is lost with the connection */
			li_buffer_release(rb); g_free(buf); }
		else if (!strcmp(op, "tz")) { /* a file of b+c units, queued from unit c on, shrinks to a units before it is sent: send the rest, then report an error */
			liChunkQueue *z = li_chunkqueue_new(); char path[300], *buf = g_malloc(1 << 20); int fd, k; ssize_t r; liChunkFile *cf;
			snprintf(path, sizeof(path), "%s/file%d", dir, tmpn++);
			d = gen(b);
			fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); unlink(path);
			if (pwrite(fd, d, c * U, 0) < 0 || pwrite(fd, d, b * U, c * U) < 0) failed = 1;
			cf = li_chunkfile_new(NULL, fd, FALSE); li_chunkqueue_append_chunkfile(z, cf, c * U, b * U); li_chunkfile_release(cf);
			if (0 > ftruncate(fd, a * U)) failed = 1;
			xs = g_string_new("");
			for (k = 0; k < 50 && z->length > 0; k++) {
				liNetworkStatus st = li_network_write(sv[0], z, 1 << 20, &err);
				while (0 < (r = read(sv[1], buf, 1 << 20))) g_string_append_len(xs, buf, r);
				if (err) { g_error_free(err); err = NULL; }
				if (LI_NETWORK_STATUS_FATAL_ERROR == st || LI_NETWORK_STATUS_CONNECTION_CLOSE == st) { ret = U; break; }
			}
			g_free(d); g_free(buf); li_chunkqueue_free(z); }
		fprintf(o, "\"ret\":"); num(ret);
		fprintf(o, ",\"x\":"); if (xs) units(xs->str, xs->len); else fprintf(o, "[]");
		if (err) { fprintf(o, ",\"err\":1"); } else fprintf(o, ",\"err\":0");
		if (xs) g_string_free(xs, TRUE);
		fputc(',', o); state(); fputc('}', o);
		fflush(o);
	}
	for (i = 1; i <= NQ; i++) li_chunkqueue_free(q[i]);
	fprintf(o, ",{\"op\":\"end\",\"a\":0,\"b\":0,\"c\":0,\"tmp\":%d,\"fds\":%d,\"lk\":[%d,%d],\"cur\":[%ld,%ld]}]\n", tempfiles(), openfds() - fds0, lim[1]->locked ? 1 : 0, lim[2]->locked ? 1 : 0, (long) lim[1]->current, (long) lim[2]->current);
	fflush(o);
	_exit(0);
}

int main(int argc, char **argv) {
	static char line[1 << 16];
	o = stdout;
	dir = argv[1];
	while (fgets(line, sizeof(line), stdin)) {
		pid_t p; int st; char cmd[400];
		line[strcspn(line, "\n")] = 0;
		fflush(o);
		p = fork();
		if (0 == p) { close(2); run(line); }
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(o, "\"crash\":%d\n", st); }
		{ struct dirent *e; DIR *d = opendir(dir); while (NULL != (e = readdir(d))) if (e->d_name[0] != '.') { snprintf(cmd, sizeof(cmd), "%s/%s", dir, e->d_name); unlink(cmd); } closedir(d); }
	}
	return 0;
}
