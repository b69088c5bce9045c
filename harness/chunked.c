/* drives li_filter_chunked_decode / _encode; stdin: one script per line, events separated by ';':
 *   d HEX EOF   deliver bytes to the decoder        e HEX EOF   deliver bytes to the encoder
 *   l N         encode a piece of N bytes (sparse file), report what precedes the data
 * the letter may be followed by a kind: m memory, f file, t many one byte chunks
 * stdout: one JSON list per script */
#include <lighttpd/base.h>
#include <sys/wait.h>
#include <fcntl.h>
static char *dir;
static FILE *o;
static int fno;
static void put(liChunkQueue *cq, char kind, const guint8 *b, size_t n) {
	size_t i;
	if (0 == n) return;
	if ('f' == kind) {
		GString *fn = g_string_new(NULL);
		int fd;
		g_string_printf(fn, "%s/f%d", dir, ++fno);
		fd = open(fn->str, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if ((ssize_t) n != write(fd, b, n)) abort();
		li_chunkqueue_append_tempfile_fd(cq, fn, 0, n, fd);
	} else if ('t' == kind) {
		for (i = 0; i < n; i++) li_chunkqueue_append_mem(cq, b + i, 1);
	} else {
		li_chunkqueue_append_mem(cq, b, n);
	}
}
static void dump(const char *key, liChunkQueue *cq, goffset len) {
	GByteArray *a = g_byte_array_new();
	guint i;
	fprintf(o, "\"%s\":[", key);
	if (len > 0 && li_chunkqueue_extract_to_bytearr(cq, len, a, NULL)) for (i = 0; i < a->len; i++) fprintf(o, "%s%d", i ? "," : "", a->data[i]);
	fprintf(o, "]");
	g_byte_array_free(a, TRUE);
}
static void run(char *line) {
	char *save = NULL, *tok;
	liChunkQueue *in = li_chunkqueue_new(), *out = li_chunkqueue_new();
	liFilterChunkedDecodeState st;
	int first = 1, stop = 0;
	memset(&st, 0, sizeof(st));
	alarm(20);
	fputc('[', o);
	for (tok = strtok_r(line, ";", &save); tok; tok = strtok_r(NULL, ";", &save)) {
		char op[8], *hex = NULL, *sp;
		GByteArray *a = g_byte_array_new();
		int eof = 0; guint i;
		op[0] = tok[0]; op[1] = tok[1];
		hex = strchr(tok, ' ') + 1;
		sp = strchr(hex, ' ');
		if (sp) { *sp = 0; eof = atoi(sp + 1); }
		if (!first) fputc(',', o);
		first = 0;
		if ('l' == op[0]) {
			long long n = atoll(hex);
			GString *fn = g_string_new(NULL);
			liChunkQueue *i2 = li_chunkqueue_new(), *o2 = li_chunkqueue_new();
			int fd; goffset pos = 0;
			g_string_printf(fn, "%s/big%d", dir, ++fno);
			fd = open(fn->str, O_RDWR | O_CREAT | O_TRUNC, 0600);
			if (ftruncate(fd, n)) abort();
			li_chunkqueue_append_tempfile_fd(i2, fn, 0, n, fd);
			li_filter_chunked_encode(NULL, o2, i2);
			pos = o2->length - n - 2;
			fprintf(o, "{\"op\":\"len\",\"d\":[");
			{ char buf[32]; int k; snprintf(buf, sizeof(buf), "%llx", n); for (k = 0; buf[k]; k++) fprintf(o, "%s%d", k ? "," : "", g_ascii_xdigit_value(buf[k])); }
			fprintf(o, "],");
			dump("out", o2, pos);
			fprintf(o, "}");
			li_chunkqueue_free(i2); li_chunkqueue_free(o2);
			continue;
		}
		for (; hex[0] && hex[1]; hex += 2) { guint8 c = 16 * g_ascii_xdigit_value(hex[0]) + g_ascii_xdigit_value(hex[1]); g_byte_array_append(a, &c, 1); }
		put(in, op[1], a->data, a->len);
		if (eof) in->is_closed = TRUE;
		fprintf(o, "{\"op\":\"%s\",\"b\":[", 'd' == op[0] ? "dec" : "enc");
		for (i = 0; i < a->len; i++) fprintf(o, "%s%d", i ? "," : "", a->data[i]);
		fprintf(o, "],\"eof\":%d,", eof);
		fflush(o);
		if ('d' == op[0]) {
			gboolean r = li_filter_chunked_decode(NULL, out, in, &st);
			if (!r) stop = 1;
			fprintf(o, "\"ret\":%d,\"rest\":%d,", r ? 1 : 0, (int) in->length);
		} else {
			li_filter_chunked_encode(NULL, out, in);
		}
		dump("out", out, out->length);
		fprintf(o, ",\"cl\":%d}", out->is_closed ? 1 : 0);
		g_byte_array_free(a, TRUE);
		fflush(o);
		if (stop) break;
	}
	fputs("]\n", o);
	li_chunkqueue_free(in); li_chunkqueue_free(out);
	fflush(o);
}
int main(int argc, char **argv) {
	char *line = NULL; size_t cap = 0; ssize_t n;
	dir = argv[1]; o = stdout;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while (0 < (n = getline(&line, &cap, stdin))) {
		pid_t pid; int st;
		line[strcspn(line, "\n")] = 0;
		fflush(stdout);
		if (0 == (pid = fork())) { run(line); fflush(stdout); _exit(0); }
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("\n"); fflush(stdout); }
	}
	return 0;
}
