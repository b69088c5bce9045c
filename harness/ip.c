/* radix trees and ip parsers; one script per line, ops separated by ';':
 *  I HEX BITS VAL | R HEX BITS | L HEX BITS | E HEX BITS | F        (radix tree; HEX "-" is an empty key)
 *  4 MODE HEXTEXT | 6 MODE HEXTEXT      (parsers; MODE bit 0: netmask, bit 1: port)
 *  N KIND HEXTARGET HEXMATCH BITS       (KIND 44 46 64 66: target family, network family) */
#include <lighttpd/base.h>
#include <lighttpd/radix.h>
#include <lighttpd/ip_parsers.h>
#include <sys/wait.h>
static FILE *o;
static int unhex(const char *h, guint8 *b) {
	int n = 0;
	if ('-' == *h) return 0;
	while (h[0] && h[1]) { unsigned x; sscanf(h, "%2x", &x); b[n++] = x; h += 2; }
	return n;
}
static int cnt[65536];
static void each(gpointer d, gpointer u) { cnt[GPOINTER_TO_INT(d) & 0xffff]++; }
static void run(char *line) {
	liRadixTree *t = li_radixtree_new();
	char *save = NULL, *tok;
	int first = 1;
	alarm(20);
	fputc('[', o);
	for (tok = strtok_r(line, ";", &save); tok; tok = strtok_r(NULL, ";", &save)) {
		char h[600] = "", h2[600] = ""; guint8 b[600], b2[600]; int bits = 0, val = 0, i;
		if (!first) fputc(',', o);
		first = 0;
		memset(b, 0, sizeof(b)); memset(b2, 0, sizeof(b2));
		switch (tok[0]) {
		case 'I': sscanf(tok + 1, "%599s %d %d", h, &bits, &val); unhex(h, b);
			fprintf(o, "%d", GPOINTER_TO_INT(li_radixtree_insert(t, b, bits, GINT_TO_POINTER(val)))); break;
		case 'R': sscanf(tok + 1, "%599s %d", h, &bits); unhex(h, b);
			fprintf(o, "%d", GPOINTER_TO_INT(li_radixtree_remove(t, b, bits))); break;
		case 'L': sscanf(tok + 1, "%599s %d", h, &bits); unhex(h, b);
			fprintf(o, "%d", GPOINTER_TO_INT(li_radixtree_lookup(t, b, bits))); break;
		case 'E': sscanf(tok + 1, "%599s %d", h, &bits); unhex(h, b);
			fprintf(o, "%d", GPOINTER_TO_INT(li_radixtree_lookup_exact(t, b, bits))); break;
		case 'F': memset(cnt, 0, sizeof(cnt)); li_radixtree_foreach(t, each, NULL);
			fputc('[', o); { int f = 1; for (i = 0; i < 65536; i++) { int k; for (k = 0; k < cnt[i]; k++) { fprintf(o, "%s%d", f ? "" : ",", i); f = 0; } } } fputc(']', o); break;
		case '4': { guint32 ip = 0xdeadbeef, mask = 0; guint16 port = 0; gboolean r; int mode; guint8 *q = (guint8*) &ip;
			sscanf(tok + 1, "%d %599s", &mode, h); unhex(h, b);
			r = li_parse_ipv4((char*) b, &ip, (mode & 1) ? &mask : NULL, (mode & 2) ? &port : NULL);
			if (!r) fprintf(o, "{\"ok\":false}");
			else {
				int pl = 32; guint32 m = ntohl(mask);
				if (mode & 1) { for (pl = 0; pl < 32 && (m & (1u << (31 - pl))); pl++) ; if (pl < 32 && (m << pl)) pl = -1; }
				fprintf(o, "{\"ok\":true,\"ip\":[%d,%d,%d,%d],\"net\":%d,\"port\":%d}", q[0], q[1], q[2], q[3], pl, (mode & 2) ? port : 0);
			} break; }
		case '6': { guint8 ip[16]; guint net = 128; guint16 port = 0; gboolean r; int mode;
			memset(ip, 0xa5, 16);
			sscanf(tok + 1, "%d %599s", &mode, h); unhex(h, b);
			r = li_parse_ipv6((char*) b, ip, (mode & 1) ? &net : NULL, (mode & 2) ? &port : NULL);
			if (!r) fprintf(o, "{\"ok\":false}");
			else {
				fprintf(o, "{\"ok\":true,\"ip\":[");
				for (i = 0; i < 16; i++) fprintf(o, "%s%d", i ? "," : "", ip[i]);
				fprintf(o, "],\"net\":%d,\"port\":%d}", (int) net, (mode & 2) ? port : 0);
			} break; }
		case 'N': { int kind; guint32 a4, m4, mask; gboolean r = 0;
			sscanf(tok + 1, "%d %599s %599s %d", &kind, h, h2, &bits); unhex(h, b); unhex(h2, b2);
			memcpy(&a4, b, 4); memcpy(&m4, b2, 4); mask = htonl(bits ? ~(guint32) (((guint64) 1 << (32 - bits)) - 1) : 0);
			if (44 == kind) r = li_ipv4_in_ipv4_net(a4, m4, mask);
			if (46 == kind) r = li_ipv4_in_ipv6_net(a4, b2, bits);
			if (64 == kind) r = li_ipv6_in_ipv4_net(b, m4, mask);
			if (66 == kind) r = li_ipv6_in_ipv6_net(b, b2, bits);
			fprintf(o, "%d", r ? 1 : 0); break; }
		}
	}
	fputc(']', o);
	li_radixtree_free(t, NULL, NULL);
}
int main(int argc, char **argv) {
	char *line = NULL; size_t cap = 0; ssize_t n;
	o = stdout;
	while ((n = getline(&line, &cap, stdin)) > 0) {
		pid_t p;
		if (line[n - 1] == '\n') line[n - 1] = 0;
		fflush(o);
		p = fork();
		if (0 == p) { fclose(stderr); run(line); fflush(o); _exit(0); }
		else { int st; waitpid(p, &st, 0); fprintf(o, "%s\n", (WIFEXITED(st) && 0 == WEXITSTATUS(st)) ? "" : "CRASH"); fflush(o); }
	}
	return 0;
}
