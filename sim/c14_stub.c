// Stand-in for the commands darkcult.sh runs: the compiler (cxx), the program it builds, pnmcat and python (darkcult.py).
// Decisions come from $SIM_CTL/plan (one letter per call, '0' = works), calls are recorded in $SIM_CTL/calls.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char ctl[512], plan;

static char next_plan(char const* what) {
	char name[600], line[64];
	snprintf(name, sizeof name, "%s/calls", ctl);
	FILE* f = fopen(name, "a+");
	if (!f) exit(99);
	int n = 0;
	rewind(f);
	while (fgets(line, sizeof line, f)) ++n;
	snprintf(name, sizeof name, "%s/plan", ctl);
	FILE* p = fopen(name, "r");
	int c = '0';
	if (p) { if (fseek(p, n, SEEK_SET) == 0) { c = fgetc(p); if (c == EOF) c = '0'; } fclose(p); }
	fprintf(f, "%s %c\n", what, c);
	fclose(f);
	return (char)c;
}
static void kill_driver(void) {
	char name[600];
	int pid = 0;
	snprintf(name, sizeof name, "%s/pid", ctl);
	FILE* f = fopen(name, "r");
	if (f) { if (fscanf(f, "%d", &pid) != 1) pid = 0; fclose(f); }
	if (pid > 1 && (getppid() == pid)) kill(pid, SIGKILL);
	_exit(137);
}
static unsigned hash_arg(char const* s) { unsigned h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return h; }
// everything that decides what a tile looks like
struct look { unsigned h; int tw, th, x, y; };
static void look_arg(struct look* l, char const* a) {
	if (!strncmp(a, "-DDARKROOM_TILE_WIDTH=", 22)) l->tw = atoi(a + 22);
	else if (!strncmp(a, "-DDARKROOM_TILE_HEIGHT=", 23)) l->th = atoi(a + 23);
	else if (!strncmp(a, "-DDARKROOM_OFFSET_X=", 20)) l->x = atoi(a + 20);
	else if (!strncmp(a, "-DDARKROOM_OFFSET_Y=", 20)) l->y = atoi(a + 20);
	else l->h += hash_arg(a);	// in any order
}
static int tile(FILE* f, struct look const* l, int part) {
	fprintf(f, "P3\n%d %d\n255\n", l->tw, l->th);
	int n = l->tw * l->th, k = 0;
	for (int j = 0; j != l->th; ++j)
		for (int i = 0; i != l->tw; ++i, ++k) {
			if (part && k >= n / 2) return fflush(f), 1;
			fprintf(f, "%d %d %u\n", l->x + i, l->y + j, l->h % 1000003u);
		}
	return fflush(f) != 0;
}
static int compile(int argc, char** argv) {
	char const* out = 0;
	struct look l = {0, 0, 0, -1, -1};
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
		else if (argv[i][0] != '-') { char const* b = strrchr(argv[i], '/'); l.h += hash_arg(b ? b + 1 : argv[i]); }
		else look_arg(&l, argv[i]);
	}
	plan = next_plan("cxx");
	if (plan == '3') kill_driver();
	if (plan == '1' || !out) return 1;
	if (plan == '2') l.h = 0;	// never used: a compiler that fails after it has written its output
	FILE* f = fopen(out, "w");
	if (!f) return 1;
	char self[512];
	ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
	if (n < 0) return 1;
	self[n] = 0;
	fprintf(f, "#!%s\n%u %d %d %d %d\n", self, l.h, l.tw, l.th, l.x, l.y);
	if (fclose(f)) return 1;
	chmod(out, 0755);
	return plan == '2';
}
static int render(char const* script) {
	struct look l;
	char line[600];
	FILE* f = fopen(script, "r");
	if (!f || !fgets(line, sizeof line, f) || fscanf(f, "%u %d %d %d %d", &l.h, &l.tw, &l.th, &l.x, &l.y) != 5) return 127;
	fclose(f);
	plan = next_plan("render");
	if (plan == '1') return 1;
	if (plan == '3') { tile(stdout, &l, 1); kill_driver(); }
	return tile(stdout, &l, plan == '2');
}
struct picture { int w, h; long* rgb; };
static int load(char const* name, struct picture* p) {
	FILE* f = name ? fopen(name, "r") : stdin;
	int m;
	if (!f || fscanf(f, "P3 %d %d %d", &p->w, &p->h, &m) != 3 || p->w <= 0 || p->h <= 0) return 1;
	p->rgb = malloc(sizeof(long) * 3 * (size_t)p->w * (size_t)p->h);
	for (int i = 0; i != p->w * p->h * 3; ++i) if (fscanf(f, "%ld", p->rgb + i) != 1) return 1;
	if (f != stdin) fclose(f);
	return 0;
}
static int pnmcat(int argc, char** argv) {
	int lr = argc > 1 && !strcmp(argv[1], "-lr");
	if (!lr && (argc < 2 || strcmp(argv[1], "-tb"))) return 1;
	plan = next_plan(lr ? "pnmcat-lr" : "pnmcat-tb");
	if (plan == '1') return 1;
	if (plan == '3') kill_driver();
	int n = argc - 2, w = 0, h = 0;
	if (n < 1) n = 1;
	struct picture* p = calloc((size_t)n, sizeof *p);
	for (int i = 0; i != n; ++i) {
		if (load(argc > 2 ? argv[2 + i] : 0, p + i)) { fprintf(stderr, "pnmcat: bad picture %s\n", argc > 2 ? argv[2 + i] : "-"); return 1; }
		if (lr) { w += p[i].w; if (p[i].h > h) h = p[i].h; } else { h += p[i].h; if (p[i].w > w) w = p[i].w; }
	}
	printf("P3\n%d %d\n255\n", w, h);
	if (plan == '2') return fflush(stdout), 1;
	for (int y = 0; y != h; ++y) {
		if (lr) {
			for (int i = 0; i != n; ++i) for (int x = 0; x != p[i].w; ++x) {
				if (y < p[i].h) { long* c = p[i].rgb + 3 * (y * p[i].w + x); printf("%ld %ld %ld\n", c[0], c[1], c[2]); } else printf("0 0 0\n");
			}
		}
		else {
			int i = 0, q = y;
			while (q >= p[i].h) q -= p[i++].h;
			for (int x = 0; x != w; ++x) {
				if (x < p[i].w) { long* c = p[i].rgb + 3 * (q * p[i].w + x); printf("%ld %ld %ld\n", c[0], c[1], c[2]); } else printf("0 0 0\n");
			}
		}
	}
	return fflush(stdout) != 0;
}
// what darkcult.py promises: all tiles and 0, or 1 and some of them, or 2 when terminated
static int python(int argc, char** argv) {
	static char const* names[] = {"left", "top", "right", "bottom", "tile_width", "tile_height", "width", "height", "continuable", "max_procs"};
	int v[10], have[10] = {0};
	char stage[512] = "", options[2000] = "", source[512] = "", cpp[512] = "", compiler[512] = "", record[512] = "", line[700];
	for (int i = 2; i < argc; ++i) {
		if (argv[i][0] != '-') return 3;
		for (int k = 0; k != 10; ++k) {
			size_t n = strlen(names[k]);
			if (!strncmp(argv[i] + 2, names[k], n) && argv[i][2 + n] == '=') {
				char* e;
				v[k] = (int)strtol(argv[i] + 3 + n, &e, 10);
				while (*e == ' ') ++e;
				if (*e || e == argv[i] + 3 + n) return 2;
				have[k] = 1;
			}
		}
		sscanf(argv[i], "--stagedir=%511[^\n]", stage);
		sscanf(argv[i], "--compile_options=%1999[^\n]", options);
		sscanf(argv[i], "--source=%511[^\n]", source);
		sscanf(argv[i], "--darkcult_cpp=%511[^\n]", cpp);
		sscanf(argv[i], "--compiler=%511[^\n]", compiler);
		sscanf(argv[i], "--continue_file=%511[^\n]", record);
	}
	for (int k = 0; k != 10; ++k) if (!have[k]) return 4;
	plan = next_plan("python");
	if (plan == '3') kill_driver();
	if (v[8]) { FILE* f = fopen(record, "a"); if (!f) return 5; fclose(f); }
	struct look l = {0, v[4], v[5], 0, 0};
	char* save = 0;
	char copy[2000];
	strcpy(copy, options);
	for (char* t = strtok_r(copy, " \t\n", &save); t; t = strtok_r(0, " \t\n", &save)) l.h += hash_arg(t);
	snprintf(line, sizeof line, "-DDARKROOM_SOURCE=\"%s\"", source);
	l.h += hash_arg(line);
	snprintf(line, sizeof line, "-DDARKROOM_TOTAL_WIDTH=%d", v[6]);
	l.h += hash_arg(line);
	snprintf(line, sizeof line, "-DDARKROOM_TOTAL_HEIGHT=%d", v[7]);
	l.h += hash_arg(line);
	char const* b = strrchr(cpp, '/');
	l.h += hash_arg(b ? b + 1 : cpp);
	int total = 0, done = 0;
	for (int y = v[1]; y < v[3]; y += v[5]) for (int x = v[0]; x < v[2]; x += v[4]) ++total;
	int limit = plan == '1' || plan == '2' ? total / 2 : total;
	for (int y = v[1]; y < v[3]; y += v[5]) for (int x = v[0]; x < v[2]; x += v[4]) {
		if (done++ >= limit) continue;
		l.x = x;
		l.y = y;
		snprintf(line, sizeof line, "%s/%d/%d.ppm", stage, y, x);
		FILE* f = fopen(line, "w");
		if (!f) return 1;
		tile(f, &l, 0);
		fclose(f);
	}
	return plan == '1' ? 1 : plan == '2' ? 2 : 0;
}
int main(int argc, char** argv) {
	char const* c = getenv("SIM_CTL");
	if (!c) return 98;
	snprintf(ctl, sizeof ctl, "%s", c);
	char const* b = strrchr(argv[0], '/');
	b = b ? b + 1 : argv[0];
	if (!strcmp(b, "cxx")) return compile(argc, argv);
	if (!strcmp(b, "pnmcat")) return pnmcat(argc, argv);
	if (!strcmp(b, "python")) return python(argc, argv);
	return argc > 1 ? render(argv[1]) : 97;
}
