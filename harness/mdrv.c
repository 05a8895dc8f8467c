/*
 * mdrv - conformance driver for MidoriDB.
 *
 *   mdrv sql   < script > trace.ndjson     drive the SQL front door (query_execute / cursor)
 *   mdrv store < script > trace.ndjson     drive primitive/table.h (rows, blocks, vacuum, columns)
 *   mdrv ds    < script > trace.ndjson     drive the containers
 *   mdrv conc  ...                         concurrent sessions
 *
 * Every history runs in a forked child, so a crash or a hang of the code under test is an
 * observation ("CRASH" / "HANG" event), not a failure of the harness.
 */
#include "mdrv.h"

#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>

char *read_line(FILE *f, char **buf, size_t *cap)
{
	ssize_t n = getline(buf, cap, f);
	if (n < 0)
		return NULL;
	while (n > 0 && ((*buf)[n - 1] == '\n'))
		(*buf)[--n] = 0;
	return *buf;
}

/* undo \n \t \r \\ and \xHH escapes in place */
void unescape(char *s)
{
	char *o = s;
	for (; *s; s++) {
		if (*s == '\\' && s[1]) {
			s++;
			if (*s == 'n') *o++ = '\n';
			else if (*s == 't') *o++ = '\t';
			else if (*s == 'r') *o++ = '\r';
			else if (*s == 'x' && s[1] && s[2]) {
				char h[3] = { s[1], s[2], 0 };
				*o++ = (char)strtol(h, NULL, 16);
				s += 2;
			} else *o++ = *s;
		} else
			*o++ = *s;
	}
	*o = 0;
}

void json_str(FILE *o, const char *s, size_t max)
{
	fputc('"', o);
	for (size_t i = 0; i < max && s[i]; i++) {
		unsigned char c = (unsigned char)s[i];
		if (c == '"' || c == '\\')
			fprintf(o, "\\%c", c);
		else if (c < 32 || c >= 127)
			fprintf(o, "\\u%04x", c);
		else
			fputc(c, o);
	}
	fputc('"', o);
}

/* in a child: at most s seconds of processor time, and a generous bound on the time by the clock */
void time_limit(int s)
{
	struct itimerval t = { { 0, 0 }, { s, 0 } };

	setitimer(ITIMER_PROF, &t, NULL);
	alarm(10 * s);
}

/* how often watch() saw one that hangs; shared by all processes */
static int *hangs;

bool many_hangs(void)
{
	return *hangs >= 2;
}

/* whether all threads sleep; *switches: how often they went to sleep so far */
static bool asleep(pid_t pid, long *switches)
{
	char path[64], line[512];
	bool all = true;
	struct dirent *d;

	snprintf(path, sizeof(path), "/proc/%d/task", (int)pid);
	DIR *dir = opendir(path);
	if (!dir)
		return false;
	*switches = 0;
	while ((d = readdir(dir))) {
		char f[400], st = 0;
		long v = 0;
		if (d->d_name[0] == '.')
			continue;
		snprintf(f, sizeof(f), "%s/%s/status", path, d->d_name);
		FILE *in = fopen(f, "r");
		if (!in)
			continue;
		while (fgets(line, sizeof(line), in)) {
			sscanf(line, "State: %c", &st);
			if (sscanf(line, "voluntary_ctxt_switches: %ld", &v) == 1)
				*switches += v;
		}
		fclose(in);
		all = all && st == 'S';
	}
	closedir(dir);
	return all;
}

/*
 * Wait for a child.  One that uses up its time, or that sleeps for good (on a lock that nobody releases), hangs;
 * one that the machine is too busy to run does not.
 */
bool watch(pid_t pid, int *st, int limit_s)
{
	sigset_t chld, old;
	bool killed = false;
	long last = -1, now;
	int idle = 0;

	sigemptyset(&chld);
	sigaddset(&chld, SIGCHLD);
	sigprocmask(SIG_BLOCK, &chld, &old);
	while (waitpid(pid, st, WNOHANG) == 0) {
		struct timespec t = { 1, 0 };
		if (sigtimedwait(&chld, NULL, &t) >= 0)
			continue;
		idle = asleep(pid, &now) && now == last ? idle + 1 : 0;
		last = now;
		if (idle >= (limit_s < 10 ? limit_s : 10)) {
			killed = true;
			kill(pid, SIGKILL);
		}
	}
	sigprocmask(SIG_SETMASK, &old, NULL);
	killed = killed || (WIFSIGNALED(*st) && (WTERMSIG(*st) == SIGALRM || WTERMSIG(*st) == SIGPROF));
	*hangs += killed;
	return killed;
}

/*
 * Run the lines of one history in a child.  The child writes complete event lines with write(2) semantics
 * (fflush after every event); the parent appends one CRASH/HANG event when the child does not finish.
 */
static void run_history(history_fn fn, char **lines, size_t n, int limit_s)
{
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		exit(3);
	}
	if (pid == 0) {
		/* the library chats on stdout/stderr (BUG(), regex errors): keep it out of the trace */
		int out = dup(1);
		int nul = open("/dev/null", O_WRONLY);
		const char *keep = getenv("MDRV_STDERR");
		dup2(keep ? 2 : nul, 1);
		if (!keep)
			dup2(nul, 2);
		FILE *o = fdopen(out, "w");
		close(3);
		time_limit(limit_s);
		fn(o, lines, n);
		fflush(o);
		_exit(0);
	}
	int st = 0;
	bool hang = watch(pid, &st, limit_s);
	if (hang || WIFSIGNALED(st)) {
		printf("{\"ev\":\"DIED\",\"why\":\"%s\",\"sig\":%d}\n", hang ? "HANG" : "CRASH", WTERMSIG(st));
	} else if (WEXITSTATUS(st) != 0) {
		printf("{\"ev\":\"DIED\",\"why\":\"CRASH\",\"sig\":%d}\n", -WEXITSTATUS(st));
	}
	printf("{\"ev\":\"END\"}\n");
	fflush(stdout);
}

int main(int argc, char **argv)
{
	char *buf = NULL, **lines = NULL;
	size_t cap = 0, n = 0, lcap = 0;
	history_fn fn = NULL;
	int limit_s = 20;

	if (!getenv("MDRV_TZ"))
		setenv("TZ", "UTC0", 1);
	else
		setenv("TZ", getenv("MDRV_TZ"), 1);
	tzset();
	if (argc < 2)
		return 2;
	hangs = mmap(NULL, sizeof(*hangs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (getenv("MDRV_LIMIT"))
		limit_s = atoi(getenv("MDRV_LIMIT"));
	if (!strcmp(argv[1], "sql")) fn = sql_history;
	else if (!strcmp(argv[1], "store")) fn = store_history;
	else if (!strcmp(argv[1], "ds")) fn = ds_history;
	else if (!strcmp(argv[1], "conc")) fn = conc_history;
	else return 2;

	/* the children inherit the descriptor: slurp the script first so that no exit handler can rewind it */
	FILE *in = tmpfile();
	int c;
	while ((c = getchar()) != EOF) fputc(c, in);
	fclose(stdin);
	rewind(in);

	/* a history is everything between two "H" lines */
	while (read_line(in, &buf, &cap)) {
		if (buf[0] == 'H' && n) {
			run_history(fn, lines, n, limit_s);
			for (size_t i = 0; i < n; i++) free(lines[i]);
			n = 0;
			if (many_hangs()) {	/* more of them would only cost time */
				printf("{\"ev\":\"STOPPED\"}\n");
				return 0;
			}
		}
		if (n == lcap) {
			lcap = lcap ? lcap * 2 : 64;
			lines = realloc(lines, lcap * sizeof(*lines));
		}
		lines[n++] = strdup(buf);
	}
	if (n)
		run_history(fn, lines, n, limit_s);
	return 0;
}
