/*
 * drv_conc.c - threads executing statements on one database.
 *
 *   Q sql            before the threads start
 *   T k sql          next statement of thread k
 *   P seed mean points range lock% hot fine    the schedule (sched_shim.c)
 *   G                run the threads
 */
#include "mdrv.h"
#include "sched.h"
#include <engine/query.h>
#include <engine/database.h>
#include <pthread.h>
#include <stdatomic.h>
#include <unistd.h>

void emit_outcome(FILE *o, struct query_output *q, size_t max_rows);
void emit_db(FILE *o, struct database *db);

struct op { char *sql, *out; size_t sz; long inv, resp; };
struct worker { struct op ops[32]; int n, id; pthread_t th; };
static struct worker w[8];
static struct database db;
static atomic_long clk;

static void statement(FILE *m, char *sql, long *resp)
{
	struct query_output *q = query_execute(&db, sql);

	if (resp)
		*resp = atomic_fetch_add(&clk, 1);
	if (!q) {
		fprintf(m, "\"st\":\"NULLOUT\"");
	} else {
		emit_outcome(m, q, 100000);
		query_free(q);
	}
}

static void *run(void *arg)
{
	struct worker *k = arg;

	sched_enter(k->id);
	for (int i = 0; i < k->n; i++) {
		FILE *m = open_memstream(&k->ops[i].out, &k->ops[i].sz);
		sched_between();
		k->ops[i].inv = atomic_fetch_add(&clk, 1);
		k->ops[i].resp = -1;
		statement(m, k->ops[i].sql, &k->ops[i].resp);
		fclose(m);
	}
	sched_leave();
	return NULL;
}

void conc_history(FILE *o, char **lines, size_t n)
{
	int nw = 0;
	unsigned long long seed = 1;
	long mean = 100, points = 0, range = 1, lockp = 0, hot = 0, fine = 0;
	char *mem = NULL;
	size_t sz = 0;
	FILE *m;

	if (sched_report)
		sched_report(o);
	memset(w, 0, sizeof(w));
	if (!sched_start || database_open(&db) != MIDORIDB_OK) {
		fprintf(o, "{\"ev\":\"OPENFAIL\"}\n");
		return;
	}
	for (size_t i = 0; i < n; i++) {
		char *l = lines[i];
		unescape(l);
		switch (l[0]) {
		case 'H':
			fprintf(o, "{\"ev\":\"H\",\"id\":\"%s\"}\n", l + 2);
			break;
		case 'Q':
			m = open_memstream(&mem, &sz);
			statement(m, l + 2, NULL);
			fclose(m);
			free(mem);
			break;
		case 'T': {
			int k = l[2] - '0';
			if (k >= nw)
				nw = k + 1;
			w[k].ops[w[k].n++].sql = l + 4;
			break;
		}
		case 'P':
			sscanf(l + 2, "%llu %ld %ld %ld %ld %ld %ld", &seed, &mean, &points, &range, &lockp, &hot, &fine);
			break;
		case 'G':
			fprintf(o, "{\"ev\":\"INIT\",\"db\":");
			emit_db(o, &db);
			fprintf(o, "}\n");
			fflush(o);
			sched_start(o, nw, seed, mean, points, range, lockp, hot, fine);
			for (int k = 0; k < nw; k++) {
				w[k].id = k;
				pthread_create(&w[k].th, NULL, run, &w[k]);
			}
			sched_go();
			for (int k = 0; k < nw; k++)
				pthread_join(w[k].th, NULL);
			long steps = sched_stop();
			for (int k = 0; k < nw; k++)
				for (int j = 0; j < w[k].n; j++)
					fprintf(o, "{\"ev\":\"OP\",\"t\":%d,\"inv\":%ld,\"resp\":%ld,%s}\n", k, w[k].ops[j].inv, w[k].ops[j].resp, w[k].ops[j].out);
			fprintf(o, "{\"ev\":\"CONF\",\"pairs\":[");
			sched_conflicts(o);
			fprintf(o, "]}\n");
			fprintf(o, "{\"ev\":\"FINAL\",\"steps\":%ld,\"db\":", steps);
			emit_db(o, &db);
			fprintf(o, "}\n");
			fflush(o);
			break;
		}
	}
	database_close(&db);
	fprintf(o, "{\"ev\":\"CLOSED\"}\n");
}
