#include "mdrv.h"
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <datastructure/hashtable.h>

#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

/* present only in the wrap builds (wrap_shim.c) */
void __attribute__((weak)) wrap_count(int enable);
void __attribute__((weak)) wrap_stats(long *blocks, long *bytes);
void __attribute__((weak)) wrap_record(uint32_t *to, long max);
void __attribute__((weak)) wrap_fail(long at, int all);
long __attribute__((weak)) wrap_failed(void);
long __attribute__((weak)) wrap_leaks(const void **roots, const size_t *sizes, size_t n);

#define LIB(x) ({ if (wrap_count) wrap_count(1); __auto_type r_ = (x); if (wrap_count) wrap_count(0); r_; })
#define LIBV(x) ({ if (wrap_count) wrap_count(1); (x); if (wrap_count) wrap_count(0); })

/* ---- projection of the public state ------------------------------------------------------- */

static bool row_is_null(struct row *r, int col)
{
	return (r->null_bitmap[col / 8] >> (col % 8)) & 1;
}

void emit_val(FILE *o, struct column *c, const char *p)
{
	int64_t v;
	double d;
	char *s;
	struct tm tm;
	time_t t;

	switch (c->type) {
	case CT_INTEGER:
		memcpy(&v, p, 8);
		fprintf(o, "[\"I\",\"%lld\"]", (long long)v);
		break;
	case CT_TINYINT:
		fprintf(o, "[\"B\",\"%d\"]", (int)*(const signed char*)p);
		break;
	case CT_DOUBLE:
		memcpy(&d, p, 8);
		fprintf(o, "[\"D\",\"%.17g\"]", d);
		break;
	case CT_DATE:
	case CT_DATETIME:
		memcpy(&t, p, 8);
		memset(&tm, 0, sizeof(tm));
		localtime_r(&t, &tm);
		fprintf(o, "[\"T\",%lld,%d]",
				(long long)((tm.tm_year + 1900) * 10000LL + (tm.tm_mon + 1) * 100 + tm.tm_mday),
				tm.tm_hour * 10000 + tm.tm_min * 100 + tm.tm_sec);
		break;
	case CT_VARCHAR:
		memcpy(&s, p, sizeof(s));
		if (!s) {
			fprintf(o, "[\"?\",\"null-pointer\"]");
			break;
		}
		fprintf(o, "[\"S\",");
		json_str(o, s, (size_t)c->precision);
		fprintf(o, "]");
		break;
	default:
		fprintf(o, "[\"?\",\"%d\"]", (int)c->type);
	}
}

static const char *tname(enum COLUMN_TYPE t)
{
	switch (t) {
	case CT_VARCHAR: return "VARCHAR";
	case CT_INTEGER: return "INTEGER";
	case CT_TINYINT: return "TINYINT";
	case CT_DOUBLE: return "DOUBLE";
	case CT_DATE: return "DATE";
	case CT_DATETIME: return "DATETIME";
	}
	return "?";
}

void emit_row(FILE *o, struct table *t, struct row *r)
{
	size_t off = 0;

	fputc('[', o);
	for (int c = 0; c < t->column_count; c++) {
		if (c) fputc(',', o);
		if (row_is_null(r, c))
			fprintf(o, "[\"N\"]");
		else
			emit_val(o, &t->columns[c], r->data + off);
		off += table_calc_column_space(&t->columns[c]);
	}
	fputc(']', o);
}

void emit_cols(FILE *o, struct table *t)
{
	fputc('[', o);
	for (int c = 0; c < t->column_count; c++) {
		struct column *k = &t->columns[c];
		if (c) fputc(',', o);
		fprintf(o, "{\"n\":");
		json_str(o, k->name, sizeof(k->name));
		fprintf(o, ",\"t\":\"%s\",\"p\":%d,\"nn\":%d,\"uq\":%d,\"ai\":%d,\"pk\":%d,\"ix\":%d}", tname(k->type),
				k->type == CT_VARCHAR ? k->precision : 0, !k->nullable, k->unique, k->auto_inc,
				k->primary_key, k->indexed);
	}
	fputc(']', o);
}

/* live rows in storage order.  Returns the number of row slots visited */
size_t emit_rows(FILE *o, struct table *t)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(t);
	bool first = true;
	size_t n = 0;

	fputc('[', o);
	for (pos = t->datablock_head->next; pos != t->datablock_head; pos = pos->next) {
		struct datablock *b = list_entry(pos, struct datablock, head);
		for (size_t off = 0; off + rs <= DATABLOCK_PAGE_SIZE; off += rs) {
			struct row *r = (struct row*)&b->data[off];
			if (r->flags.empty || r->flags.deleted)
				continue;
			n++;
			if (!first) fputc(',', o);
			first = false;
			emit_row(o, t, r);
		}
	}
	fputc(']', o);
	return n;
}

struct dump_arg { FILE *o; bool first; };

static void dump_table(struct hashtable *h, const void *key, size_t klen, const void *value, size_t vlen, void *arg)
{
	struct dump_arg *a = arg;
	struct table *t = *(struct table**)value;

	(void)h; (void)key; (void)klen; (void)vlen;
	if (!a->first) fputc(',', a->o);
	a->first = false;
	fprintf(a->o, "{\"name\":");
	json_str(a->o, t->name, sizeof(t->name));
	fprintf(a->o, ",\"cols\":");
	emit_cols(a->o, t);
	fprintf(a->o, ",\"rows\":");
	emit_rows(a->o, t);
	fputc('}', a->o);
}

void emit_db(FILE *o, struct database *db)
{
	struct dump_arg a = { o, true };
	fputc('[', o);
	hashtable_foreach(db->tables, &dump_table, &a);
	fputc(']', o);
}

/* ---- one statement ------------------------------------------------------------------------- */

/* read the current row through the public cursor API only */
void emit_cursor_row(FILE *o, struct query_output *q)
{
	struct table *t = q->results.table;
	struct row *r = (struct row*)&q->results.cursor_blk->data[q->results.cursor_offset];

	fputc('[', o);
	for (int c = 0; c < t->column_count; c++) {
		int64_t v;
		if (c) fputc(',', o);
		if (row_is_null(r, c)) {
			fprintf(o, "[\"N\"]");
			continue;
		}
		v = query_column_int64(&q->results, c);
		emit_val(o, &t->columns[c], (char*)&v);
	}
	fputc(']', o);
}

void emit_outcome(FILE *o, struct query_output *q, size_t max_rows)
{
	const char *st = q->status == ST_OK_WITH_RESULTS ? "ROWS" : q->status == ST_OK_EXECUTED ? "OK" : "ERR";

	fprintf(o, "\"st\":\"%s\"", st);
	if (q->status == ST_ERROR) {
		fprintf(o, ",\"msg\":");
		json_str(o, q->error.message, sizeof(q->error.message));
	} else if (q->status == ST_OK_EXECUTED) {
		fprintf(o, ",\"n\":%zu", q->n_rows_aff);
	} else {
		size_t k = 0;
		bool first = true;
		fprintf(o, ",\"cols\":");
		emit_cols(o, q->results.table);
		fprintf(o, ",\"rows\":[");
		fflush(o);
		while (k < max_rows && query_cur_step(&q->results) == MIDORIDB_ROW) {
			if (!first) fputc(',', o);
			first = false;
			emit_cursor_row(o, q);
			k++;
		}
		fprintf(o, "]");
	}
}

/* execute, consume the result set, free it: the event without its closing brace */
static void run_statement(FILE *m, struct database *db, char *sql)
{
	struct query_output *q = LIB(query_execute(db, sql));

	if (!q) {
		fprintf(m, "\"st\":\"NULLOUT\"");
	} else {
		emit_outcome(m, q, 100000);
		LIBV(query_free(q));
	}
}

static char *dump(struct database *db)
{
	char *mem = NULL;
	size_t sz = 0;
	FILE *m = open_memstream(&mem, &sz);

	emit_db(m, db);
	fclose(m);
	return mem;
}

struct memstat { long blocks, bytes; };
static struct memstat memstat(void)
{
	struct memstat r = { 0, 0 };
	if (wrap_stats)
		wrap_stats(&r.blocks, &r.bytes);
	return r;
}

#define MAXALLOC 20000
/*
 * Which allocations to refuse: the first ones and the last one that each caller makes (told apart by the innermost
 * frames), and every step-th of the others.  Found by running the statement in a process of its own first.
 */
static unsigned char *choose_failures(struct database *db, char *sql, long from, long step)
{
	static unsigned char pick[MAXALLOC + 2];	/* 1: alone, 2: with all that follow */
	uint32_t *callers = mmap(NULL, (MAXALLOC + 1) * sizeof(*callers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	memset(pick, 0, sizeof(pick));
	if (step >= 1 << 20) {		/* replay */
		if (from + 2 <= MAXALLOC) {
			pick[from + 1] |= 1;
			pick[from + 2] |= 2;
		}
	} else {
		pid_t pid = fork();
		if (pid == 0) {
			char *mem = NULL;
			size_t sz = 0;
			FILE *m = open_memstream(&mem, &sz);
			time_limit(10);
			wrap_record(callers, MAXALLOC);
			run_statement(m, db, sql);
			_exit(0);
		}
		int st = 0;
		watch(pid, &st, 10);
		for (long k = 1; k <= MAXALLOC && callers[k - 1]; k++) {
			int before = 0, after = 0;
			for (long j = k - 2; j >= 0 && before < 2; j--)
				before += callers[j] == callers[k - 1];
			for (long j = k; j < MAXALLOC && callers[j] && !after; j++)
				after = callers[j] == callers[k - 1];
			if (before < 2 || !after || (k + from) % step == 0)
				pick[k] |= 1;
			if (!before || (k + from) % (2 * step) == 0)
				pick[k] |= 2;
		}
	}
	munmap(callers, (MAXALLOC + 1) * sizeof(*callers));
	return pick;
}

/*
 * E sql, followed by T lines: the statement with the n-th allocation failing (and with all from the n-th on), for
 * every n, each time in a process of its own on the present database, then the T statements with no failure.
 */
static size_t enumerate_failures(FILE *o, struct database *db, char **lines, size_t i, size_t n, long from, long step)
{
	size_t end = i + 1;

	while (end < n && lines[end][0] == 'T')
		end++;
	unsigned char *pick = choose_failures(db, lines[i] + 2, from, step);
	for (int all = 0; all < 2; all++) {
		for (long k = 1; k <= MAXALLOC; k++) {
			if (!(pick[k] & (1 << all)) || many_hangs())
				continue;
			int p[2], st = 0;
			char c = 0;
			fflush(o);
			if (pipe(p))
				exit(3);
			pid_t pid = fork();
			if (pid == 0) {
				char *mem = NULL;
				size_t sz = 0;
				FILE *m;

				close(p[0]);
				time_limit(10);
				for (size_t j = i; j < end; j++) {
					m = open_memstream(&mem, &sz);
					if (j == i)
						wrap_fail(k, all);
					run_statement(m, db, lines[j] + 2);
					c = j == i ? wrap_failed() > 0 : c;
					wrap_fail(0, 0);
					fprintf(m, ",\"db\":");
					emit_db(m, db);
					fclose(m);
					fprintf(o, "{\"ev\":\"%c\",\"at\":%ld,\"all\":%d,\"hit\":%d,%s}\n", j == i ? 'E' : 'T', k, all, c, mem);
					fflush(o);
					free(mem);
					if (j == i)
						(void)!write(p[1], &c, 1);
					if (j == i && !c)	/* the statement makes fewer allocations than that */
						_exit(0);
				}
				LIBV(database_close(db));
				fprintf(o, "{\"ev\":\"TEND\",\"at\":%ld,\"all\":%d,\"hit\":%d,\"lost\":%ld}\n", k, all, c, wrap_leaks ? wrap_leaks(NULL, NULL, 0) : 0L);
				fflush(o);
				_exit(0);
			}
			close(p[1]);
			bool hang = watch(pid, &st, 10);
			if (read(p[0], &c, 1) != 1)
				c = 1;
			close(p[0]);
			if (WIFSIGNALED(st) || WEXITSTATUS(st))
				fprintf(o, "{\"ev\":\"TDIED\",\"at\":%ld,\"all\":%d,\"why\":\"%s\"}\n", k, all, hang ? "HANG" : "CRASH");
			if (!c || many_hangs())
				break;
		}
	}
	fprintf(o, "{\"ev\":\"EEND\"}\n");
	return end - 1;
}

void sql_history(FILE *o, char **lines, size_t n)
{
	struct database db = { 0 };
	struct query_output *held[16] = { 0 };
	const void *roots[] = { &db, held };
	const size_t sizes[] = { sizeof(db), sizeof(held) };
	char *mem = NULL;
	size_t msz = 0;
	long from = 0, step = 1;
	FILE *m;

	if (LIB(database_open(&db)) != MIDORIDB_OK) {
		fprintf(o, "{\"ev\":\"OPENFAIL\"}\n");
		return;
	}

	for (size_t i = 0; i < n; i++) {
		char *l = lines[i];
		struct query_output *q;

		switch (l[0]) {
		case 'H':
			fprintf(o, "{\"ev\":\"H\",\"id\":\"%s\"}\n", l + 2);
			break;
		case 'N': /* N from step: which allocations to refuse */
			sscanf(l + 2, "%ld %ld", &from, &step);
			break;
		case 'E':
			for (size_t j = i; j < n && (j == i || lines[j][0] == 'T'); j++)
				unescape(lines[j] + 2);
			i = enumerate_failures(o, &db, lines, i, n, from, step);
			break;
		case 'Q': /* execute, consume the result set, free it */
			unescape(l + 2);
			m = open_memstream(&mem, &msz);
			run_statement(m, &db, l + 2);
			fprintf(m, ",\"db\":");
			emit_db(m, &db);
			fclose(m);
			fprintf(o, "{\"ev\":\"Q\",%s}\n", mem);
			free(mem);
			mem = NULL;
			break;
		case 'M': /* like Q; then twice more as long as it does not change the database; memory in use each time */
		{
			struct memstat s[4];
			char *before = dump(&db), *after;
			long leaks;
			int k = 0;

			unescape(l + 2);
			m = open_memstream(&mem, &msz);
			s[0] = memstat();
			run_statement(m, &db, l + 2);
			s[++k] = memstat();
			after = dump(&db);
			fprintf(m, ",\"db\":%s", after);
			fclose(m);
			while (k < 3 && !strcmp(before, after)) {
				char *x = NULL, *again;
				size_t xs = 0;
				FILE *f = open_memstream(&x, &xs);
				run_statement(f, &db, l + 2);
				s[++k] = memstat();
				fclose(f);
				free(x);
				again = dump(&db);
				if (strcmp(again, after)) {
					fprintf(stderr, "the statement does not repeat\n");
					k = 1;
				}
				free(again);
				if (k == 1)
					break;
			}
			leaks = wrap_leaks ? wrap_leaks(roots, sizes, 2) : 0;
			fprintf(o, "{\"ev\":\"M\",%s,\"k\":%d,\"lost\":%ld,\"mem\":[", mem, k, leaks);
			for (int x = 0; x <= k; x++)
				fprintf(o, "%s[%ld,%ld]", x ? "," : "", s[x].blocks, s[x].bytes);
			fprintf(o, "]}\n");
			free(mem);
			free(before);
			free(after);
			mem = NULL;
			break;
		}
		case 'K': /* K<slot> sql: execute and keep the result set open */
		{
			int slot = l[1] - 'a';
			unescape(l + 3);
			m = open_memstream(&mem, &msz);
			q = LIB(query_execute(&db, l + 3));
			fprintf(m, "\"st\":\"%s\"", !q ? "NULLOUT" : q->status == ST_OK_WITH_RESULTS ? "ROWS" :
					q->status == ST_OK_EXECUTED ? "OK" : "ERR");
			if (q && q->status == ST_OK_WITH_RESULTS) {
				fprintf(m, ",\"cols\":");
				emit_cols(m, q->results.table);
			}
			held[slot] = q;
			fprintf(m, ",\"db\":");
			emit_db(m, &db);
			fclose(m);
			fprintf(o, "{\"ev\":\"K\",%s}\n", mem);
			free(mem);
			mem = NULL;
			break;
		}
		case 'F': /* F<slot>: step the held cursor once */
		{
			int slot = l[1] - 'a';
			m = open_memstream(&mem, &msz);
			if (!held[slot] || held[slot]->status != ST_OK_WITH_RESULTS) {
				fprintf(m, "\"st\":\"NONE\"");
			} else if (query_cur_step(&held[slot]->results) == MIDORIDB_ROW) {
				fprintf(m, "\"st\":\"ROW\",\"row\":");
				emit_cursor_row(m, held[slot]);
			} else
				fprintf(m, "\"st\":\"DONE\"");
			fclose(m);
			fprintf(o, "{\"ev\":\"F\",%s}\n", mem);
			free(mem);
			mem = NULL;
			break;
		}
		case 'X': /* X<slot>: free the held result set */
		{
			int slot = l[1] - 'a';
			if (held[slot])
				LIBV(query_free(held[slot]));
			held[slot] = NULL;
			fprintf(o, "{\"ev\":\"X\",\"st\":\"OK\",\"db\":");
			emit_db(o, &db);
			fprintf(o, "}\n");
			break;
		}
		default:
			break;
		}
		fflush(o);
	}
	for (int s = 0; s < 16; s++)
		if (held[s])
			LIBV(query_free(held[s]));
	LIBV(database_close(&db));
	/* what is left and not kept by a variable of the program itself */
	fprintf(o, "{\"ev\":\"CLOSED\",\"lost\":%ld}\n", wrap_leaks ? wrap_leaks(NULL, NULL, 0) : 0L);
}
