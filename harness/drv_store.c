/*
 * Rows, blocks, vacuum and columns of one table, driven through primitive/table.h.
 *
 *   C name type prec flags      a column of the table (before the first operation)
 *   ins v1 v2 ...               values: N  i<int>  d<hex bits>  b0|b1  t<seconds>  s<hex>
 *   badlen v1 v2 ...            an insertion that announces a wrong row length
 *   del k / upd k v1 v2 ...     the k-th live row (modulo their number)
 *   updbad k v1 ...             an update that announces a wrong row length
 *   delbad                      a deletion at an offset outside the block
 *   vac
 *   add name type prec flags / rem name
 */
#include "mdrv.h"
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <lib/bit.h>

static const char *TYPES[] = { "VARCHAR", "INTEGER", "TINYINT", "DOUBLE", "DATE", "DATETIME" };

static enum COLUMN_TYPE type_of(const char *t)
{
	for (int i = 0; i < 6; i++)
		if (!strcmp(t, TYPES[i]))
			return (enum COLUMN_TYPE)i;
	abort();
}

static void column_of(char *spec, struct column *c)
{
	char name[512], type[32], flags[32] = "";
	int prec;
	memset(c, 0, sizeof(*c));
	if (sscanf(spec, "%500s %30s %d %30s", name, type, &prec, flags) < 3)
		abort();
	strncpy(c->name, name, sizeof(c->name) - 1);
	c->type = type_of(type);
	c->precision = prec;
	c->nullable = !!strchr(flags, 'n');
	c->unique = !!strchr(flags, 'u');
	c->auto_inc = !!strchr(flags, 'a');
	c->primary_key = !!strchr(flags, 'p');
	c->indexed = !!strchr(flags, 'i');
}

static void put_column(FILE *o, struct column *c)
{
	fprintf(o, "\"%.127s %s %d %s%s%s%s%s.\"", c->name, (unsigned)c->type < 6 ? TYPES[c->type] : "?", c->precision,
			c->nullable ? "n" : "", c->unique ? "u" : "", c->auto_inc ? "a" : "", c->primary_key ? "p" : "", c->indexed ? "i" : "");
}

static void put_value(FILE *o, struct table *t, struct row *r, int c, size_t pos)
{
	struct column *k = &t->columns[c];
	void *p = &r->data[pos];
	fputc('"', o);
	if (bit_test(r->null_bitmap, c, sizeof(r->null_bitmap))) {
		fprintf(o, "N");
	} else if (k->type == CT_VARCHAR) {
		char *s = *(char**)p;
		fprintf(o, "s");
		for (int i = 0; i < k->precision && s[i]; i++)
			fprintf(o, "%02x", (unsigned char)s[i]);
	} else {
		int64_t v = 0;
		/* a wide fixed column is filled with copies of its value */
		size_t u = (size_t)k->precision < 8 ? (size_t)k->precision : 8;
		memcpy(&v, p, u);
		for (size_t i = u; i + u <= (size_t)k->precision; i += u)
			if (memcmp((char*)p + i, &v, u)) {
				fprintf(o, "torn\"");
				return;
			}
		if (k->type == CT_DOUBLE) fprintf(o, "d%016lx", (unsigned long)v);
		else fprintf(o, "%c%ld", k->type == CT_INTEGER ? 'i' : k->type == CT_TINYINT ? 'b' : 't', (long)v);
	}
	fputc('"', o);
}

static void dump(FILE *o, struct table *t)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(t), dead = 0, blk = 0;
	bool first = true;
	fprintf(o, ",\"cols\":[");
	for (int i = 0; i < t->column_count; i++) {
		if (i) fputc(',', o);
		put_column(o, &t->columns[i]);
	}
	fprintf(o, "],\"rows\":[");
	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[i * rs];
			if (r->flags.empty)
				continue;
			if (r->flags.deleted) {
				dead++;
				continue;
			}
			fprintf(o, "%s[\"%zu.%zu\",[", first ? "" : ",", blk, i);
			first = false;
			size_t p = 0;
			for (int c = 0; c < t->column_count; c++) {
				if (c) fputc(',', o);
				put_value(o, t, r, c, p);
				p += table_calc_column_space(&t->columns[c]);
			}
			fprintf(o, "]]");
		}
		blk++;
	}
	fprintf(o, "],\"dead\":%zu}\n", dead);
	fflush(o);
}

static bool find_row(struct table *t, size_t k, struct datablock **blk, size_t *off, size_t *bi)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(t), n = 0;
	for (int pass = 0; pass < 2; pass++) {
		size_t seen = 0;
		*bi = 0;
		list_for_each(pos, t->datablock_head)
		{
			struct datablock *b = list_entry(pos, typeof(*b), head);
			for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
				struct row *r = (struct row*)&b->data[i * rs];
				if (r->flags.empty || r->flags.deleted)
					continue;
				if (pass && seen == k % n) {
					*blk = b;
					*off = i * rs;
					return true;
				}
				seen++;
			}
			(*bi)++;
		}
		n = seen;
		if (!n)
			return false;
	}
	return false;
}

/* a row as a caller of the storage layer builds it: variable length values by pointer */
static struct row *row_of(struct table *t, char *vals, char ***bufs)
{
	struct row *r = calloc(1, table_calc_row_size(t) + 64);
	char *save = NULL, *v = strtok_r(vals, " ", &save);
	size_t pos = 0;
	*bufs = calloc(t->column_count + 1, sizeof(char*));
	for (int c = 0; c < t->column_count; c++) {
		struct column *k = &t->columns[c];
		if (!v)
			abort();
		if (*v == 'N')
			bit_set(r->null_bitmap, c, sizeof(r->null_bitmap));
		if (k->type == CT_VARCHAR) {
			char *b = calloc(1, k->precision);
			for (int i = 0; *v == 's' && v[1 + 2 * i]; i++) {
				char h[3] = { v[1 + 2 * i], v[2 + 2 * i], 0 };
				if (i < k->precision)
					b[i] = (char)strtol(h, NULL, 16);
			}
			(*bufs)[c] = b;
			memcpy(&r->data[pos], &b, sizeof(b));
		} else if (*v != 'N') {
			uint64_t x = *v == 'd' ? strtoull(v + 1, NULL, 16) : (uint64_t)strtoll(v + 1, NULL, 10);
			size_t u = k->precision < 8 ? k->precision : 8;
			for (size_t i = 0; i + u <= (size_t)k->precision; i += u)
				memcpy(&r->data[pos + i], &x, u);
		}
		pos += table_calc_column_space(k);
		v = strtok_r(NULL, " ", &save);
	}
	return r;
}

static void row_drop(struct table *t, struct row *r, char **bufs)
{
	for (int c = 0; c < t->column_count; c++)
		free(bufs[c]);
	free(bufs);
	free(r);
}

void store_history(FILE *o, char **lines, size_t n)
{
	struct table *t = table_init("t");
	size_t i = 1;
	fprintf(o, "{\"ev\":\"H\",\"id\":\"%s\"}\n", lines[0] + 2);
	if (!t)
		_Exit(9);
	for (; i < n && lines[i][0] == 'C'; i++) {
		struct column c;
		column_of(lines[i] + 2, &c);
		if (!table_add_column(t, &c))
			_Exit(9);
	}
	fprintf(o, "{\"ev\":\"S\"");
	dump(o, t);
	for (; i < n; i++) {
		char op[16] = "", *rest, at[48] = "";
		const char *r = "no";
		struct datablock *b;
		struct row *row;
		char **bufs;
		size_t off, bi, len = table_calc_row_size(t);
		sscanf(lines[i], "%15s", op);
		rest = lines[i] + strlen(op);
		if (*rest) rest++;
		if (!strcmp(op, "ins") || !strcmp(op, "badlen")) {
			row = row_of(t, rest, &bufs);
			if (table_insert_row(t, row, op[0] == 'b' ? len + 8 : len)) r = "ok";
			/* what the caller passed in is its own */
			for (int c = 0; c < t->column_count; c++)
				if (bufs[c]) memset(bufs[c], '#', t->columns[c].precision);
			row_drop(t, row, bufs);
		} else if (!strcmp(op, "del")) {
			if (!find_row(t, strtoul(rest, NULL, 10), &b, &off, &bi)) r = "none";
			else {
				snprintf(at, sizeof(at), "%zu.%zu", bi, off / len);
				if (table_delete_row(t, b, off)) r = "ok";
			}
		} else if (!strcmp(op, "delbad")) {
			if (!find_row(t, 0, &b, &off, &bi)) r = "none";
			else if (table_delete_row(t, b, DATABLOCK_PAGE_SIZE)) r = "ok";
		} else if (!strcmp(op, "upd") || !strcmp(op, "updbad")) {
			char *end;
			size_t k = strtoul(rest, &end, 10);
			if (!find_row(t, k, &b, &off, &bi)) r = "none";
			else {
				snprintf(at, sizeof(at), "%zu.%zu", bi, off / len);
				row = row_of(t, end, &bufs);
				if (table_update_row(t, b, off, row, op[3] ? len - 8 : len)) r = "ok";
				for (int c = 0; c < t->column_count; c++)
					if (bufs[c]) memset(bufs[c], '#', t->columns[c].precision);
				row_drop(t, row, bufs);
			}
		} else if (!strcmp(op, "vac")) {
			if (table_vacuum(t)) r = "ok";
		} else if (!strcmp(op, "add")) {
			struct column c;
			column_of(rest, &c);
			if (table_add_column(t, &c)) r = "ok";
		} else if (!strcmp(op, "rem")) {
			struct column c = { 0 };
			strncpy(c.name, rest, sizeof(c.name) - 1);
			if (table_rem_column(t, &c)) r = "ok";
		}
		fprintf(o, "{\"ev\":\"E\",\"r\":\"%s\",\"at\":\"%s\"", r, at);
		dump(o, t);
	}
	table_destroy(&t);
	fprintf(o, "{\"ev\":\"CLOSED\"}\n");
}
